"""P07 test problems are finite row-wise functions."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, problems as pr
from vlib.core import Law, arr, check, sut


@st.composite
def batches(draw):
    case = draw(pr.pick(d_max=draw(st.sampled_from([6, 6, 6, 24]))))
    case["ints"] = draw(gen.rare(6))
    n = draw(st.integers(1, 8))
    if draw(gen.rare()):                    # a large batch
        n = case["many"] = draw(st.integers(30, 600))
        case["u"], case["seed"] = None, draw(st.integers(0, 9999))
        case["perm"] = None
        case["cut"] = draw(st.integers(0, n))
        case["rep"] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=6))
        case["order"] = draw(st.sampled_from(["C", "F"]))
        return case
    case["u"] = draw(pr.unit_points(case["d"], n, n))
    case["perm"] = draw(st.permutations(range(n)))
    case["cut"] = draw(st.integers(0, n))
    case["rep"] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=6))
    case["order"] = draw(st.sampled_from(["C", "F"]))
    return case


def law_rows(case, rec):
    if case.get("many"):
        rng = np.random.default_rng(case["seed"])
        case = dict(case, u=np.round(rng.random((case["many"], case["d"])), 3), perm=rng.permutation(case["many"]))
        rec.label("large batch")
    spec = pr.BY_NAME[case["name"]]
    p = sut(pr.build, case)
    x = pr.to_domain(case["u"], spec.domain(case["d"]))
    if case.get("ints"):                    # points with integer coordinates
        lo, hi = np.asarray(spec.domain(case["d"]), float).T
        if (np.ceil(lo) <= np.floor(hi)).all():
            x = np.clip(np.round(x), np.ceil(lo), np.floor(hi))
    x = np.array(x, order=case["order"])
    n = len(x)
    funcs = [(k, getattr(p, k), 1) for k in spec.fids]
    if spec.cons:
        funcs.append(("f_cons", p.f_cons, len(spec.cons)))
    for name, fn, m in funcs:
        def ev(z, fn=fn, name=name, m=m):
            z = np.array(z, order=case["order"])
            keep = z.copy()
            y = arr(sut(fn, z), (len(z), m), f"{case['name']}.{name}")
            check(np.array_equal(z, keep), f"{case['name']}.{name} modifies its input")
            return y.copy()

        what = f"{case['name']}.{name}"
        y = ev(x)
        if case.get("ints") and (x == np.round(x)).all():
            yi = ev(x.astype(int))
            check(np.allclose(yi, y, rtol=1e-12, atol=1e-13 * (1 + np.abs(y).max())),
                  f"{what}: an integer array of the same points gives other values", got=yi.ravel(), want=y.ravel(), x=x)
            rec.label("integer array")

        def same(a, b, how):
            # vectorized functions may differ in the last bits between batches
            tol = 1e-12 * (1 + np.abs(b)) + 1e-13 * np.abs(y).max()
            check(a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol)),
                  f"{what}: {how}", got=a.ravel(), want=b.ravel(), x=x)

        same(ev(x[case["perm"]]), y[case["perm"]], "permuting the points does not permute the values")
        c = case["cut"]
        if 0 < c < n:
            same(np.vstack([ev(x[:c]), ev(x[c:])]), y, "splitting the batch changes the values")
        same(np.vstack([ev(x[i:i + 1]) for i in range(n)]), y, "a row depends on other rows")
        same(ev(x[case["rep"]]), y[case["rep"]], "repeating points changes their values")
        check(np.array_equal(ev(x), y), f"{what}: evaluating again changes the values")
    u = np.asarray(case["u"])
    edge = bool(((u == 0) | (u == 1)).any())
    rec.label(case["name"], "on the boundary" if edge else "interior")
    rec.nontrivial(n >= 2 and len(np.unique(x, axis=0)) >= 2)


LAWS = [Law("rows", batches, law_rows, 4000, shards=4,
            rule="at least two distinct points in the batch")]
ASSUMPTIONS = ["Inputs are n-by-d float arrays of points of the recorded domain.",
               "Values may differ by 1e-12 relative between batch shapes (vectorized library functions)."]
