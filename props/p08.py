"""P08 test problems against independently written scalar formulas."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, problems as pr
from vlib.core import Law, arr, check, sut


FLAT = ("Ackley", "AckleyN2", "Thevenot")


@st.composite
def points(draw):
    case = draw(pr.pick(d_max=draw(st.sampled_from([6, 6, 6, 24]))))
    case["u"] = draw(pr.unit_points(case["d"], 1, 5))
    if draw(gen.rare()):                    # a large batch, of which some rows are compared
        case["many"], case["seed"] = draw(st.integers(30, 600)), draw(st.integers(0, 9999))
    return case


def law_formula(case, rec):
    spec = pr.BY_NAME[case["name"]]
    p = sut(pr.build, case)
    if case.get("many"):
        more = np.round(np.random.default_rng(case["seed"]).random((case["many"], case["d"])), 3)
        case = dict(case, u=np.vstack([more, case["u"]]))
        rec.label("large batch")
    x = pr.to_domain(case["u"], spec.domain(case["d"]))
    some = range(0, len(x), max(1, len(x) // 40)) if len(x) > 20 else range(len(x))
    todo = [(k, getattr(p, k), [getattr(spec, k)]) for k in spec.fids]
    if spec.cons:
        todo.append(("f_cons", p.f_cons, spec.cons))
    for name, fn, refs in todo:
        got = arr(sut(fn, x.copy()), (len(x), len(refs)), f"{case['name']}.{name}")
        for i in some:
            row = x[i]
            for j, ref in enumerate(refs):
                r = [float(v) for v in row]
                want = ref(r, **case["pars"]) if case["pars"] else ref(r)
                tol = 1e-8 * (1 + abs(want))
                check(abs(got[i, j] - want) <= tol,
                      f"{case['name']}.{name} is not its formula: {got[i, j]!r} instead of {want!r}",
                      x=r, parameters=case["pars"])
                if i == 0 and case["name"] in FLAT:     # these also accept one point as a vector
                    one = arr(sut(fn, row.copy()), what=f"{case['name']}.{name} of one point")
                    check(one.size == 1 and abs(one.ravel()[0] - want) <= tol,
                          f"{case['name']}.{name} of a single point is not its formula", x=r, got=one, want=want)
    rec.label(case["name"], "free parameters" if case["pars"] else "default parameters")
    rec.nontrivial(len({tuple(r) for r in x.tolist()} - {tuple(np.asarray(p.input_domain)[:, 0])}) >= 1)


LAWS = [Law("formula", points, law_formula, 6000, shards=4,
            rule="a point other than the lower corner of the domain")]
ASSUMPTIONS = ["The published formulas are the ones written out in vlib/problems.py (scalar, math module)."]
