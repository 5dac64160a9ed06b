"""P11 polynomial basis functions."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Law, arr, check, sut
from vlib.models import REGR

coord = st.one_of(st.integers(-9, 9).map(float), st.floats(-100, 100, allow_nan=False, width=32))


@st.composite
def sets(draw):
    d = draw(st.integers(1, 6))
    n = draw(st.integers(1, 9))
    if draw(gen.rare()):                    # many points and dimensions
        n, d, seed = draw(st.integers(20, 300)), draw(st.integers(1, 14)), draw(st.integers(0, 9999))
        rng = np.random.default_rng(seed)
        return {"regr": draw(st.sampled_from(sorted(REGR))), "seed": seed,
                "x": np.round(rng.normal(0, 5, (n, d)), 2).tolist(), "perm": rng.permutation(n).tolist()}
    return {"regr": draw(st.sampled_from(sorted(REGR))),
            "x": draw(st.lists(st.lists(coord, min_size=d, max_size=d), min_size=n, max_size=n)),
            "perm": draw(st.permutations(range(n)))}


def law_basis(case, rec):
    x = np.array(case["x"], float)
    n, d = x.shape
    fn = sut(REGR[case["regr"]])
    p = {"ordinary": 1, "linear": d + 1, "quadratic": (d + 1) * (d + 2) // 2}[case["regr"]]
    keep = x.copy()
    F = arr(sut(fn, x), (n, p), f"{case['regr']} basis")
    check(np.array_equal(x, keep), "the basis modifies its input")
    check(bool(np.all(F[:, 0] == 1)), "the first column is not the constant")
    if p > 1:
        check(np.array_equal(F[:, 1:d + 1], x), "the linear columns are not the coordinates in order")
    if case["regr"] == "quadratic":
        # every product of two coordinates exactly once
        for i in range(n):
            want = sorted(x[i, a] * x[i, b] for a in range(d) for b in range(a, d))
            check(bool(np.allclose(sorted(F[i, d + 1:]), want, rtol=1e-12, atol=0)),
                  f"row {i} does not hold every product of two coordinates once",
                  got=F[i, d + 1:], want=want)
        # the same product sits in the same column of every row
        probe = np.array([[k ** 0.5 for k in (3, 2, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43)][:d],
                          [17.0 ** 0.5, 1.9, 0.7, 1.3, 2.1, 0.3, 0.9, 1.1, 2.3, 3.7, 0.2, 4.1, 5.3, 0.6][:d]])
        Q = arr(sut(fn, probe), (2, p), "basis of the probe")
        pair = {}
        for c in range(d + 1, p):
            hit = [(a, b) for a in range(d) for b in range(a, d)
                   if abs(probe[0, a] * probe[0, b] - Q[0, c]) < 1e-12]
            check(len(hit) == 1 and abs(probe[1, hit[0][0]] * probe[1, hit[0][1]] - Q[1, c]) < 1e-12,
                  f"column {c} is not one product of coordinates in every row")
            pair[c] = hit[0]
            check(bool(np.allclose(F[:, c], x[:, hit[0][0]] * x[:, hit[0][1]], rtol=1e-12, atol=0)),
                  f"column {c} is not the product of coordinates {hit[0]}")
        check(len(set(pair.values())) == p - d - 1, "a product of coordinates is missing")
    check(np.array_equal(arr(sut(fn, x[case["perm"]]), (n, p), "basis"), F[case["perm"]]),
          "reordering the points does not reorder the rows")
    rows = np.vstack([arr(sut(fn, x[i:i + 1]), (1, p), "basis") for i in range(n)])
    check(np.array_equal(rows, F), "a row depends on the other points")
    rec.label(case["regr"], f"d={d}")
    rec.nontrivial(n >= 2 and case["regr"] != "ordinary" or n >= 2 and d >= 2)


LAWS = [Law("basis", sets, law_basis, 2500, shards=2, rule="at least two points, and more than a constant column or dimension")]
ASSUMPTIONS = ["The order of the quadratic columns is free, that of the linear ones is not."]
