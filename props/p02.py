"""P02 Latin hypercube stratification and independence of fidelities."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Law, arr, check, sut
from vlib.doe import (make_sf, make_mf, mf_case, sf_case, space_of,
                      space_array, to_unit)


def stratified(x, space, what):
    """Exactly one point in each of the n equal intervals of every dimension."""
    n = len(x)
    s = np.asarray(space, float)
    u = np.sort(to_unit(x, s), axis=0)
    i = np.arange(n)[:, None]
    # rounding of lo + u*(hi-lo), seen in unit coordinates
    tol = 8 * np.finfo(float).eps * (1 + np.abs(s).max(axis=1) / (s[:, 1] - s[:, 0]))
    bad = (u < i / n - tol) | (u > (i + 1) / n + tol)
    if bad.any():
        r, k = np.argwhere(bad)[0]
        check(False, f"{what}: interval {int(r)} of {n} of dimension {int(k)} "
                     "does not hold exactly one point",
              sorted_unit=[float(v) for v in u[:20, k]])


def law_sf(case, rec):
    smp = sut(make_sf, "lhs", space_array(case), case)
    for n, seed in case["draws"]:
        x = arr(sut(smp.get_samples, num_samples=n, seed=seed),
                (n, len(case["space"])), "samples")
        stratified(x, case["space"], "Latin hypercube")
    m = max(n for n, _ in case["draws"])
    rec.label("d=%d" % len(case["space"]), "n>64" if m > 64 else "n<=64")
    rec.nontrivial(m >= 3)


@st.composite
def strat_mf(draw):
    case = draw(mf_case(kinds=("lhs",)))
    if draw(st.booleans()):     # equal sizes: copies would be visible
        case["draws"] = [[[s[-1]] * len(s), seed] for s, seed in case["draws"]]
    return case


def independent(a, b, what, fine):
    """Two designs (unit coordinates) share neither points, nor columns, nor orders."""
    m, n = len(a), len(b)
    if fine and m * n <= 40000:
        check(np.abs(a[:, None, :] - b[None]).min() > 0, f"{what} share a coordinate")
    if m != n or n < 3:
        return
    for k in range(a.shape[1]):
        # the offsets within the intervals of two independent designs never agree
        for l in range(a.shape[1]):
            x, y = np.sort(a[:, k]), np.sort(b[:, l])
            check(np.abs(x - y).max() > 1e-6 and np.abs(x - np.sort(1 - y)).max() > 1e-6,
                  f"{what} are copies of each other", columns=[k, l])
            if n >= 13:
                r, s = np.argsort(np.argsort(a[:, k])), np.argsort(np.argsort(b[:, l]))
                check((r != s).any() and (r != n - 1 - s).any(), f"{what} have the same order", columns=[k, l])


def law_mf(case, rec):
    smp = sut(make_mf, case)
    d = case["d"]
    pairs = 0
    for sizes, seed in case["draws"]:
        data = sut(smp.get_samples, num_samples=list(sizes), seed=seed)
        xs = [arr(data[k], (n, d), f"samples of fidelity {k}")
              for k, n in enumerate(sizes)]
        free = [len(sizes) - 1] if case["nested"] else range(len(sizes))
        for k in free:
            stratified(xs[k], space_of(case, k), f"fidelity {k}")
        if not case["nested"]:
            us = [to_unit(xs[k], space_of(case, k)) for k in range(len(sizes))]
            for i in range(len(us)):
                for j in range(i):
                    pairs += sizes[i] == sizes[j] and sizes[i] >= 3
                    independent(us[j], us[i], f"fidelities {j} and {i}",
                                all(np.spacing(max(map(abs, s))) < 1e-12 * (s[1] - s[0])
                                    for k in (i, j) for s in space_of(case, k)))
    rec.label("nested" if case["nested"] else "independent",
              "equal sizes" if pairs else "no equal sizes",
              f"fidelities={case['nf']}")
    rec.nontrivial(any(s[-1] >= 3 for s, _ in case["draws"]))


@st.composite
def sf_lhs(draw):
    return draw(sf_case(kinds=("lhs",)))


LAWS = [
    Law("single_fidelity", sf_lhs, law_sf, 1200, shards=2,
        rule="at least three points are drawn"),
    Law("multi_fidelity", strat_mf, law_mf, 1500, shards=2,
        rule="the lowest fidelity has at least three points"),
]
ASSUMPTIONS = ["A point on an interval edge counts for either side within 8 ulp of the scaling."]
