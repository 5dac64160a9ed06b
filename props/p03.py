"""P03 Sobol samplers: one sequence, prefix / skip / rescale relations, strata."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Law, arr, check, sut, Inconclusive
from vlib.doe import make_mf, space_of, to_unit

from mfpml.design_of_experiment.sf_samplers import SobolSequence

ns = st.one_of(st.integers(1, 20), st.integers(1, 140),
               st.sampled_from([1, 2, 4, 16, 32, 64, 128, 256]))
skips = st.one_of(st.none(), st.integers(0, 12), st.integers(0, 70),
                  st.sampled_from([0, 1, 8, 16, 32, 64]))


@st.composite
def sf(draw):
    d, n = draw(st.integers(1, 6)), ns
    if draw(gen.rare(15)):
        d, n = draw(st.integers(1, 24)), st.integers(200, 1500)
    skip, far = skips, draw(gen.rare(8))
    if far:                                 # far along the sequence, in overlapping draws
        base = draw(st.sampled_from([100, 250, 500, 1000, 1020, 2000, 4090, 10000]))
        skip = st.integers(base, base + 30)
    return {"d": d, "seed": draw(gen.seeds),
            "draws": draw(st.lists(st.fixed_dictionaries({
                "n": n, "skip": skip,
                "space": gen.space_d(d, ("unit", "int", "eighth", "offset", "huge", "tiny"))}),
                min_size=2, max_size=4))}


def _tol(space):
    s = np.asarray(space, float)
    return 16 * np.finfo(float).eps * (1 + np.abs(s).max(axis=1) / (s[:, 1] - s[:, 0]))


def strata(u, start, tol, what):
    """u: points start, start+1, ... of the sequence."""
    n = len(u)
    found = 0
    m = 1
    while (1 << m) <= n:
        size = 1 << m
        a = (-(-start // size)) * size
        while a + size <= start + n:
            b = np.sort(u[a - start:a - start + size], axis=0)
            i = np.arange(size)[:, None]
            check(bool(np.all((b >= i / size - tol) & (b <= (i + 1) / size + tol))),
                  f"{what}: points {a}..{a + size - 1} of the sequence do not fill "
                  f"the {size} equal intervals of every dimension")
            found = max(found, size)
            a += size
        m += 1
    return found


def compare(got, what):
    """got: list of (start, unit points, tol); overlaps must agree."""
    common = 0
    for i in range(len(got)):
        for j in range(i):
            (s1, u1, t1), (s2, u2, t2) = got[i], got[j]
            lo, hi = max(s1, s2), min(s1 + len(u1), s2 + len(u2))
            if lo >= hi:
                continue
            common = max(common, hi - lo)
            a, b = u1[lo - s1:hi - s1], u2[lo - s2:hi - s2]
            check(bool(np.all(np.abs(a - b) <= t1 + t2)),
                  f"{what}: draws of one sequence disagree on points {lo}..{hi - 1}",
                  worst=float(np.abs(a - b).max()))
    return common


def law_sf(case, rec):
    d, got, blocks = case["d"], [], 0
    for dr in case["draws"]:
        dom = np.array(dr["space"])
        # without a skip the sampler leaves out one point per dimension
        kw = {} if dr["skip"] is None else {"num_skip": dr["skip"]}
        smp = sut(SobolSequence, design_space=dom, **kw)
        x = arr(sut(smp.get_samples, num_samples=dr["n"], seed=case["seed"]),
                (dr["n"], d), "samples")
        start = d if dr["skip"] is None else dr["skip"]
        u, tol = to_unit(x, dom), _tol(dom)
        blocks = max(blocks, strata(u, start, tol, "Sobol"))
        got.append((start, u, tol))
    common = compare(got, "Sobol")
    if min(s for s, _, _ in got) >= 100:    # against a draw from the start
        last = max(s + len(u) for s, u, _ in got)
        dom = np.array([[0.0, 1.0]] * d)
        whole = arr(sut(sut(SobolSequence, design_space=dom, num_skip=0).get_samples, num_samples=last, seed=case["seed"]),
                    (last, d), "samples")
        common = max(common, compare([(0, whole, _tol(dom)), *got], "Sobol"))
        rec.label("far along the sequence")
    # distinct points
    for start, u, tol in got:
        check(len(np.unique(u, axis=0)) == len(u), "a Sobol draw repeats a point")
    rec.label(f"d={d}", f"largest block {blocks}", "overlap" if common else "no overlap")
    rec.nontrivial(common >= 2 and blocks >= 4)


@st.composite
def mf(draw):
    nf = draw(st.integers(1, 4))
    d = draw(st.integers(1, 5))
    shared = draw(st.booleans())
    return {"kind": "sobol", "nf": nf, "d": d, "nested": False, "shared": shared,
            "as_list": draw(st.booleans()) if shared else True,
            "spaces": [draw(gen.space_d(d)) for _ in range(1 if shared else nf)],
            "skip": None, "skips": draw(st.lists(st.integers(0, 40), min_size=1, max_size=3)),
            "sizes": draw(st.lists(ns, min_size=nf, max_size=nf).map(sorted)),
            "seed": draw(gen.seeds)}


def law_mf(case, rec):
    got, blocks = [], 0
    for skip in case["skips"]:
        smp = sut(make_mf, dict(case, skip=skip))
        data = sut(smp.get_samples, num_samples=list(case["sizes"]), seed=case["seed"])
        for k, n in enumerate(case["sizes"]):
            x = arr(data[k], (n, case["d"]), f"fidelity {k}")
            u, tol = to_unit(x, space_of(case, k)), _tol(space_of(case, k))
            blocks = max(blocks, strata(u, skip, tol, f"fidelity {k}"))
            got.append((k, skip, u, tol))
            check(len(np.unique(u, axis=0)) == len(u), f"fidelity {k} repeats a point")
    # the stretch of one fidelity does not depend on skip, space or size
    common = 0
    for k in range(case["nf"]):
        common = max(common, compare([(s, u, t) for q, s, u, t in got if q == k],
                                     f"fidelity {k}"))
    rec.label(f"fidelities={case['nf']}", f"largest block {blocks}",
              "overlap" if common else "no overlap")
    rec.nontrivial(blocks >= 4)


LAWS = [
    Law("single_fidelity", sf, law_sf, 1200, shards=2,
        rule="two draws share at least two points of the sequence and an aligned block of four is complete"),
    Law("multi_fidelity", mf, law_mf, 900, shards=2,
        rule="an aligned block of at least four points is complete"),
]
ASSUMPTIONS = ["Without num_skip the single-fidelity Sobol sampler starts at point d of the sequence (its documented default)."]
