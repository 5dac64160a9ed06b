"""Cases and constructors for the samplers."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import check

from mfpml.design_of_experiment.sf_samplers import (
    FixNumberSampler, LatinHyperCube, RandomSampler, SobolSequence)
from mfpml.design_of_experiment.mf_samplers import (
    MFLatinHyperCube, MFSobolSequence)

EPS = 1e-12

counts = st.one_of(st.integers(1, 12), st.integers(1, 70),
                   st.sampled_from([1, 2, 16, 32, 33, 64, 100, 128, 200]))


@st.composite
def sf_case(draw, kinds=("lhs", "random", "sobol", "fix"), draws=3):
    kind = draw(st.sampled_from(kinds))
    big = draw(gen.rare(15))
    n, m = (st.integers(150, 1500), draws) if big else (counts, draws)
    if draw(gen.rare(60)):                  # very many points
        n, m, big = st.integers(1500, 12000), 1, False
    return {"kind": kind, "space": draw(gen.wide_space() if big else gen.space(1, 6)),
            "form": draw(st.sampled_from(["array", "list"])) if kind != "sobol" else "array",
            "skip": draw(st.one_of(st.none(), st.integers(0, 40))),
            "draws": draw(st.lists(st.tuples(n, gen.seeds), min_size=1,
                                   max_size=m))}


def space_array(case):
    if case.get("form") == "list":
        return [list(b) for b in case["space"]]
    return np.array(case["space"])


def make_sf(kind, dom, case):
    if kind == "lhs":
        return LatinHyperCube(design_space=dom)
    if kind == "random":
        return RandomSampler(design_space=dom)
    if kind == "fix":
        return FixNumberSampler(design_space=dom)
    if case.get("skip") is None:
        return SobolSequence(design_space=dom)
    return SobolSequence(design_space=dom, num_skip=case["skip"])


@st.composite
def mf_case(draw, kinds=("lhs", "sobol"), nested=None, draws=3, max_n=40, d_max=4,
            nfs=(1, 2, 2, 2, 3, 3, 4, 5)):
    nf = draw(st.sampled_from(nfs))
    d = draw(st.integers(1, d_max))
    if max_n >= 40 and d_max >= 4 and draw(gen.rare(15)):
        nf, d, max_n = draw(st.integers(1, 7)), draw(st.integers(1, 12)), 500
        if draw(gen.rare(4)):               # very many points
            nf, d, max_n = draw(st.integers(1, 3)), draw(st.integers(1, d_max)), 9000
    isn = draw(st.booleans()) if nested is None else nested
    shared = True if isn else draw(st.booleans())
    spaces = [draw(gen.space_d(d, ("unit", "int", "eighth", "tiny", "huge",
                                   "offset", "dec")))
              for _ in range(1 if shared else nf)]
    sizes = st.lists(st.integers(1, max_n), min_size=nf, max_size=nf).map(sorted)
    return {"kind": draw(st.sampled_from(kinds)), "nf": nf, "d": d,
            "nested": isn, "shared": shared,
            "as_list": draw(st.booleans()) if shared else True,
            "spaces": spaces,
            "skip": draw(st.one_of(st.none(), st.integers(0, 40))),
            "draws": draw(st.lists(st.tuples(sizes, gen.seeds), min_size=1,
                                   max_size=draws))}


def space_of(case, k):
    return case["spaces"][0 if case["shared"] else k]


def make_mf(case, dom=None):
    if dom is None:
        dom = mf_domain(case)
    kw = dict(design_space=dom)
    if case["nested"] or len(case.get("draws", [])) != 2:
        kw["nested"] = case["nested"]
    if not case["as_list"]:
        kw["num_fidelity"] = case["nf"]
    if case["kind"] == "lhs":
        return MFLatinHyperCube(**kw)
    if case["skip"] is not None:
        kw["num_skip"] = case["skip"]
    return MFSobolSequence(**kw)


def mf_domain(case):
    if case["as_list"]:
        return [np.array(space_of(case, k)) for k in range(case["nf"])]
    return np.array(case["spaces"][0])


def inside(x, space, what):
    s = np.asarray(space, float)
    lo, hi = s[:, 0], s[:, 1]
    slack = EPS * np.maximum(np.abs(lo), np.abs(hi))
    bad = (x < lo - slack) | (x > hi + slack)
    if bad.any():
        i, k = np.argwhere(bad)[0]
        check(False, f"{what}: point {int(i)} leaves the design space in dimension {int(k)}",
              value=float(x[i, k]), bounds=[float(lo[k]), float(hi[k])])


def to_unit(x, space):
    s = np.asarray(space, float)
    return (x - s[:, 0]) / (s[:, 1] - s[:, 0])
