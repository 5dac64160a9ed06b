"""P23 constrained expected improvement."""
import numpy as np
from hypothesis import strategies as st

from vlib import fakes as fk, gen, models as md
from vlib.core import Law, sut

from mfpml.optimization.sf_cons_acqusitions import CEI

EPS = 1e-8


@st.composite
def cases(draw):
    n = draw(st.integers(1, 6))
    c = draw(st.integers(5, 10) if draw(gen.rare(6)) else st.integers(0, 4))
    row = st.lists(st.tuples(fk.mean_v, fk.std_v), min_size=n, max_size=n)
    small = st.lists(st.tuples(st.integers(-16, 16).map(lambda i: i / 8), fk.std_pos), min_size=n, max_size=n)
    unit, units = draw(fk.units), [draw(fk.units) for _ in range(c)]
    return {"d": draw(st.integers(1, 4)), "obj": fk.in_unit(unit, draw(row)),
            "cons": [fk.in_unit(u, draw(st.one_of(row, small, small))) for u in units],
            "again": draw(st.one_of(st.just([]), st.tuples(st.integers(0, 3), st.integers(-16, 16).map(lambda i: i / 8)))),
            "y": [y * unit for y in draw(st.lists(fk.mean_v, min_size=1, max_size=5))]}


def least(lo, plo, phi):
    """The regularised improvement can be slightly negative."""
    return lo * np.where(lo < 0, phi, plo)


def law_fake(case, rec):
    d = case["d"]
    m, s = (np.array([t[k] for t in case["obj"]], float) for k in (0, 1))
    fmin = min(case["y"])
    sur = fk.Table(d, m, s, case["y"])
    lo, hi = fk.ei_bounds(fmin, m, s, EPS)
    cons = []
    plo = phi = np.ones(len(m))
    for c in case["cons"]:
        cm, cs = (np.array([t[k] for t in c], float) for k in (0, 1))
        # its own responses are all different from those of the objective
        cons.append(fk.Table(d, cm, cs, [123.0]))
        a, b = fk.pi_bounds(0.0, cm, cs, EPS)
        plo, phi = plo * np.maximum(a, 0), phi * b
    X = np.array([fk.point(i, d) for i in range(len(m))])
    acq = CEI()
    v = sut(acq.eval, X.copy(), sur, cons)
    tiny = 1e-14 * (np.abs(fmin - m) + s)
    fk.inside(v, -hi * phi - tiny, -least(lo, plo, phi) + tiny, "CEI", mean=m, std=s, fmin=fmin)
    fk.calls_agree(lambda x: acq.eval(x, sur, cons), X, v, "CEI")
    # the same acquisition and surrogate objects after another training
    if len(case["again"]) and len(case["cons"]):
        tables = [np.array(c, float).T for c in case["cons"]]
        plo = phi = np.ones(len(m))
        for i, c in enumerate(cons):
            cm, cs = tables[(i + case["again"][0]) % len(tables)] + np.array([[case["again"][1]], [0.0]])
            c.table = (cm, cs)
            a, b = fk.pi_bounds(0.0, cm, cs, EPS)
            plo, phi = plo * np.maximum(a, 0), phi * b
        sur.table, m2, s2 = (m[::-1].copy(), s[::-1].copy()), m[::-1], s[::-1]
        lo, hi = fk.ei_bounds(fmin, m2, s2, EPS)
        tiny = tiny[::-1]
        v = sut(acq.eval, X.copy(), sur, cons)
        fk.inside(v, -hi * phi - tiny, -least(lo, plo, phi) + tiny, "CEI after the surrogates changed", mean=m2, std=s2, fmin=fmin)
    rec.label(f"{len(cons)} constraints", "batch" if len(X) > 1 else "one point")
    rec.nontrivial(len(cons) >= 1 and (lo * plo > 1e-6).any())


@st.composite
def real_cases(draw):
    case = draw(md.gp_case(n_max=8, d_max=2, large=True))
    case["cy"] = [draw(md.responses(case["n"])) for _ in range(draw(st.integers(1, 3)))]
    case["q"] = draw(md.queries(case["d"]))
    return case


def law_real(case, rec):
    md.ref_gp(case, *md.gp_arrays(case))
    gp, _, X, Y = md.trained_gp(case)
    gs = [md.trained_gp(dict(case, y=y))[0] for y in case["cy"]]
    Q = md.points_of(case, case["q"])
    one = [[sut(g.predict, q[None, :].copy(), return_std=True) for q in Q] for g in [gp] + gs]
    ms = [(np.array([a.item() for a, _ in o]), np.array([b.item() for _, b in o])) for o in one]
    fmin = float(Y.min())
    lo, hi = fk.ei_bounds(fmin, *ms[0], EPS)
    plo = phi = np.ones(len(Q))
    for m, s in ms[1:]:
        a, b = fk.pi_bounds(0.0, m, s, EPS)
        plo, phi = plo * np.maximum(a, 0), phi * b
    v = np.concatenate([np.ravel(sut(CEI().eval, q.copy(), gp, list(gs))) for q in Q])
    fk.inside(v, -hi * phi - 1e-14, -least(lo, plo, phi) + 1e-14, "CEI of trained models", mean=ms[0][0], std=ms[0][1], fmin=fmin)
    rec.label(f"{len(gs)} constraints")
    rec.nontrivial((lo * plo > 1e-6 * Y.std()).any())


LAWS = [
    Law("fake_surrogates", cases, law_fake, 3000, shards=3,
        rule="at least one constraint and a point with constrained expected improvement above 1e-6"),
    Law("trained_surrogates", real_cases, law_real, 300, shards=3,
        rule="a point with constrained expected improvement above 1e-6 standard deviations"),
]
ASSUMPTIONS = ["A regularisation of the standard deviations of up to 1e-8 is allowed where they divide."]
