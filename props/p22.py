"""P22 EI, PI and LCB against their definitions."""
import numpy as np
from hypothesis import strategies as st

from vlib import fakes as fk, models as md
from vlib.core import Law, arr, check, sut

from mfpml.optimization.sf_uncons_acqusitions import EI, LCB, PI

kap = st.one_of(st.none(), st.lists(st.integers(-8, 24).map(lambda i: i / 8), min_size=2, max_size=2))


@st.composite
def fake_cases(draw):
    unit = draw(fk.units)
    return {"d": draw(st.integers(1, 4)), "t": fk.in_unit(unit, draw(fk.table())), "kappa": draw(kap),
            "y": [y * unit for y in draw(st.lists(fk.mean_v, min_size=1, max_size=5))],
            "tie": draw(st.booleans()), "shape": draw(st.sampled_from(["batch", "row", "list"]))}


def verify(case, sur, X, fmin, m, s, rec, eps=1e-8):
    lo, hi = fk.ei_bounds(fmin, m, s, eps)
    a = EI()
    v = sut(a.eval, X.copy(), sur)
    fk.inside(v, -hi, -lo, "EI", mean=m, std=s, fmin=fmin)
    check(bool(np.all(np.ravel(v) <= 1e-8 + 1e-14 * np.abs(fmin - m))), "the expected improvement is negative")
    fk.calls_agree(lambda x: a.eval(x, sur), X, v, "EI")
    lo, hi = fk.pi_bounds(fmin, m, s, eps)
    a = PI()
    v = sut(a.eval, X.copy(), sur)
    fk.inside(v, -hi, -lo, "PI", mean=m, std=s, fmin=fmin)
    fk.calls_agree(lambda x: a.eval(x, sur), X, v, "PI")
    k = case["kappa"]
    a = LCB() if k is None else LCB(kappa=list(k))
    k = [1.0, 1.96] if k is None else k
    want = k[0] * m - k[1] * s
    v = sut(a.eval, X.copy(), sur)
    tol = 1e-12 * (abs(k[0] * m) + abs(k[1] * s)) + 1e-300
    fk.inside(v, want - tol, want + tol, "LCB", mean=m, std=s, kappa=k)
    fk.calls_agree(lambda x: a.eval(x, sur), X, v, "LCB")
    with np.errstate(divide="ignore", invalid="ignore"):
        z = np.abs((fmin - m) / s)
    rec.label("std=0" if (s == 0).any() else "std>0", "far tail" if (z > 4).any() else "bulk",
              f"batch of {len(X)}" if len(X) < 3 else "batch of 3+", "kappa" if case["kappa"] else "default kappa")
    rec.nontrivial(((z < 8) & (s > 0)).any())


def law_fake(case, rec):
    m = np.array([t[0] for t in case["t"]], float)
    s = np.array([t[1] for t in case["t"]], float)
    y = list(case["y"])
    if case["tie"]:
        y.append(float(m[0]))
    sur = fk.Table(case["d"], m, s, y)
    X = np.array([fk.point(i, case["d"]) for i in range(len(m))])
    verify(case, sur, X, min(y), m, s, rec)


@st.composite
def real_cases(draw):
    case = draw(md.gp_case(n_max=9, d_max=3, large=True))
    case["q"] = draw(md.queries(case["d"]))
    case["kappa"] = draw(kap)
    return case


def law_real(case, rec):
    md.ref_gp(case, *md.gp_arrays(case))           # conditioning
    gp, _, X, Y = md.trained_gp(case)
    Q = np.vstack([md.points_of(case, case["q"]), X[:2]])
    # point by point: the reference is independent of the batch
    ms = [sut(gp.predict, q[None, :].copy(), return_std=True) for q in Q]
    m, s = np.array([a.item() for a, _ in ms]), np.array([b.item() for _, b in ms])
    fmin = float(Y.min())
    sc = float(Y.std())
    bm, bs = sut(gp.predict, Q.copy(), return_std=True)
    for cls, ref in ((EI, fk.ei_bounds), (PI, fk.pi_bounds)):
        lo, hi = ref(fmin, m, s, 1e-8)
        v = np.concatenate([np.ravel(sut(cls().eval, q.copy(), gp)) for q in Q])
        fk.inside(v, -hi, -lo, cls.__name__, mean=m, std=s, fmin=fmin)
        lo, hi = ref(fmin, bm.ravel(), bs.ravel(), 1e-8)
        fk.inside(sut(cls().eval, Q.copy(), gp), -hi, -lo, cls.__name__ + " of a batch", mean=bm, std=bs, fmin=fmin)
    k = case["kappa"] or [1.0, 1.96]
    a = LCB(kappa=list(k)) if case["kappa"] else LCB()
    v = np.concatenate([np.ravel(sut(a.eval, q.copy(), gp)) for q in Q])
    want = k[0] * m - k[1] * s
    tol = 1e-10 * (abs(k[0] * m) + abs(k[1] * s) + sc)
    fk.inside(v, want - tol, want + tol, "LCB", mean=m, std=s, kappa=k)
    want = k[0] * bm.ravel() - k[1] * bs.ravel()
    fk.inside(sut(a.eval, Q.copy(), gp), want - tol, want + tol, "LCB of a batch", mean=bm, std=bs, kappa=k)
    rec.label(case["noise"][0], case["regr"], f"d={case['d']}")
    rec.nontrivial(True)


LAWS = [
    Law("fake_surrogate", fake_cases, law_fake, 3000, shards=3,
        rule="a point with positive standard deviation within eight of them of the best response"),
    Law("trained_surrogate", real_cases, law_real, 600, shards=3),
]
ASSUMPTIONS = ["A regularisation of the standard deviation of up to 1e-8 is allowed where it divides (the code adds 1e-9)."]
