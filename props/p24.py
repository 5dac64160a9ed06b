"""P24 multi-fidelity acquisitions against their definitions."""
import numpy as np
from hypothesis import strategies as st
from scipy.special import ndtr

from vlib import fakes as fk, models as md
from vlib.core import Law, arr, check, sut

from mfpml.optimization.mf_acqusitions import VFEI, VFLCB, AugmentedEI, ExtendedPI

crs = st.sampled_from([0.1, 0.5, 1.0, 2.0, 5.0, 10.0, 37.5])


@st.composite
def cases(draw):
    n = draw(st.integers(2, 7))
    row = lambda s: st.lists(st.tuples(fk.mean_v, s), min_size=n, max_size=n)
    near = st.lists(st.tuples(st.integers(-16, 16).map(lambda i: i / 8), fk.std_pos), min_size=n, max_size=n)
    unit = draw(fk.units)
    return {"d": draw(st.integers(1, 3)),
            "hf": fk.in_unit(unit, draw(st.one_of(near, row(fk.std_pos)))),
            "lf": fk.in_unit(unit, draw(st.one_of(near, row(fk.std_pos)))),
            "repeat": draw(st.one_of(st.just([0, 0]), st.tuples(*[st.sampled_from([0, 3, 20, 70, 150])] * 2))),
            "zero": draw(st.one_of(st.none(), st.none(), st.integers(0, n - 1))),
            "xh": draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4)),
            "xl": draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4)),
            "fmin": unit * draw(st.one_of(fk.mean_v, st.integers(-16, 16).map(lambda i: i / 8))),
            "cr": draw(crs), "beta": draw(st.integers(-16, 16).map(lambda i: i / 4)),
            "corr": draw(st.sampled_from([0.0, 0.1, 1.0])),
            "kappa": draw(st.one_of(st.none(), st.lists(st.integers(-8, 24).map(lambda i: i / 8), min_size=2, max_size=2))),
            "sub": draw(st.permutations(range(n)))}


def build(case, hf=None, lf=None, corr=None, scale=None):
    hf, lf = hf or case["hf"], lf or case["lf"]
    col = lambda t, k: np.array([r[k] for r in t], float)
    sh = col(hf, 1)
    if case["zero"] is not None:
        sh[case["zero"]] = 0.0
    d, rep = case["d"], case.get("repeat", [0, 0])
    sur = fk.MFTable(d, col(hf, 0), sh)
    sur.set_lf(fk.Table(d, col(lf, 0), col(lf, 1)), [fk.point(i, d) for i in case["xh"] + case["xh"][-1:] * rep[0]],
               [fk.point(i, d) for i in case["xl"] + case["xl"][-1:] * rep[1]], beta=np.array([[case["beta"]]]),
               corr=case["corr"] if corr is None else corr, scale=scale)
    return sur, col(hf, 0), sh, col(lf, 0), col(lf, 1)


def law_fake(case, rec):
    sur, m, s, ml, sl = build(case)
    fmin, cr, d = float(case["fmin"]), case["cr"], case["d"]
    X = np.array([fk.point(i, d) for i in range(len(m))])
    ok = s > 0
    alpha = sl / np.where(ok | (m != ml), np.abs(m - ml) + s, 1.0)
    # ------------------------------------------------------------ augmented EI
    ids = sorted(set(case["xh"] + case["xl"]))
    risk = m[ids] + s[ids]
    best = {float(m[i]) for i, r in zip(ids, risk) if r <= risk.min() + 1e-12 * (1 + abs(risk.min()))}
    if len(best) == 1:
        eff = best.pop()
        lo, hi = fk.ei_bounds(eff, m, s, 1e-8)
        lo, hi = np.where(ok, lo, 0), np.where(ok, hi, 0)
        tiny = 1e-14 * (np.abs(eff - m) + s)
        acq = AugmentedEI()
        for fid, f in ((0, np.ones(len(m))), (1, alpha * cr)):
            use = ok | (m != ml)
            v = arr(sut(acq.eval, X[use].copy(), sur, cr, fid), what="augmented EI") if use.any() else None
            if v is None:
                continue
            t = (tiny * (1 + f))[use]
            fk.inside(v, (-hi * f)[use] - t, (-lo * f)[use] + t, f"augmented EI of fidelity {fid}",
                      mean=m[use], std=s[use], effective_best=eff, weight=f[use])
            fk.calls_agree(lambda x: acq.eval(x, sur, cr, fid), X[use], v, "augmented EI")
        use = ok | (m != ml)
        if use.any():
            for c in (AugmentedEI.corr, ExtendedPI.corr):
                a = arr(sut(c, X[use].copy(), sur, 1), what="correlation").ravel()
                check(a.size == use.sum() and np.allclose(a, alpha[use], rtol=1e-7, atol=0),
                      "the fidelity correlation is not std_lf / (|hf - lf| + std_hf)", got=a, want=alpha[use])
                a = arr(sut(c, X[use].copy(), sur, 0), what="correlation").ravel()
                check(a.size == use.sum() and bool(np.all(a == 1)), "the correlation of the high fidelity is not one")
    # ------------------------------------------------------------ VF-EI
    acq = VFEI()
    for fid, u in ((0, s), (1, np.abs(case["beta"]) * sl)):
        lo, hi = fk.ei_bounds(fmin, m, u, 1e-7)
        z = u > 0
        lo, hi = np.where(z, lo, np.minimum(lo, 0)), np.where(z, hi, np.maximum(hi, 0))
        tiny = 1e-14 * (np.abs(fmin - m) + u)
        v = sut(acq.eval, X.copy(), fmin, sur, fid)
        fk.inside(v, -hi - tiny, -lo + tiny, f"VF-EI of fidelity {fid}", mean=m, std=u, fmin=fmin)
        fk.calls_agree(lambda x: acq.eval(x, fmin, sur, fid), X, v, "VF-EI")
    # ------------------------------------------------------------ VF-LCB
    k = case["kappa"]
    acq = VFLCB() if k is None else VFLCB(kappa=list(k))
    k = [1.0, 1.96] if k is None else k
    for fid, u in ((0, s), (1, sl * cr)):
        want = k[0] * m - k[1] * u
        tol = 1e-12 * (np.abs(k[0] * m) + np.abs(k[1] * u)) + 1e-300
        v = sut(acq.eval, X.copy(), sur, cr, fid)
        fk.inside(v, want - tol, want + tol, f"VF-LCB of fidelity {fid}", mean=m, std=u, kappa=k)
        fk.calls_agree(lambda x: acq.eval(x, sur, cr, fid), X, v, "VF-LCB")
    # ------------------------------------------------------------ extended PI
    acq = ExtendedPI()
    plo, phi = fk.pi_bounds(fmin, m, s, 1e-8)
    Xo = X[ok]
    if len(Xo):
        for fid, f in ((0, np.ones(len(m))), (1, alpha * cr)):
            v = arr(sut(acq.eval, Xo.copy(), sur, np.array(fmin), cr, fid), what="extended PI").ravel()
            check(v.size == len(Xo), f"extended PI gives {v.size} values for {len(Xo)} points")
            # the density of the samples enters as a factor in [0, 1] that
            # depends on the positions only
            flat = [[fmin - 10.0, 1.0]] * len(m)
            ref, *_ = build(dict(case, zero=None), flat, flat)
            dens = -arr(sut(acq.eval, Xo.copy(), ref, np.array(fmin), 1.0, fid), what="extended PI").ravel()
            check(bool(np.all((dens >= -1e-12) & (dens <= 1 + 1e-9))), "the sample density is outside [0, 1]")
            # ... of the samples of this fidelity and its own correlation
            other = [i for i in range(len(m)) if i not in case["xl" if fid == 0 else "xh"]] or [0]
            ref, *_ = build(dict(case, zero=None, **{"xl" if fid == 0 else "xh": other}), flat, flat,
                            scale=(1.0, 3.0) if fid == 0 else (3.0, 0.5))
            again = -arr(sut(acq.eval, Xo.copy(), ref, np.array(fmin), 1.0, fid), what="extended PI").ravel()
            check(bool(np.allclose(dens, again, rtol=1e-9, atol=1e-12)),
                  f"the sample density of fidelity {fid} depends on the samples or the correlation of the other fidelity",
                  got=again, want=dens)
            lo, hi = -phi[ok] * f[ok] * dens, -plo[ok] * f[ok] * dens
            t = 1e-9 * (np.abs(lo) + np.abs(hi)) + 1e-13 * (1 + f[ok])
            fk.inside(v, lo - t, hi + t, f"extended PI of fidelity {fid}", mean=m[ok], std=s[ok], fmin=fmin, density=dens)
            fk.calls_agree(lambda x: acq.eval(x, sur, np.array(fmin), cr, fid), Xo, v, "extended PI")
    rec.label("std=0" if not ok.all() else "std>0", f"{len(m)} points")
    z = np.abs(fmin - m[ok]) / s[ok]
    rec.nontrivial(ok.any() and (z < 6).any())


# ---------------------------------------------------------------- trained models
@st.composite
def real_cases(draw):
    case = draw(md.mf_case(large=True))
    case["q"] = draw(md.queries(case["d"], n_max=4))
    case["cr"] = draw(crs)
    # the same acquisition objects after the surrogate has seen other data
    case["stages"] = draw(st.lists(st.sampled_from(["lf fewer", "hf fewer", "responses", "same size"]), max_size=2))
    return case


def law_real(case, rec):
    acqs = {c: c() for c in (AugmentedEI, VFLCB, ExtendedPI, VFEI)}
    sur = None
    for how in [None, *case.get("stages", [])]:
        case = dict(case)
        if how == "lf fewer" and len(case["ul"]) > 5:
            case["ul"], case["nl"] = case["ul"][1:], len(case["ul"]) - 1
        elif how == "hf fewer" and len(case["uh"]) > 3:
            case["uh"], case["nh"] = case["uh"][1:], len(case["uh"]) - 1
        elif how == "same size":
            case["ul"] = [[1 - v for v in p] for p in case["ul"]]
            case["uh"] = [[1 - v for v in p] for p in case["uh"]]
        elif how:
            case["yh"] = dict(case["yh"], e=case["yh"]["e"][::-1])
            case["yl"] = dict(case["yl"], e=case["yl"]["e"][::-1])
        Xh, Yh, Xl, Yl = md.mf_arrays(case)
        md.RefMF(case, Xh, Yh, Xl, Yl)
        if sur is None:
            sur, *_ = md.trained_mf(case)
        else:
            sut(sur.train, [Xh.copy(), Xl.copy()], [Yh.copy(), Yl.copy()])
            rec.label("trained again: " + how)
        judge(case, rec, sur, acqs, Xh, Yh, Xl, Yl)


def judge(case, rec, sur, acqs, Xh, Yh, Xl, Yl):
    Q = md.points_of(case, case["q"])
    m, s = (np.ravel(a) for a in sut(sur.predict, Q.copy(), return_std=True))
    ml, sl = (np.ravel(a) for a in sut(sur.predict_lf, Q.copy(), return_std=True))
    space = np.array(case["space"], float)
    sc, cr, fmin = float(Yh.std()), case["cr"], float(Yh.min())
    ok = (s > 1e-3 * sc)
    P = np.vstack([Xh, Xl])
    pm, ps = (np.ravel(a) for a in sut(sur.predict, P.copy(), return_std=True))
    risk = pm + ps
    cand = np.array([float(np.ravel(sut(sur.predict, P[i].copy()))[0])
                     for i in np.flatnonzero(risk <= risk.min() + 5e-3 * sc)])
    alpha = sl / (np.abs(m - ml) + s + (s == 0))
    if ok.any():
        for fid, f in ((0, np.ones(len(m))), (1, alpha * cr)):
            v = arr(sut(acqs[AugmentedEI].eval, Q.copy(), sur, cr, fid), what="augmented EI").ravel()
            check(v.size == len(Q), "augmented EI does not give one value per point")
            lo = np.min([fk.ei(e, m, s) for e in (cand.min() - 1e-4 * sc, cand.max())], axis=0)
            hi = np.max([fk.ei(e, m, s) for e in (cand.min(), cand.max() + 1e-4 * sc)], axis=0)
            t = 1e-6 * sc * (1 + f)
            fk.inside(v[ok], (-hi * f - t)[ok], (-lo * f + t)[ok], f"augmented EI of fidelity {fid} ({case['model']})")
    for fid, u in ((0, s), (1, sl * cr)):
        want = m - 1.96 * u
        t = 1e-9 * (np.abs(m) + 2 * u + sc)
        fk.inside(sut(acqs[VFLCB].eval, Q.copy(), sur, cr, fid), want - t, want + t, f"VF-LCB of fidelity {fid} ({case['model']})")
    for fid in (0, 1):
        v = arr(sut(acqs[ExtendedPI].eval, Q.copy(), sur, np.array(fmin), cr, fid), what="extended PI", finite=bool(ok.all()))
        check(v.size == len(Q), "extended PI does not give one value per point")
        v = np.ravel(v)[ok]
        top = (1.0 if fid == 0 else alpha[ok] * cr) * fk.pi_bounds(fmin, m[ok], s[ok], 1e-8)[1]
        check(bool(np.all((v <= 1e-12) & (v >= -top * (1 + 1e-6) - 1e-9))), "extended PI is outside its range",
              got=v, low=-np.asarray(top))
        # the density: a product over the samples of this fidelity of either
        # their correlations with the point or the complements of these
        own, ker = (Xh, sur.kernel) if fid == 0 else (Xl, sur.lfGP.kernel)
        low, high = space[:, 0], space[:, 1]
        R = np.asarray(ker.get_kernel_matrix(((Q - low) / (high - low))[ok], (own - low) / (high - low)), float)
        lo, hi = (np.asarray(b) * (1.0 if fid == 0 else alpha[ok] * cr) for b in fk.pi_bounds(fmin, m[ok], s[ok], 1e-7))
        fits = [np.all((-v >= lo * np.prod(r, axis=1) * (1 - tol) - 1e-12) & (-v <= hi * np.prod(r, axis=1) * (1 + tol) + 1e-12))
                for r, tol in ((R, 1e-5), (1 - R, 1e-4))]
        check(any(fits), f"the sample density of the extended PI of fidelity {fid} is not a product of the correlations "
              "of the model over the samples of that fidelity", got=v, corr=R)
        if np.any(hi * np.prod(R, axis=1) > 1e-9):
            rec.label(f"the density of fidelity {fid} is visible")
    if case["model"] == "hk":
        beta = abs(float(np.ravel(sur.beta)[0]))
        for fid, u in ((0, s), (1, beta * sl)):
            lo, hi = fk.ei_bounds(fmin, m, u, 1e-7)
            t = np.where(u > 1e-6 * sc, 1e-6 * sc, np.abs(hi) + np.maximum(fmin - m, 0) + 1e-6 * sc)
            fk.inside(sut(acqs[VFEI].eval, Q.copy(), fmin, sur, fid), -hi - t, -lo + t, f"VF-EI of fidelity {fid}")
    else:
        try:
            acqs[VFEI].eval(Q.copy(), fmin, sur, 0)
            refused = False
        except ValueError:
            refused = True
        check(refused, "VF-EI accepts a surrogate it is not defined for")
    rec.label(case["model"], case["noise"][0])
    rec.nontrivial(ok.any())


LAWS = [
    Law("fake_surrogates", cases, law_fake, 2500, shards=4,
        rule="a point with positive standard deviation within six of them of the best value"),
    Law("trained_surrogates", real_cases, law_real, 400, shards=4,
        rule="a point with standard deviation above 1e-3 of that of the responses"),
]
ASSUMPTIONS = ["A regularisation of the standard deviation of up to 1e-7 is allowed where it divides.",
               "The sample-density factor of the extended PI may be the product over the samples of its own fidelity of the correlations of that fidelity or of their complements; for user-defined surrogates it is only required to be a factor in [0, 1] that depends on these alone."]
