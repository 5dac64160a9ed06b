"""P18 multi-fidelity models honour both data sets."""
import numpy as np
from hypothesis import strategies as st

from vlib import models as md
from vlib.core import Inconclusive, Law, arr, check, sut


@st.composite
def cases(draw):
    case = draw(md.mf_case(large=True))
    case["noise"] = ["free", 0.0]
    case["q"] = draw(md.queries(case["d"], lo=0, hi=16))
    if case["model"] == "sk":
        case["sk_opt"] = draw(st.sampled_from(["no", "no", "error", "error_user"]))
    return case


def sk_args(case):
    """Extra arguments of scaled Kriging, and its scale-factor optimizer."""
    kind = case.get("sk_opt", "no")
    if kind == "no":
        return {}
    kw = dict(rho_optimize=True, rho_method="error", rho_bound=[0.05, 9.0])
    if kind == "error_user":
        kw["rho_optimizer"] = md.Stub([[case["rho"]]])
    return kw


def law_data(case, rec):
    Xh, Yh, Xl, Yl = md.mf_arrays(case)
    md.RefMF(case, Xh, Yh, Xl, Yl)          # not judged when ill-conditioned
    m = sut(md.build_mf, case, md.mf_stub(case), float(Yh.std()), **sk_args(case))
    sut(m.train, [Xh.copy(), Xl.copy()], [Yh.copy(), Yl.copy()])
    c = dict(case)
    if case["model"] == "sk":
        c["sk_rho"] = float(np.ravel(m.rho)[0])
        check(np.isfinite(c["sk_rho"]), "the scale factor is not finite")
    build = lambda w: md.RefMF(c, Xh, Yh, Xl, Yl, w)
    for X, Y, pred, rp, what in (
            (Xh, Yh, m.predict, lambda r, Q: r.predict(Q), "high"),
            (Xl, Yl, m.predict_lf, lambda r, Q: r.lf.predict(Q), "low")):
        s = float(Y.std())
        scale = max(s, float(Yh.std()))
        mean, std, tm, tv = md.with_tolerance(build, X, scale, rp)
        if np.max(np.abs(mean - Y)) > 1e-3 * s or np.max(tm) > 1e-3 * s:
            raise Inconclusive()
        got = arr(sut(pred, X.copy()), (len(X), 1), f"{what}-fidelity mean")
        err = np.abs(got - Y) - (tm + 2 * np.abs(mean - Y))
        check(bool(np.all(err <= 0)), f"noise-free {case['model']} does not reproduce its {what}-fidelity data",
              got=got.ravel()[:6], want=Y.ravel()[:6])
        out = sut(pred, X.copy(), return_std=True)
        sd = arr(out[1], (len(X), 1), f"{what}-fidelity standard deviation")
        check(bool(np.all(sd ** 2 <= tv + 9 * std ** 2 + 1e-8 * scale ** 2)),
              f"noise-free {case['model']} is uncertain at its {what}-fidelity data", std=sd.ravel()[:6], scale=s)
    rec.label(case["model"], "nested" if case["nested"] else "not nested", case.get("sk_opt", "-"))


# ---------------------------------------------------------------- independence
@st.composite
def indep_cases(draw):
    case = draw(md.mf_case(kinds=("hk", "sk"), nl_max=8, nh_max=5))
    case["builtin"] = draw(st.integers(0, 5)) == 0
    if not case["builtin"] and case["model"] == "sk":
        case["sk_opt"] = draw(st.sampled_from(["no", "error"]))
    case["noise"] = draw(st.sampled_from([["free", 0.0], ["est", 0.1], ["known", 0.1]]))
    case["y2"] = draw(md.responses(case["nh"]))
    case["keep"] = draw(st.integers(3, case["nh"]))
    case["same_x"] = draw(st.booleans())
    case["seed"] = draw(st.integers(0, 999))
    case["q"] = draw(md.queries(case["d"]))
    case["retrain"] = draw(st.booleans())
    return case


def law_independent(case, rec):
    Xh, Yh, Xl, Yl = md.mf_arrays(case)
    s = float(Yh.std())
    k = case["keep"]
    Xg = Xh if case["same_x"] else Xl[0] + (Xh - Xl[0]) * 0.5
    Yg = md.evaluate(dict(case["y2"], scale=case["yl"]["scale"]), case["uh"])
    Xg, Yg = Xg[:k], Yg[:k]
    if np.std(Yg) < 1e-3 * case["yl"]["scale"]:
        raise Inconclusive()
    Q = md.points_of(case, case["q"])
    res, old = [], None
    for X, Y in ((Xh, Yh), (Xg, Yg)):
        if case["builtin"]:
            m = sut(md.build_mf, case, None, s, optimizer_restart=1, **sk_args(case))
        else:
            m = sut(md.build_mf, case, md.mf_stub(case), s, **sk_args(case))
        if case["retrain"] and old is not None:
            m = old
            if not case["builtin"]:
                m.lfGP.optimizer.calls.clear()
        np.random.seed(case["seed"])
        try:
            m.train([X.copy(), Xl.copy()], [Y.copy(), Yl.copy()])
        except np.linalg.LinAlgError:
            raise Inconclusive()
        out = sut(m.predict_lf, Q.copy(), return_std=True)
        res.append([arr(out[0], (len(Q), 1), "low-fidelity mean"),
                    arr(out[1], (len(Q), 1), "low-fidelity standard deviation")])
        old = m
    sl = float(Yl.std())
    for a, b, w in zip(*res, ("mean", "standard deviation")):
        check(bool(np.all(np.abs(a - b) <= 1e-9 * (np.abs(a) + sl))),
              f"the low-fidelity {w} of {case['model']} depends on the high-fidelity data",
              one=a.ravel()[:5], other=b.ravel()[:5])
    rec.label(case["model"], case["noise"][0], "built-in" if case["builtin"] else "prescribed",
              "retrained" if case["retrain"] else "fresh")


@st.composite
def builtin_cases(draw):
    case = draw(md.mf_case(nl_max=8, nh_max=5))
    case["noise"] = ["free", 0.0]
    case["seed"] = draw(st.integers(0, 999))
    case["rho_opt"] = draw(st.booleans())
    return case


def law_builtin(case, rec):
    Xh, Yh, Xl, Yl = md.mf_arrays(case)
    kw = dict(rho_optimize=True) if case["rho_opt"] and case["model"] == "sk" else {}
    m = sut(md.build_mf, case, None, 1.0, optimizer_restart=1, **kw)
    np.random.seed(case["seed"])
    try:
        m.train([Xh.copy(), Xl.copy()], [Yh.copy(), Yl.copy()])
    except np.linalg.LinAlgError:
        raise Inconclusive()
    s = max(float(Yh.std()), float(Yl.std()))
    for X, Y, pred, what in ((Xh, Yh, m.predict, "high"), (Xl, Yl, m.predict_lf, "low")):
        got = arr(sut(pred, X.copy()), (len(X), 1), f"{what}-fidelity mean")
        e = float(np.max(np.abs(got - Y))) / s
        rec.stat(f"{case['model']} {what} relative error", e)
        check(e <= 5e-3, f"trained noise-free {case['model']} does not reproduce its {what}-fidelity data", relative_error=e)
    rec.label(case["model"], "nested" if case["nested"] else "not nested")


LAWS = [
    Law("data", cases, law_data, 900, shards=3),
    Law("independent", indep_cases, law_independent, 700, shards=3),
    Law("trained", builtin_cases, law_builtin, 160, thorough=3000, shards=6),
]
ASSUMPTIONS = ["Prescribed hyper-parameters: cases whose reference model (with the package's jitter) reproduces the data to 1e-3 of their spread are judged; trained models with a threshold of 5e-3.",
               "Responses are handed over as columns (n, 1)."]
