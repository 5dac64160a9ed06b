"""P17 multi-fidelity predictions against their defining models."""
import numpy as np
from hypothesis import strategies as st

from vlib import models as md
from vlib.core import Inconclusive, Law, arr, check, sut


@st.composite
def cases(draw):
    case = draw(md.mf_case(large=True))
    case["q"] = draw(md.queries(case["d"]))
    case["at_data"] = draw(st.booleans())
    if case["model"] == "sk" and draw(st.booleans()):
        case["sk_rho"] = draw(st.sampled_from([0.02, 0.05, 0.5, 2.5, 9.0]))
    if case["model"] != "hk" and draw(st.booleans()):
        case["rho_bound"] = draw(st.sampled_from([[1e-3, 1e3], [0.2, 30.0], [5.0, 400.0], [-2.0, 2.0]]))
        r = draw(st.sampled_from([-1.5, 0.004, 0.3, 2.0, 7.0, 60.0, 300.0]))
        r = float(np.clip(r, *case["rho_bound"]))
        case["rho"] = r
        if "sk_rho" in case:
            case["sk_rho"] = r
    return case


def law_posterior(case, rec):
    Xh, Yh, Xl, Yl = md.mf_arrays(case)
    ref = md.RefMF(case, Xh, Yh, Xl, Yl)
    Q = md.points_of(case, case["q"])
    if case["at_data"]:
        Q = np.vstack([Q, Xh[:1], Xl[:1]])
    build = lambda w: md.RefMF(case, Xh, Yh, Xl, Yl, w)
    mean, std, tm, tv = md.with_tolerance(build, Q, Yh.std())
    if np.max(tm) > 1e-3 * Yh.std():
        raise Inconclusive()
    kw = {}
    if "sk_rho" in case:
        kw = dict(rho_optimize=True, rho_optimizer=md.Stub([[case["sk_rho"]]]))
    if "rho_bound" in case:
        kw["rho_bound"] = list(case["rho_bound"])
    m, stub, *_ = md.trained_mf(case, **kw)
    check(len(stub.calls) == 2, "the user-supplied optimizer was not used once per fidelity", calls=len(stub.calls))
    name = case["model"]
    md.agree(sut(m.predict, Q.copy()), None, mean, std, tm, tv, f"{name} prediction without uncertainty")
    out = sut(m.predict, Q.copy(), return_std=True)
    check(isinstance(out, tuple) and len(out) == 2, "predict(return_std=True) must give two arrays")
    md.agree(out[0], out[1], mean, std, tm, tv, f"{name} prediction", noise=case["noise"])
    lm, ls, la, lb = md.with_tolerance(lambda w: build(w).lf, Q, ref.lf.s)
    md.agree(sut(m.predict_lf, Q.copy()), None, lm, ls, la, lb, f"{name} low-fidelity prediction without uncertainty")
    out = sut(m.predict_lf, Q.copy(), return_std=True)
    md.agree(out[0], out[1], lm, ls, la, lb, f"{name} low-fidelity prediction")
    if "sk_rho" in case:
        rec.label("sk with a scale factor")
    rec.label(name, f"{name} {case['noise'][0]}", f"d={case['d']}", "nested" if case["nested"] else "not nested")
    if "rho_bound" in case:
        rec.label(f"{name} with its own bounds of the scale factor")
    rec.stat("relative mean tolerance", np.max(tm) / Yh.std())
    rec.nontrivial(np.max(tm) < 1e-5 * Yh.std())


LAWS = [Law("posterior", cases, law_posterior, 2000, shards=5,
            rule="the tolerance of the predicted mean is below 1e-5 standard deviations of the responses")]
ASSUMPTIONS = ["Hyper-parameters (and the co-Kriging scale factor) are prescribed through a user-supplied optimizer; correlation matrices with condition above 1e8 are not judged.",
               "The co-Kriging trend is one generalized-least-squares constant of the joint data, as in Forrester et al."]
