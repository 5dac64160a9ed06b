"""P14 GP predictions against the universal Kriging posterior."""
import numpy as np
from hypothesis import strategies as st

from vlib import models as md
from vlib.core import Inconclusive, Law, arr, check, sut


@st.composite
def cases(draw):
    case = draw(md.gp_case(large=True))
    case["q"] = draw(md.queries(case["d"]))
    case["at_data"] = draw(st.booleans())
    return case


def law_posterior(case, rec):
    X, Y = md.gp_arrays(case)
    ref = md.ref_gp(case, X, Y)
    gp, stub, _, _ = md.trained_gp(case)
    check(len(stub.calls) >= 1, "the user-supplied optimizer was not used")
    Q = md.points_of(case, case["q"])
    if case["at_data"]:
        Q = np.vstack([Q, X[:2]])
    mean, std, tm, tv = md.with_tolerance(lambda w: md.ref_gp(case, X, Y, w), Q, ref.s)
    if np.max(tm) > 1e-3 * ref.s:
        raise Inconclusive()
    alone = sut(gp.predict, Q.copy())
    md.agree(alone, None, mean, std, tm, tv, "prediction without uncertainty")
    out = sut(gp.predict, Q.copy(), return_std=True)
    check(isinstance(out, tuple) and len(out) == 2, "predict(return_std=True) must give two arrays")
    md.agree(out[0], out[1], mean, std, tm, tv, "prediction", noise=ref.noise)
    noise = float(arr(gp.noise, what="noise").ravel()[0])
    check(abs(noise - ref.noise) <= 1e-9 * (1e-12 + ref.noise), "the model's noise is not in original units",
          got=noise, want=ref.noise)
    rec.label(case["regr"], case["noise"][0], f"d={case['d']}",
              "cond<1e6" if ref.k.cond < 1e6 else "cond>=1e6")
    rec.stat("relative mean error", np.max(np.abs(np.asarray(alone) - mean)) / ref.s)
    rec.stat("relative mean tolerance", np.max(tm) / ref.s)
    rec.nontrivial(np.max(tm) < 1e-6 * ref.s)


LAWS = [Law("posterior", cases, law_posterior, 2500, shards=4,
            rule="the tolerance of the predicted mean is below 1e-6 standard deviations of the responses")]
ASSUMPTIONS = ["Hyper-parameters are prescribed through a user-supplied optimizer; correlation matrices with condition above 1e8 are not judged.",
               "Tolerances: ten times the change of the reference under rounding-sized perturbations and under the jitter of 1e-10, plus 1e-10 relative (1e-9 for the variance)."]
