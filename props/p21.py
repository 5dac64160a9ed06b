"""P21 the scale factor of scaled Kriging."""
import numpy as np
from hypothesis import strategies as st

from vlib import models as md
from vlib.core import Inconclusive, Law, arr, check, sut

BOUNDS = [[0.01, 10.0], [0.1, 1.0], [0.9, 1.1], [-2.0, 2.0], [1.5, 6.0], [-5.0, -0.5], [0.05, 40.0]]


@st.composite
def cases(draw):
    case = draw(md.mf_case(kinds=("sk",), large=True))
    case["bound"] = draw(st.sampled_from(BOUNDS))
    case["how"] = draw(st.sampled_from(["no", "error", "error", "error_user", "bumpiness", "bumpiness_user"]))
    case["rho_answer"] = draw(st.integers(0, 16).map(lambda i: i / 16))
    case["probe"] = draw(st.lists(st.integers(0, 16).map(lambda i: i / 16), min_size=1, max_size=4))
    case["lf_sub"] = draw(st.booleans())
    case["disc_sub"] = draw(st.booleans())
    if case["how"].startswith("bumpiness"):
        case["disc_sub"] = False            # the criterion looks into the kernel of the model
    case["gain"] = draw(st.sampled_from([1.0, 1.0, 0.2, 5.0, -1.0, 30.0]))
    case["unit"] = draw(st.sampled_from([1.0, 1.0, 1e-6, 1e-3, 1e5]))
    case["q"] = draw(md.queries(case["d"], 2, 5))
    case["seed"] = draw(st.integers(0, 999))
    case["again"] = draw(st.booleans())
    return case


class LF:
    """A user-supplied low-fidelity model: nearest-response regression."""

    def __init__(self, space):
        self.space = np.asarray(space, float)
        self.trained = []
        self.noise = 0.0

    def train(self, x, y):
        self.trained.append((np.array(x, float), np.array(y, float)))

    def value(self, x):
        X, Y = self.trained[-1]
        w = self.space[:, 1] - self.space[:, 0]
        d2 = (((np.atleast_2d(x)[:, None] - X[None]) / w) ** 2).sum(-1)
        k = 1 / (0.05 + d2)
        return ((k @ Y.reshape(-1, 1)) / k.sum(1, keepdims=True)).reshape(-1, 1)

    def predict(self, x, return_std=False):
        m = self.value(x)
        return (m, 0.25 + 0.5 * np.abs(np.sin(m))) if return_std else m

    @property
    def _num_samples(self):
        return len(self.trained[-1][0])


class Disc(LF):
    """A user-supplied discrepancy model."""

    def predict(self, x, return_std=False):
        m = self.value(x)
        return (m, 0.125 + np.abs(np.cos(m))) if return_std else m


def law_rho(case, rec):
    Xh, Yh, Xl, Yl = md.mf_arrays(case)
    Yh = case["gain"] * (Yh - case["yh"]["shift"] * case["yl"]["scale"])
    Yh, Yl = case["unit"] * Yh, case["unit"] * Yl
    sc = float(max(Yh.std(), Yl.std()))
    lo, hi = case["bound"]
    how = case["how"]
    opt = md.mf_stub(case)
    kw = {"rho_bound": list(case["bound"])}
    ro = None
    if how != "no":
        kw.update(rho_optimize=True, rho_method=how.split("_")[0])
        if how.endswith("user"):
            ans = lambda b: [b[0, 0] + case["rho_answer"] * (b[0, 1] - b[0, 0])]
            ro = md.Stub([ans], probes=lambda b: b[0, 0] + np.array(case["probe"]).reshape(-1, 1) * (b[0, 1] - b[0, 0]))
            kw["rho_optimizer"] = ro
    lf = LF(case["space"]) if case["lf_sub"] else None
    disc = Disc(case["space"]) if case["disc_sub"] else None
    if lf:
        kw["lfGP"] = lf
    if disc:
        kw["disc_model"] = disc
    # separate optimizers, so that every model gets its own parameters
    m = sut(md.build_mf, case, None, float(Yh.std()), **kw)
    if not lf:
        m.lfGP.change_optimizer(md.Stub([opt.answers[0]]))
    if not disc:
        m.disc_model.change_optimizer(md.Stub([opt.answers[1]]))
    if not lf:
        # not judged when ill-conditioned
        md.RefMF(dict(case, sk_rho=float(lo)), Xh, Yh, Xl, Yl)
    seen = []
    if how == "bumpiness_user":             # what the model behind the criterion is trained on
        train = m.disc_model.train

        def spy(X, Y, *a, **k):
            seen.append((np.array(X, float), np.array(Y, float).ravel()))
            return train(X, Y, *a, **k)

        m.disc_model.train = spy
    for k in range(2 if case["again"] else 1):
        seen.clear()
        if ro:
            ro.calls.clear()
            ro.plots = 0
        np.random.seed(case["seed"] + k)
        try:
            m.train([Xh.copy(), Xl.copy()], [Yh.copy(), Yl.copy()])
        except np.linalg.LinAlgError:
            raise Inconclusive()
    # ------------------------------------------------ low fidelity
    if lf:
        check(len(lf.trained) == (2 if case["again"] else 1), "the supplied low-fidelity model is not trained once per training",
              times=len(lf.trained))
        check(np.array_equal(lf.trained[-1][0], Xl) and np.array_equal(lf.trained[-1][1].reshape(-1, 1), Yl),
              "the supplied low-fidelity model is not trained on the low-fidelity data")
    p = arr(sut(m.predict_lf, Xh.copy()), (len(Xh), 1), "low-fidelity prediction")
    if lf:
        check(np.allclose(p, lf.value(Xh), rtol=1e-12, atol=0), "the low-fidelity prediction is not that of the supplied model")
    else:
        mean, _, tm, _ = md.with_tolerance(lambda w: md.RefMF(dict(case, sk_rho=float(lo)), Xh, Yh, Xl, Yl, w).lf, Xh, sc)
        check(bool(np.all(np.abs(p - mean) <= tm)), "the low-fidelity prediction is not that of a GP of the low-fidelity data")
    p, y = p.ravel(), Yh.ravel()
    # ------------------------------------------------ the factor
    r = np.ravel(np.asarray(m.rho, float))
    check(r.size == 1 and np.isfinite(r).all(), "the scale factor is not one number", rho=r)
    rho = float(r[0])
    err = lambda t: float(((t * p - y) ** 2).sum())
    tol = 1e-9
    if how == "no":
        check(rho == 1.0, "the scale factor is not one although it is not optimized", rho=rho)
    else:
        check(lo - 1e-12 <= rho <= hi + 1e-12, "the scale factor is outside of its bounds", rho=rho, bounds=[lo, hi])
    if how == "error":
        best = float(np.clip((p @ y) / (p @ p), lo, hi))
        slack = 1e-6 * max(err(best), err(lo) * 1e-3, err(hi) * 1e-3)
        check(err(rho) <= err(best) + slack, "the scale factor does not minimize the squared error",
              rho=rho, error=err(rho), best_rho=best, best_error=err(best))
    if ro:
        check(len(ro.calls) == 1, "the supplied scale-factor optimizer is not run once", runs=len(ro.calls))
        c = ro.calls[0]
        check(c["num_dim"] == 1 and np.allclose(c["box"], [[lo, hi]]), "the scale-factor optimizer gets the wrong box",
              box=c["box"], num_dim=c["num_dim"])
        check(abs(rho - c["answer"][0]) <= 1e-12 * (1 + abs(rho)), "the answer of the scale-factor optimizer is not used",
              answer=c["answer"], rho=rho)
        t = c["probe"].ravel()
        check(c["batch"].size == len(t) and all(v.size == 1 for v in c["rows"]), "the criterion does not give one value per row",
              batch=str(c["batch"].shape))
        want = np.array([err(v) for v in t])
        if how == "bumpiness_user":
            want = want * np.linalg.norm(10.0 ** md.clipped(case["theta"]))
        size = (np.abs(t).max() * np.abs(p).max() + np.abs(y).max()) ** 2 * len(y)
        for got in (c["batch"].ravel(), np.array([v.ravel()[0] for v in c["rows"]])):
            check(bool(np.all(np.abs(got - want) <= 1e-8 * np.abs(want) + 1e-11 * size)),
                  f"the {how.split('_')[0]} criterion is wrong", got=got, want=want, rho=t)
    if seen:
        size = np.abs(y).max() + np.abs(np.append(ro.calls[0]["probe"].ravel(), rho)).max() * np.abs(p).max()
        for t in np.append(ro.calls[0]["probe"].ravel(), rho):
            hit = [np.array_equal(X, Xh) and Y.size == len(y) and bool(np.all(np.abs(Y - (y - t * p)) <= 1e-11 * size))
                   for X, Y in seen]
            check(any(hit), "the bumpiness of a scale factor is not that of a model of its own discrepancy", rho=float(t))
    # ------------------------------------------------ the discrepancy
    delta = y - rho * p
    mag = np.abs(y).max() + abs(rho) * np.abs(p).max()
    if disc:
        X, Y = disc.trained[-1]
        check(np.array_equal(X, Xh), "the discrepancy model is not trained at the high-fidelity points")
        check(Y.size == len(y) and bool(np.all(np.abs(Y.ravel() - delta) <= 1e-11 * mag)),
              "the discrepancy model is not trained on the remaining discrepancy", got=Y.ravel(), want=delta)
        if not how.startswith("bumpiness"):
            check(len(disc.trained) == (2 if case["again"] else 1), "the discrepancy model is not trained once", times=len(disc.trained))
    else:
        Y = np.asarray(m.disc_model.sample_y, float).ravel()
        X = np.asarray(m.disc_model.sample_x, float)
        check(np.array_equal(X, Xh), "the discrepancy model is not trained at the high-fidelity points")
        check(Y.size == len(y) and bool(np.all(np.abs(Y - delta) <= 1e-11 * mag)),
              "the discrepancy model is not trained on the remaining discrepancy", got=Y, want=delta)
    # ------------------------------------------------ the prediction
    Q = md.points_of(case, case["q"])
    ml, sl = (np.asarray(v, float) for v in sut(m.predict_lf, Q.copy(), return_std=True))
    md_, sd = (np.asarray(v, float) for v in sut(m.disc_model.predict, Q.copy(), return_std=True))
    want_m, want_s = rho * ml + md_, np.sqrt(rho ** 2 * sl ** 2 + sd ** 2)
    one = arr(sut(m.predict, Q.copy()), (len(Q), 1), "prediction", finite=False)
    two = sut(m.predict, Q.copy(), return_std=True)
    gm = arr(two[0], (len(Q), 1), "prediction", finite=False)
    gs = arr(two[1], (len(Q), 1), "standard deviation", finite=False)
    if np.all(np.isfinite(want_m)) and np.all(np.isfinite(want_s)):
        t = 1e-8 * (np.abs(rho * ml) + np.abs(md_) + sc)
        check(bool(np.all(np.abs(one - want_m) <= t)) and bool(np.all(np.abs(gm - want_m) <= t)),
              "the prediction is not scale factor times low fidelity plus discrepancy", got=gm.ravel(), want=want_m.ravel())
        check(bool(np.all(np.abs(gs - want_s) <= 1e-6 * (want_s + 1e-2 * sc))),
              "the standard deviation does not combine both models", got=gs.ravel(), want=want_s.ravel())
    rec.label(how, "own low fidelity" if lf else "built-in low fidelity", "own discrepancy" if disc else "built-in discrepancy",
              "at bound" if how != "no" and min(abs(rho - lo), abs(rho - hi)) < 1e-9 else "inside")
    rec.nontrivial(how != "no" or lf or disc)


LAWS = [Law("rho", cases, law_rho, 1400, shards=6, rule="the factor is optimized or a sub-model is user-supplied")]
ASSUMPTIONS = ["The built-in search of the error criterion may stop within a relative 1e-6 of the smallest error.",
               "Built-in sub-models use prescribed hyper-parameters."]
