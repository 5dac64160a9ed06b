"""P15 interpolation and certainty of GP models."""
import numpy as np
from hypothesis import strategies as st

from vlib import models as md
from vlib.core import Inconclusive, Law, arr, check, sut


@st.composite
def cases(draw):
    case = draw(md.gp_case(large=True))
    case["q"] = draw(md.queries(case["d"]))
    case["far"] = draw(st.lists(st.sampled_from([-1, 1]), min_size=case["d"], max_size=case["d"]))
    return case


def predict(gp, X, n):
    out = sut(gp.predict, X.copy(), return_std=True)
    check(isinstance(out, tuple) and len(out) == 2, "predict(return_std=True) must give two arrays")
    return arr(out[0], (n, 1), "mean"), arr(out[1], (n, 1), "standard deviation")


def law_certainty(case, rec):
    X, Y = md.gp_arrays(case)
    ref = md.ref_gp(case, X, Y)
    s = ref.s
    build = lambda w: md.ref_gp(case, X, Y, w)
    gp, *_ = md.trained_gp(case)
    Q = md.points_of(case, case["q"])
    noise = ref.noise
    m, sd = predict(gp, X, len(X))
    rm, rs, tm, tv = md.with_tolerance(build, X, s)
    if np.max(tm) > 1e-4 * s:
        raise Inconclusive()
    hits = 0
    if case["noise"][0] == "free":
        # the reference reproduces the data up to its jitter
        err = np.abs(m - Y) - (tm + 2 * np.abs(rm - Y))
        check(bool(np.all(err <= 0)) and np.max(np.abs(rm - Y)) < 1e-3 * s,
              "a noise-free model does not reproduce its data", got=m.ravel()[:5], want=Y.ravel()[:5])
        lim = np.sqrt(tv + 3 * rs ** 2) + 1e-4 * s
        check(bool(np.all(sd <= lim)) and np.max(lim) < 0.05 * s + 0.05 * np.sqrt(ref.k.sigma2) * s,
              "a noise-free model is uncertain at its data", std=sd.ravel()[:5], scale=s)
        # away from the data
        dist = np.abs(ref.unit(Q)[:, None] - ref.U[None]).max(-1).min(1)
        _, sq = predict(gp, Q, len(Q))
        qm, qs, _, tq = md.with_tolerance(build, Q, s)
        sure = (qs ** 2 > 4 * tq).ravel() & (dist > 0.05)
        check(bool(np.all(sq.ravel()[sure] > 0)), "a noise-free model is certain away from its data",
              distance=dist[sure], std=sq.ravel()[sure])
        hits = int(sure.sum())
    else:
        Z = np.vstack([X, Q])
        _, sz = predict(gp, Z, len(Z))
        check(bool(np.all(sz ** 2 >= noise ** 2 * (1 - 1e-9) - 1e-12 * s ** 2)), "the standard deviation is below the noise level",
              std=float(sz.min()), noise=noise)
        hits = len(Z)
    # far from all data
    far = np.array(case["far"], float)[None, :] * 60 + 0.5
    F = md.scale_up(far, case["space"])
    fm, fs = predict(gp, F, 1)
    wm, ws, tm, tv = md.with_tolerance(build, F, s)
    trend = float((md.basis(case["regr"], far) @ ref.k.beta).item()) * s + ref.m
    corr = float(md.kern(ref.U, far, ref.theta).max())
    if corr < 1e-9:
        t = tm.item() + corr * 1e3 * np.abs(ref.k.gamma).max() * s
        check(abs(fm.item() - trend) <= t + 1e-9 * (abs(trend) + s), "far from the data the prediction is not the trend",
              got=fm.item(), want=trend)
        low = ref.k.sigma2 * s ** 2 + noise ** 2
        check(fs.item() ** 2 >= low - tv.item() - 1e-6 * low, "far from the data the standard deviation is below the process one",
              got=fs.item(), want=float(np.sqrt(low)))
    rec.label(case["noise"][0], case["regr"], f"d={case['d']}", "far" if corr < 1e-9 else "not far")
    rec.nontrivial(hits >= 1)


@st.composite
def more_cases(draw):
    case = draw(md.gp_case(n_max=12, d_max=2, large=True))
    case["noise"] = ["free", 0.0]
    case["q"] = draw(md.queries(case["d"], n_min=2, n_max=8))
    case["drop"] = draw(st.integers(1, 4))
    return case


def law_monotone(case, rec):
    X, Y = md.gp_arrays(case)
    d = case["d"]
    p = {"ordinary": 1, "linear": d + 1, "quadratic": (d + 1) * (d + 2) // 2}[case["regr"]]
    k = max(p + 2, len(X) - case["drop"])
    if k >= len(X):
        raise Inconclusive()
    Q = md.points_of(case, case["q"])
    out = []
    for n in (k, len(X)):
        x, y = X[:n], Y[:n]
        if np.std(y) < 1e-3 * np.std(Y):
            raise Inconclusive()
        build = lambda w: md.ref_gp(case, x, y, w)
        ref = build(md.Wobble())
        if ref.k.sigma2 < 1e-9:
            raise Inconclusive()
        gp = sut(md.build_gp, case, md.Stub([md.stub_params(case)]), float(y.std()))
        sut(gp.train, x.copy(), y.copy())
        _, sd = predict(gp, Q, len(Q))
        _, rs, _, tv = md.with_tolerance(build, Q, ref.s)
        u = ref.k.sigma2 * ref.s ** 2
        if np.max(tv) > 1e-3 * u:
            raise Inconclusive()
        out.append((sd ** 2 / u, tv / u))
    (a, ta), (b, tb) = out
    check(bool(np.all(b <= a + ta + tb + 1e-7)), "more data increase the uncertainty",
          before=a.ravel(), after=b.ravel(), points=[k, len(X)])
    rec.label(case["regr"])
    rec.nontrivial((b < a - 1e-3).any())


@st.composite
def builtin(draw):
    case = draw(md.gp_case(n_max=9, d_max=2))
    case["bounds"] = None
    case["noise"] = draw(st.sampled_from([["free", 0.0], ["free", 0.0], ["known", 0.1], ["est", 0.1]]))
    case["q"] = draw(md.queries(case["d"], lo=0, hi=16))
    case["seed"] = draw(st.integers(0, 999))
    return case


def law_builtin(case, rec):
    X, Y = md.gp_arrays(case)
    s = float(Y.std())
    gp = sut(md.build_gp, case, None, s, optimizer_restart=1)
    np.random.seed(case["seed"])
    try:
        gp.train(X.copy(), Y.copy())
    except np.linalg.LinAlgError:
        raise Inconclusive()
    m, sd = predict(gp, X, len(X))
    if case["noise"][0] == "free":
        check(np.max(np.abs(m - Y)) <= 1e-2 * s, "a noise-free model does not reproduce its data",
              worst=float(np.max(np.abs(m - Y))), scale=s)
        check(np.max(sd) <= 5e-2 * s, "a noise-free model is uncertain at its data", worst=float(sd.max()), scale=s)
    else:
        Q = np.vstack([X, md.points_of(case, case["q"])])
        _, sq = predict(gp, Q, len(Q))
        noise = float(np.ravel(gp.noise)[0])
        check(noise > 0 and bool(np.all(sq ** 2 >= noise ** 2 * (1 - 1e-9) - 1e-12 * s ** 2)), "the standard deviation is below the noise level",
              std=float(sq.min()), noise=noise)
        if case["noise"][0] == "known":
            check(abs(noise - case["noise"][1] * s) < 1e-9 * s, "a known noise was changed")
    rec.label(case["noise"][0], case["regr"])


LAWS = [
    Law("certainty", cases, law_certainty, 1500, shards=3, rule="at least one point judged away from the data (noise-free) or any noisy prediction"),
    Law("more_data", more_cases, law_monotone, 500, shards=2, rule="the added data lower an uncertainty by more than 1e-3 of the process variance"),
    Law("trained", builtin, law_builtin, 160, thorough=3000, shards=6),
]
ASSUMPTIONS = ["Prescribed hyper-parameters with correlation matrices of condition below 1e8; trained ones with thresholds of 1e-2 (mean) and 5e-2 (standard deviation) of the spread of the responses.",
               "Process variance is taken from the reference model."]
