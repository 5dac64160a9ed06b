"""P13 the likelihood handed to the optimizer, its box, and restarts."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, models as md
from vlib.core import Inconclusive, Law, arr, check, sut

frac = st.integers(0, 16).map(lambda i: i / 16)
kb = st.sampled_from([None, None, [-4.0, 4.0], [-1.0, 3.5], [0.0, 1.0], [-1.23456, 1.05432]])


@st.composite
def cases(draw):
    if draw(st.booleans()):
        case = draw(md.gp_case(n_max=10, large=True))
        case["model"] = "gp"
    else:
        case = draw(md.mf_case(large=True))
        case["bounds"] = draw(kb)
        case["rb"] = draw(st.sampled_from([None, None, [0.5, 2.0], [0.0, 10.0]]))
    d = case["d"]
    case["tbox"] = None if case.get("large") else draw(md.box_of(d))
    case["probes"] = draw(st.lists(st.lists(frac, min_size=d + 2, max_size=d + 2), min_size=2, max_size=5))
    case["near"] = draw(st.sampled_from([0.0, 0.0, 1e-4, 1e-5, 1e-6, 1e-7]))
    case["q"] = draw(md.queries(d, n_max=2))
    return case


def gp_nll(K0, F, ys, free, w):
    """params (theta, eta) -> negative log-likelihood"""
    def f(theta, eta):
        K = w.sym(K0(theta) + np.eye(len(ys)) * (md.JIT + eta ** 2), theta)
        return md.Krig(K, F, w.vec(ys)).nll(free)
    return f


def judge(call, nll, box, what):
    """nll(w) -> function of a parameter vector"""
    check(call["num_dim"] == len(box), f"{what}: wrong number of parameters", got=call["num_dim"])
    check(call["box"].shape == box.shape and np.allclose(call["box"], box, rtol=1e-12, atol=0),
          f"{what}: wrong search box", got=call["box"], want=box)
    P = call["probe"]
    batch = arr(call["batch"], what=f"{what}: objective", finite=False).ravel()
    check(batch.size == len(P), f"{what}: the objective of {len(P)} parameter vectors gives {batch.size} values")
    rows = np.array([arr(r, what=f"{what}: objective", finite=False).ravel() for r in call["rows"]])
    check(rows.shape == (len(P), 1) and np.allclose(rows[:, 0], batch, rtol=1e-12, atol=1e-12, equal_nan=True),
          f"{what}: the objective of a row depends on the batch")
    ok, ref, tol = [], [], []
    for p in P:
        try:
            v = [nll(md.Wobble(s))(p) for s in (None, 1, 2, 3)]
        except Inconclusive:
            continue
        i = len(ref)
        ref.append(v[0])
        tol.append(10 * max(abs(x - v[0]) for x in v) + 1e-8 * (1 + abs(v[0])))
        ok.append(np.flatnonzero((P == p).all(1))[0])
    if len(ok) < 2:
        return 0
    check(bool(np.all(np.isfinite(batch[ok]))), f"{what}: the objective is not finite", params=P[ok], got=batch[ok])
    got, ref, tol = batch[ok], np.array(ref), np.array(tol)
    k = int(np.argmin(tol))
    err = np.abs((got - got[k]) - (ref - ref[k])) - (tol + tol[k])
    check(bool(np.all(err <= 0)), f"{what}: the objective is not the negative log-likelihood up to a constant",
          params=P[ok], got=got - got[k], want=ref - ref[k])
    return int((np.abs(ref - ref[k]) > 100 * (tol + tol[k])).sum())


def law_objective(case, rec):
    d, mode, val = case["d"], *case["noise"]
    frs = np.array(case["probes"])
    if case["near"]:                        # almost the same vector twice
        frs = np.vstack([frs, frs[0] + case["near"] * np.where(frs[0] > 0.5, -1, 1)])

    def probes(box):
        f = frs[:, [i % frs.shape[1] for i in range(len(box))]]
        return box[:, 0] + f * (box[:, 1] - box[:, 0])

    free = mode == "free"
    nb = [[1e-5, 10.0]] if mode == "est" else []
    default = [[-2.0, 3.0]] * d
    tb = md.theta_box(case).tolist()
    Q = md.points_of(case, case["q"])
    if case["model"] == "gp":
        X, Y = md.gp_arrays(case)
        s = float(Y.std())
        stub = md.Stub([md.stub_params(case)], probes)
        ref0 = md.ref_gp(case, X, Y)
        gp = sut(md.build_gp, case, stub, s)
        safe_train(lambda: gp.train(X.copy(), Y.copy()))
        check(len(stub.calls) == 1, "the optimizer is not run exactly once")
        ys, U = (Y - Y.mean()) / s, ref0.U
        F = md.basis(case["regr"], U)
        eta = {"free": 0.0, "known": val, "est": None}[mode]
        nll = lambda w: lambda p: gp_nll(lambda t: md.kern(U, U, t), F, ys, free, w)(p[:d], p[d] if eta is None else eta)
        hits = judge(stub.calls[0], nll, np.array(tb + nb, float), "GP")
        mean, std, tm, tv = md.with_tolerance(lambda w: md.ref_gp(case, X, Y, w), Q, s)
        md.agree(*sut(gp.predict, Q.copy(), return_std=True), mean, std, tm, tv, "prediction with the answered parameters")
    else:
        m = case["model"]
        case = dict(case)
        b, rb = case["bounds"], case["rb"] or [1e-2, 1e2]
        case["theta"] = md.theta_in(case).tolist()
        case["rho"] = float(np.clip(case["rho"], *rb))
        Xh, Yh, Xl, Yl = md.mf_arrays(case)
        ref0 = RefB(case, Xh, Yh, Xl, Yl)
        stub = md.mf_stub(case)
        stub.probes = probes
        kw = {}
        if b is not None:
            kw["kernel_bound"] = list(b)
        if m == "ck" and case["rb"] is not None:
            kw["rho_bound"] = list(rb)
        model = sut(md.build_mf, case, stub, float(Yh.std()), **kw)
        if case["tbox"] is not None:
            (model.disc_model if m == "sk" else model).kernel.bounds = np.array(case["tbox"], float)
        safe_train(lambda: model.train([Xh.copy(), Xl.copy()], [Yh.copy(), Yl.copy()]))
        check(len(stub.calls) == 2, "the optimizer is not run once per fidelity")
        sh = Yh.std()
        scaled = {"free": 0.0, "known": val * sh, "est": None}[mode]
        lf = ref0.lf
        eta_l = None if scaled is None else scaled / lf.s
        nll = lambda w: lambda p: gp_nll(lambda t: md.kern(lf.U, lf.U, t), np.ones((len(Xl), 1)), lf.ys, free, w)(
            p[:d], p[d] if eta_l is None else eta_l)
        hits = judge(stub.calls[0], nll, np.array(default + nb, float), f"{m} low fidelity")
        box = tb + nb
        if m == "sk":
            eta = None if scaled is None else scaled / ref0.disc.s
            F = np.ones((len(Xh), 1))

            def wob(w):
                r = (ref0 if w.rng is None else RefB(case, Xh, Yh, Xl, Yl, w)).disc
                return lambda p: gp_nll(lambda t: md.kern(r.U, r.U, t), F, r.ys, free, w)(p[:d], p[d] if eta is None else eta)
        else:
            ys = (Yh - Yh.mean()) / sh
            eta = None if scaled is None else scaled / sh

            def wob(w):
                r = ref0 if w.rng is None else RefB(case, Xh, Yh, Xl, Yl, w)
                U = r.Uh
                ld = (r.lf.predict(Xh)[0] - r.mh) / sh
                if m == "hk":
                    return lambda p: gp_nll(lambda t: md.kern(U, U, t), ld, ys, free, w)(p[:d], p[d] if eta is None else eta)
                k = 1 if eta is not None else 2
                return lambda p: gp_nll(lambda t: md.kern(U, U, t), np.ones((len(Xh), 1)), ys - p[0] * ld, free, w)(
                    p[k:], p[1] if eta is None else eta)
            if m == "ck":
                box = [rb] + nb + tb
        hits += judge(stub.calls[1], wob, np.array(box, float), f"{m} high fidelity")
        mean, std, tm, tv = md.with_tolerance(lambda w: RefB(case, Xh, Yh, Xl, Yl, w), Q, sh)
        if np.max(tm) < 1e-3 * sh:
            md.agree(*sut(model.predict, Q.copy(), return_std=True), mean, std, tm, tv,
                     f"{m} prediction with the answered parameters")
    rec.label(case["model"], mode, "bounds per dimension" if case["tbox"] else "own bounds" if case["bounds"] else "default bounds")
    rec.nontrivial(hits >= 1)


class RefB(md.RefMF):
    """Reference without clipping (the parameters are inside the case's box)."""

    def __init__(self, case, Xh, Yh, Xl, Yl, w=md.Wobble()):
        keep = md.clipped
        try:
            md.clipped = lambda t, lo=None, hi=None: np.array(t, float)
            super().__init__(dict(case, theta_l=[float(v) for v in np.clip(case["theta_l"], -2, 3)]), Xh, Yh, Xl, Yl, w)
        finally:
            md.clipped = keep


def safe_train(fn):
    """Probing corners of the box may meet a singular matrix: not judged."""
    try:
        with np.errstate(all="ignore"):
            fn()
    except np.linalg.LinAlgError:
        raise Inconclusive()
    except Exception as e:
        sut(raise_, e)


def raise_(e):
    raise e


# ---------------------------------------------------------------- built-in
@st.composite
def restart_cases(draw):
    kind = draw(st.sampled_from(["gp", "gp", "hk", "ck"]))
    if kind == "gp":
        case = draw(md.gp_case(n_max=9))
        case["bounds"] = draw(kb)
    else:
        case = draw(md.mf_case(kinds=(kind,), nl_max=7, nh_max=6))
        case["bounds"] = draw(kb)
        case["rb"] = draw(st.sampled_from([None, [0.5, 2.0], [0.1, 10.0]]))
    case["model"] = kind
    case["tbox"] = draw(md.box_of(case["d"]))
    case["noise"] = draw(st.sampled_from([["known", 0.1], ["known", 0.3], ["est", 0.1], ["free", 0.0]]))
    case["r"] = sorted(draw(st.lists(st.integers(0, 5), min_size=2, max_size=2, unique=True)))
    case["seed"] = draw(st.integers(0, 999))
    return case


@st.composite
def single_cases(draw):
    """Many restarts against as many single trainings."""
    case = draw(md.gp_case(n_max=10, d_max=9))
    case.update(model="gp", bounds=draw(st.sampled_from([None, None, [-3.0, 4.0]])), tbox=None,
                noise=draw(st.sampled_from([["known", 0.1], ["known", 0.1], ["known", 0.3], ["est", 0.1]])),
                r=[0, draw(st.sampled_from([4, 8, 12, 16]))], seed=draw(st.integers(0, 999)), single=True)
    return case


def law_restarts(case, rec):
    d, mode, val, m = case["d"], *case["noise"], case["model"]
    free = mode == "free"
    lo, hi = md.theta_box(case).T
    got = []
    # (one training after the other goes on with the same random stream)
    todo = [(0, i == 0) for i in range(case["r"][1] + 1)] + [(case["r"][1], True)] \
        if case.get("single") else [(r, True) for r in case["r"]]
    for r, first in todo:
        if m == "gp":
            X, Y = md.gp_arrays(case)
            s = float(Y.std())
            model = sut(md.build_gp, case, None, s, optimizer_restart=r)
            if first:
                np.random.seed(case["seed"])
            safe_train(lambda: model.train(X.copy(), Y.copy()))
            U = md.RefGP.unit(type("S", (), {"space": np.asarray(case["space"], float)})(), X)
            ys, F, noise = (Y - Y.mean()) / s, md.basis(case["regr"], U), val
        else:
            Xh, Yh, Xl, Yl = md.mf_arrays(case)
            s = float(Yh.std())
            ref0 = md.RefMF(dict(case, theta=[0.5] * d), Xh, Yh, Xl, Yl)
            kw = dict(optimizer_restart=r)
            if case["bounds"]:
                kw["kernel_bound"] = list(case["bounds"])
            if m == "ck" and case["rb"]:
                kw["rho_bound"] = list(case["rb"])
            model = sut(md.build_mf, case, None, s, **kw)
            if case["tbox"] is not None:
                model.kernel.bounds = np.array(case["tbox"], float)
            lf_stub = md.Stub([md.mf_stub(case).answers[0]])
            if m == "ck":
                model._update_optimizer_lf(lf_stub)
            else:
                model.lfGP.change_optimizer(lf_stub)
            if first:
                np.random.seed(case["seed"])
            safe_train(lambda: model.train([Xh.copy(), Xl.copy()], [Yh.copy(), Yl.copy()]))
            ld = (ref0.lf.predict(Xh)[0] - ref0.mh) / s
            U, ys, noise = ref0.Uh, (Yh - Yh.mean()) / s, val
            F = ld
            if m == "ck":
                rho = float(np.ravel(model.rho)[0])
                b = case["rb"] or [1e-2, 1e2]
                check(b[0] - 1e-9 <= rho <= b[1] + 1e-9, "the scale factor is outside of its bounds", rho=rho, bounds=b)
                F, ys = np.ones((len(Xh), 1)), ys - rho * ld
        theta = np.log10(arr(model.kernel._get_param, (d,), "kernel parameters"))
        check(bool(np.all((theta >= lo - 1e-9) & (theta <= hi + 1e-9))), "kernel parameters outside of their bounds",
              theta=theta, low=lo, high=hi)
        eta = float(np.ravel(model.noise)[0]) / s
        if mode == "est":
            check(1e-5 * (1 - 1e-6) <= eta <= 10 * (1 + 1e-6), "the estimated noise is outside of its range", eta=eta)
        else:
            check(abs(eta - noise) <= 1e-9 * (noise + 1e-12), "a known noise was changed", got=eta, want=noise)
        v = [gp_nll(lambda t: md.kern(U, U, t), F, ys, free, md.Wobble(sd))(theta, eta) for sd in (None, 1, 2, 3)]
        tol = 10 * max(abs(x - v[0]) for x in v) + 1e-6 * (1 + abs(v[0]))
        got.append((v[0], tol))
    (a, ta), (b, tb) = min(got[:-1]), got[-1]
    check(b <= a + ta + tb, "more restarts from the same random state give a worse likelihood",
          restarts=case["r"], nll=[a, b], model=m)
    rec.label(m, mode, "improved" if b < a - ta - tb else "equal")
    rec.nontrivial(b < a - ta - tb or len(ys) >= 4)


LAWS = [
    Law("objective", cases, law_objective, 1500, shards=4,
        rule="the likelihood of two probed parameter vectors differs by more than 100 tolerances"),
    Law("single trainings", single_cases, law_restarts, 64, thorough=1500, shards=8,
        rule="several trainings of at least four points"),
    Law("restarts", restart_cases, law_restarts, 200, thorough=3000, shards=8,
        rule="more restarts improved the likelihood, or at least four points"),
]
ASSUMPTIONS = ["Correlation matrices with condition above 1e8 are not judged.",
               "The likelihood keeps the code's two forms: process variance concentrated out without noise, unit-variance form with noise."]
