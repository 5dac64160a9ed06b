"""P25 queries: user-supplied optimizers and the built-in search."""
import numpy as np
from hypothesis import strategies as st

from vlib import fakes as fk, gen, models as md
from vlib.core import Inconclusive, Law, arr, check, sut

from mfpml.optimization.evolutionary_algorithms import DE, PSO
from mfpml.optimization.mf_acqusitions import VFEI, VFLCB, AugmentedEI, ExtendedPI
from mfpml.optimization.sf_cons_acqusitions import CEI
from mfpml.optimization.sf_uncons_acqusitions import EI, LCB, PI

SF = {"EI": EI, "PI": PI, "LCB": LCB}
MF = {"AEI": AugmentedEI, "VFEI": VFEI, "VFLCB": VFLCB, "EPI": ExtendedPI}


class Recorder:
    """Honest optimizer over given unit points; answers[i] for call i."""

    def __init__(self, cand, shape):
        self.cand, self.shape, self.calls = np.array(cand, float), shape, []

    def run_optimizer(self, func, num_dim, design_space, args=(), **kw):
        box = np.array(design_space, float)
        P = box[:, 0] + self.cand * (box[:, 1] - box[:, 0])
        y = np.ravel(np.array(func(P.copy(), *args), float))
        assert y.size == len(P), "the acquisition gives the wrong number of values"
        i = int(np.argmin(y))
        x = P[i] if self.shape == "flat" else P[i:i + 1]
        self.calls.append(dict(d=num_dim, box=box, P=P, y=y, x=P[i].copy(), fun=float(y[i])))
        return {"best_x": x.copy(), "best_y": y[i]}, float(y[i]), x.copy()


class Spy:
    """Records everything a real evolutionary optimizer evaluates."""

    def __init__(self, opt):
        self.opt, self.calls = opt, []

    def run_optimizer(self, func, num_dim, design_space, args=(), **kw):
        seen = dict(d=num_dim, box=np.array(design_space, float), P=[], y=[])

        def wrapped(x, *a):
            y = func(x, *a)
            seen["P"].append(np.array(x, float))
            seen["y"].append(np.ravel(np.array(y, float)))
            return y

        out = self.opt.run_optimizer(wrapped, num_dim, design_space, args=args, **kw)
        seen["P"], seen["y"] = np.vstack(seen["P"]), np.concatenate(seen["y"])
        i = int(np.argmin(seen["y"]))
        seen["x"], seen["fun"] = None, float(seen["y"][i])
        self.calls.append(seen)
        return out


# ---------------------------------------------------------------- landscapes
@st.composite
def scape(draw, d):
    r = lambda a, b, q: draw(st.lists(st.integers(a, b).map(lambda i: i / q), min_size=d, max_size=d))
    return {"c": r(-4, 20, 16), "w": r(1, 16, 4), "a": draw(st.integers(-8, 8)) / 8,
            "s0": draw(st.sampled_from([0.25, 0.5, 1.0])), "s1": r(-4, 8, 8),
            "b": draw(st.sampled_from([0.0, 0.0, 0.2])), "ph": draw(st.integers(0, 6))}


def fns(s):
    c, w = np.array(s["c"]), np.array(s["w"])
    mean = lambda U: s["a"] + ((U - c) ** 2 * w).sum(1) + s["b"] * np.sin(9 * U.sum(1) + s["ph"])
    std = lambda U: s["s0"] * np.exp((U * np.array(s["s1"])).sum(1) / 2)
    return mean, std


@st.composite
def case_of(draw, d_max=3, smooth=False, kinds=tuple(SF) + ("CEI",) + tuple(MF)):
    d = draw(st.integers(1, d_max))
    case = {"d": d, "acq": draw(st.sampled_from(kinds)), "space": draw(gen.space_d(d)),
            "f": draw(scape(d)), "lf": draw(scape(d)),
            "cons": [draw(scape(d)) for _ in range(draw(st.integers(0, 2)))],
            "cshift": draw(st.sampled_from([0.0, 1.0, 2.0])),
            "fmin": draw(st.integers(-4, 8)) / 4, "cr": draw(st.sampled_from([0.2, 1.0, 2.0, 8.0])),
            "beta": draw(st.integers(-8, 8)) / 4,
            "xh": draw(gen.grid_points(2, d, 8)), "xl": draw(gen.grid_points(3, d, 8)),
            "kappa": draw(st.sampled_from([None, [1.0, 0.5], [1.0, 0.0], [2.0, 3.0]]))}
    if smooth or case["acq"] == "EPI":      # its search for the best prediction is not at issue
        for f in [case["f"], case["lf"]] + case["cons"]:
            f["b"] = 0.0
    if draw(st.integers(0, 3)) == 0:         # identical fidelities
        case["lf"], case["cr"], case["beta"] = case["f"], 1.0, 1.0
    return case


def setup(case):
    """(query function, eval per fidelity, box, acquisition class)"""
    name, box = case["acq"], np.array(case["space"], float)
    up = lambda u: box[:, 0] + np.array(u) * (box[:, 1] - box[:, 0])
    cls = CEI if name == "CEI" else {**SF, **MF}[name]
    kw = {"kappa": list(case["kappa"])} if case["kappa"] and "LCB" in name else {}
    make = lambda opt=None: cls(optimizer=opt, **kw)
    if name in SF:
        sur = fk.Fn(box, *fns(case["f"]), [case["fmin"]])
        return make, lambda a: sut(a.query, surrogate=sur), [lambda x: make().eval(x, sur)], box, sur
    if name == "CEI":
        sur = fk.Fn(box, *fns(case["f"]), [case["fmin"]])
        cons = []
        for c in case["cons"]:
            m, s = fns(c)
            cons.append(fk.Fn(box, (lambda m: lambda U: m(U) - case["cshift"])(m), s, [7.0]))
        return (make, lambda a: sut(a.query, obj_surrogate=sur, cons_surrogate=cons),
                [lambda x: make().eval(x, sur, cons)], box, sur)
    sur = fk.MFFn(box, *fns(case["f"]))
    sur.set_lf(fk.Fn(box, *fns(case["lf"])), up(case["xh"]), up(case["xl"]),
               beta=np.array([[case["beta"]]]), corr=case.get("corr", 0.3))
    cr, fmin = case["cr"], float(case["fmin"])
    ev = {"AEI": lambda x, f: make().eval(x, sur, cr, f),
          "VFEI": lambda x, f: make().eval(x, fmin, sur, f),
          "VFLCB": lambda x, f: make().eval(x, sur, cr, f),
          "EPI": lambda x, f: make().eval(x, sur, case["_min"], cr, f)}[name]
    more = {"cost_ratio": cr, "fmin": fmin}
    if name != "VFEI" and cr == 1.0 and case["beta"] > 0:
        del more["cost_ratio"]              # the default
    if name != "VFEI" and case["beta"] < 0:
        del more["fmin"]                    # not used by these
    return (make, lambda a: sut(a.query, mf_surrogate=sur, **more),
            [lambda x: ev(x, 0), lambda x: ev(x, 1)], box, sur)


def dense(d, rng):
    if d == 1:
        return np.linspace(0, 1, 401)[:, None]
    g = {2: 33, 3: 11}[d]
    grid = np.stack(np.meshgrid(*[np.linspace(0, 1, g)] * d), -1).reshape(-1, d)
    return np.vstack([grid, rng.random((200, d))])


def predicted_min(sur):
    """Minimum of the predicted mean over the box, well polished."""
    from scipy.optimize import minimize
    U = dense(sur.num_dim, np.random.default_rng(0))
    v = sur.fm(U)
    best = float(v.min())
    for i in np.argsort(v)[:3]:
        r = minimize(lambda u: float(sur.fm(u[None, :])[0]), U[i], bounds=[(0, 1)] * sur.num_dim, method="L-BFGS-B")
        best = min(best, float(r.fun))
    return best


@st.composite
def user_cases(draw):
    case = draw(case_of())
    case["cand"] = draw(gen.grid_points(draw(st.integers(1, 6)), case["d"], 16))
    case["shape"] = draw(st.sampled_from(["flat", "row"]))
    case["opt"] = draw(st.sampled_from(["fixed", "fixed", "fixed", "PSO", "DE"]))
    case["seed"] = draw(st.integers(0, 99))
    return case


def law_user(case, rec):
    case = dict(case)
    if case["acq"] == "EPI":
        tmp = setup(dict(case, _min=0.0))[4]
        case["_min"] = predicted_min(tmp)
    make, query, evals, box, sur = setup(case)
    if case["opt"] == "fixed":
        opt = Recorder(case["cand"], case["shape"])
    else:
        np.random.seed(case["seed"])
        opt = Spy(PSO(num_gen=5, num_pop=8) if case["opt"] == "PSO" else DE(num_gen=5, num_pop=8))
    out = query(make(opt))
    check(len(opt.calls) == len(evals), f"the optimizer was run {len(opt.calls)} times for {len(evals)} fidelities")
    tol = 1e-3 if case["acq"] == "EPI" else 1e-9     # its best value is searched for
    which = []
    for c in opt.calls:
        check(c["d"] == case["d"], "the optimizer is given the wrong dimension", got=c["d"])
        check(np.array_equal(c["box"], box), "the optimizer is not given the surrogate's design space", got=c["box"])
        want = [np.ravel(sut(e, c["P"].copy())) for e in evals]
        fits = [k for k in range(len(evals)) if np.allclose(c["y"], want[k], rtol=tol, atol=tol)]
        check(bool(fits), "the optimizer is not given the acquisition function of a fidelity",
              got=c["y"][:5], want=[w[:5] for w in want])
        which.append(fits)
    if len(evals) == 1:
        x = np.ravel(arr(out, what="query"))
        call = opt.calls[0]
        rec.label(case["acq"], case["opt"])
    else:
        check(isinstance(out, tuple) and len(out) == 2, "the query must give a point and a fidelity")
        x, fid = np.ravel(arr(out[0], what="query")), out[1]
        check(fid in (0, 1), f"unknown fidelity {fid!r}")
        order = [o for o in ((0, 1), (1, 0)) if o[0] in which[0] and o[1] in which[1]]
        check(bool(order), "the optimizer is not given the acquisition function of every fidelity", matches=which)
        funs = [opt.calls[i]["fun"] for i in (0, 1)]
        want = {0 if funs[o.index(0)] <= funs[o.index(1)] else 1 for o in order}
        gap = abs(funs[0] - funs[1])
        if case["acq"] != "EPI" or gap > 1e-3 or gap == 0:
            check(fid in want, "the fidelity is not the one with the smaller optimum (the high one on a tie)",
                  fidelity=fid, optima=funs)
        calls = {opt.calls[o.index(fid)]["fun"]: opt.calls[o.index(fid)] for o in order}
        call = list(calls.values())[0]
        if len(order) > 1:
            call = next((c for c in opt.calls if c["x"] is not None and np.array_equal(np.ravel(x), c["x"])), call)
        rec.label(case["acq"], case["opt"], f"fidelity {fid}", f"{case['acq']} tie" if gap == 0 else "no tie")
    check(x.size == case["d"], "the query is not one point")
    if call["x"] is not None:
        check(np.array_equal(x, call["x"]), "the answer of the optimizer is not used", got=x, want=call["x"])
    else:
        hit = np.flatnonzero((call["P"] == x).all(1))
        check(hit.size > 0 and call["y"][hit].min() <= call["fun"], "the query is not the best point the optimizer evaluated")
    rec.nontrivial(len(opt.calls[0]["P"]) >= 2)


def law_search(case, rec):
    case = dict(case)
    if case["acq"] == "EPI":
        case["_min"] = predicted_min(setup(dict(case, _min=0.0))[4])
    make, query, evals, box, sur = setup(case)
    out = query(make())
    rng = np.random.default_rng(1)
    U = dense(case["d"], rng)
    P = box[:, 0] + U * (box[:, 1] - box[:, 0])
    vals = [np.ravel(sut(e, P.copy())) for e in evals]
    fid = 0
    if len(evals) == 1:
        x = np.ravel(arr(out, what="query"))
    else:
        check(isinstance(out, tuple) and len(out) == 2, "the query must give a point and a fidelity")
        x, fid = np.ravel(arr(out[0], what="query")), out[1]
        check(fid in (0, 1), f"unknown fidelity {fid!r}")
    check(x.size == case["d"], "the query is not one point")
    check(bool(np.all((x >= box[:, 0]) & (x <= box[:, 1]))), "the query is outside of the design space", x=x)
    got = float(np.ravel(sut(evals[fid], x[None, :].copy()))[0])
    span = max(float(np.ptp(v)) for v in vals)
    tol = 0.02 * span + 1e-9
    best = [float(v.min()) for v in vals]
    check(got <= min(best) + tol, "another point (or fidelity) has a smaller acquisition value",
          got=got, best=best, fidelity=fid)
    if len(evals) == 2 and np.array_equal(vals[0], vals[1]):
        rec.label("identical fidelities")
    rec.label(case["acq"], f"d={case['d']}")
    rec.nontrivial(span > 1e-3)


def mf_tie_cases():
    """VF-LCB without exploration, the extended PI of identical fidelities and
    no influence of the samples: both fidelities have the same values."""
    def tie(c, epi):
        if not epi:
            return dict(c, acq="VFLCB", kappa=[1.0, 0.0], opt="fixed")
        f = dict(c["f"], b=0.0)
        return dict(c, acq="EPI", opt="fixed", f=f, lf=f, cr=1.0, corr=0.0)
    return st.builds(tie, user_cases(), st.booleans())


# ---------------------------------------------------------------- the choice
@st.composite
def choice_cases(draw):
    d = draw(st.integers(1, 3))
    value = st.one_of(st.integers(-40, 40).map(lambda i: i / 8), st.sampled_from([-1e-7, -1e-12, 1e6, -3e8]))
    a = draw(value)
    step = draw(st.sampled_from([0.0, 1e-12, 1e-9, 1e-6, 1e-4, 1e-3, 0.01, 0.1, 1.0]))
    b = draw(st.one_of(value, st.just(a + step * max(abs(a), 1e-3)), st.just(a - step * max(abs(a), 1e-3))))
    return {"d": d, "acq": draw(st.sampled_from(["AEI", "VFEI", "VFLCB"])), "optima": [a, b],
            "space": draw(gen.space_d(d)), "u": draw(gen.grid_points(2, d, 16)), "f": draw(scape(d)), "lf": draw(scape(d)),
            "form": draw(st.sampled_from(["float", "array", "row"])), "cr": draw(st.sampled_from([0.2, 1.0, 5.0]))}


def law_choice(case, rec):
    """The optimizer's answers decide: the smaller optimum, high on a tie."""
    box = np.array(case["space"], float)
    P = box[:, 0] + np.array(case["u"]) * (box[:, 1] - box[:, 0])
    sur = fk.MFFn(box, *fns(case["f"]))
    sur.set_lf(fk.Fn(box, *fns(case["lf"])), P[:1], P[:1], beta=np.array([[1.0]]))
    order = []

    class Opt:
        def run_optimizer(self, func, num_dim, design_space, args=(), **kw):
            # which fidelity is asked for: by its values, on a grid
            U = dense(case["d"], np.random.default_rng(3))[::7]
            Z = box[:, 0] + U * (box[:, 1] - box[:, 0])
            y = np.ravel(func(Z.copy(), *args))
            fits = [k for k in (0, 1) if np.allclose(y, ev[k](Z.copy()), rtol=1e-9, atol=1e-12)]
            if len(fits) != 1:
                raise Inconclusive()
            k = fits[0]
            order.append(k)
            v = case["optima"][k]
            v = {"float": v, "array": np.array([v]), "row": np.array([[v]])}[case["form"]]
            return {"best_x": P[k].copy(), "best_y": v}, v, P[k].copy()

    acq = MF[case["acq"]](optimizer=Opt())
    plain = MF[case["acq"]]()
    ev = {"AEI": lambda k: lambda x: np.ravel(plain.eval(x, sur, case["cr"], k)),
          "VFEI": lambda k: lambda x: np.ravel(plain.eval(x, 0.25, sur, k)),
          "VFLCB": lambda k: lambda x: np.ravel(plain.eval(x, sur, case["cr"], k))}[case["acq"]]
    ev = [ev(0), ev(1)]
    out = sut(acq.query, mf_surrogate=sur, cost_ratio=case["cr"], fmin=0.25)
    check(sorted(order) == [0, 1], "the optimizer is not run once per fidelity", order=order)
    a, b = case["optima"]
    x, fid = np.ravel(arr(out[0], what="query")), out[1]
    want = 0 if a <= b else 1
    check(fid == want, "the fidelity is not the one with the smaller optimum (the high one on a tie)",
          fidelity=fid, optima=[a, b])
    check(np.array_equal(x, P[want]), "the answer of the optimizer is not used", got=x, want=P[want])
    rec.label(case["acq"], "tie" if a == b else "close" if abs(a - b) < 0.02 * max(abs(a), abs(b)) else "apart")
    rec.nontrivial(not np.array_equal(P[0], P[1]))


LAWS = [
    Law("choice", choice_cases, law_choice, 800, shards=2, rule="the optima lie at different points"),
    Law("user_optimizer", user_cases, law_user, 1200, shards=5,
        rule="the optimizer compares at least two points"),
    Law("tie", mf_tie_cases, law_user, 150, shards=1, rule="the optimizer compares at least two points"),
    Law("built_in_search", lambda: case_of(d_max=2, smooth=True), law_search, 120, thorough=2500, shards=8,
        rule="the acquisition varies by more than 1e-3 over the space"),
]
ASSUMPTIONS = ["The built-in search is judged with predictions without ripples, on a dense grid, with 2 % of the range of the acquisition as slack."]
