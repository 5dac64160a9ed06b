"""Recorded Bayesian optimizations on generated problems."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Inconclusive, arr, check, quiet
from vlib.doe import inside

from mfpml.optimization import evolutionary_algorithms as evo
from mfpml.optimization import mf_acqusitions as mfa
from mfpml.optimization import sf_cons_acqusitions as sca
from mfpml.optimization import sf_uncons_acqusitions as sfa
from mfpml.optimization.mf_uncons_bo import mfUnConsBayesOpt
from mfpml.optimization.sf_cons_bo import BayesConsOpt
from mfpml.optimization.sf_uncons_bo import BayesUnConsOpt
from mfpml.problems.functions import Functions
from mfpml.problems.mf_functions import MultiFidelityFunctions

KINDS = ("unit", "int", "eighth", "offset", "dec")
SURROGATES = ("HierarchicalKriging", "ScaledKriging", "CoKriging")


# ---------------------------------------------------------------- problems
@st.composite
def surface(draw, d):
    return {"w": draw(st.lists(st.sampled_from([-2, 1, 2, 3]), min_size=d, max_size=d)),
            "c": draw(st.lists(st.integers(0, 16).map(lambda i: i / 16), min_size=d, max_size=d)),
            "a": draw(st.sampled_from([0.5, 1.0, 2.0])), "p": draw(st.integers(0, 6)),
            "f": draw(st.sampled_from([2.0, 5.0, 9.0])),
            "shift": draw(st.sampled_from([0.0, 0.0, 0.0, 4.0, -6.0, 50.0, 1e5, -1e6])),
            "scale": draw(st.sampled_from([1.0] * 5 + [1e-8, 1e-4, 1e6])),
            "step": draw(st.sampled_from([0, 0, 0, 2, 1]))}


def value(s, U):
    U = np.atleast_2d(U)
    t = U - np.array(s["c"])
    y = (np.array(s["w"], float) * t * t).sum(1) + s["a"] * np.sin(s["f"] * U[:, 0] + s["p"] + U.sum(1))
    if s["step"]:                           # exact ties between points
        y = np.round(s["step"] * y) / s["step"]
    return s.get("scale", 1.0) * (y + s["shift"]).reshape(-1, 1)


def reused(store, key, y):
    y = np.asarray(y, float)
    if key not in store:
        store[key] = np.empty((256, *y.shape[1:]))
    store[key][:len(y)] = y
    return store[key][:len(y)]


def make_problem(case, log):
    """A user-defined problem that records its evaluations."""
    space = np.array(case["space"], float)
    unit = lambda x: (x - space[:, 0]) / (space[:, 1] - space[:, 0])
    work = {}

    def call(what, x, fn):
        x = np.asarray(x, float)
        assert x.ndim == 2 and x.shape[1] == len(space), "the problem needs an n-by-d array"
        log.append((what, x.copy()))
        y = fn(unit(x))
        if case.get("reuse"):               # the problem returns its own working array
            y = reused(work, what, y)
        return y

    base = MultiFidelityFunctions if case["kind"] == "mf" else Functions

    class Problem(base):
        num_dim = len(space)
        num_cons = len(case.get("cons", []))
        optimum = case.get("optimum")
        optimum_scheme = None
        input_domain = space.copy()
        low_fidelity = case["kind"] == "mf"
        cost_ratio = [1.0, 0.2]

        def f(self, x):
            return call("f", x, lambda u: value(case["obj"], u))

        def f_cons(self, x):
            return call("f_cons", x, lambda u: constraints(case, u))

        def hf(self, x):
            return call("hf", x, lambda u: value(case["obj"], u))

        def lf(self, x):
            return call("lf", x, lambda u: value(case["low"], u))

    return Problem()


def constraints(case, U):
    g = [value(c, U) - c.get("scale", 1.0) * c["level"] for c in case["cons"]]
    # clamped: the violation only, zero where satisfied
    return np.hstack([np.maximum(v, 0) if c.get("clamp") else v for v, c in zip(g, case["cons"])])


# ---------------------------------------------------------------- acquisitions
def cheap(seed=0):
    return evo.DE(num_pop=6, num_gen=4)


REAL = {"uncons": [sfa.EI, sfa.PI, sfa.LCB], "cons": [sca.CEI],
        "mf": [mfa.AugmentedEI, mfa.VFEI, mfa.VFLCB, mfa.ExtendedPI]}


def real_acq(case):
    known = REAL[case["kind"]]
    if case.get("surrogate", "HierarchicalKriging") != "HierarchicalKriging":
        known = [mfa.AugmentedEI, mfa.VFLCB]        # the others accept hierarchical Kriging only
    return known[case["real"] % len(known)](optimizer=cheap())


def space_out(u, taken, gap=0.02):
    """The first of a sequence of points that keeps its distance."""
    u = np.array(u, float)
    for _ in range(200):
        if not len(taken) or np.abs(taken - u).max(1).min() >= gap:
            return u
        u = (u + 0.3819660112501051 + 0.07 * np.arange(len(u))) % 1.0
    raise Inconclusive()


@st.composite
def bo_case(draw, kind, n_iter=4, d_max=2, large=False):
    d, n, m = draw(st.integers(1, d_max)), st.integers(4, 7), 3
    if large:
        d, n = draw(st.integers(2, 4)), st.one_of(st.integers(25, 60), st.integers(25, 60), st.integers(61, 120))
    elif draw(gen.rare()):                    # a larger design, more dimensions and constraints
        d, n, m = draw(st.integers(1, d_max + 2)), st.sampled_from([*range(8, 19), 33, 48]), 6
    case = {"kind": kind, "d": d, "space": draw(gen.space_d(d, KINDS)), "obj": draw(surface(d)),
            "seed": draw(st.integers(0, 2000)), "verbose": draw(st.booleans()),
            "optimum": draw(st.sampled_from([None, None, -3.0, 0.0, 2.5, 0.01, -0.2])),
            "n": draw(n), "pre": draw(st.integers(0, 99)),
            "real": draw(st.sampled_from([None] * 8 + [0, 1, 2, 3])),
            "pts": draw(gen.grid_points(3 * n_iter, d)),
            "column": draw(st.booleans()), "reuse": draw(st.integers(0, 2)) == 0, "thin": draw(st.integers(0, 5)) > 0,
            "again": draw(st.one_of(st.none(), st.none(), st.tuples(
                st.integers(0, n_iter), st.integers(0, 20), st.sampled_from([0.0, 0.0, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3]))))}
    if kind == "cons":
        m = draw(st.integers(1, 12 if draw(gen.rare(15)) else m))
        case["cons"] = [dict(draw(surface(d)), shift=0.0, step=draw(st.sampled_from([0, 0, 0, 2, 4])),
                             clamp=draw(st.integers(0, 4)) == 0,
                             level=draw(st.sampled_from([-2.0, -0.5, -0.25, 0.0, 0.25, 0.5, 1.0, 6.0])))
                        for _ in range(m)]
    if kind == "mf":
        case["low"] = dict(draw(surface(d)), step=0, scale=case["obj"]["scale"])
        for k in ("obj", "low"):            # (a difference of large offsets swamps the data)
            case[k]["shift"] = float(np.clip(case[k]["shift"], -300, 300))
        case["nl"] = case["n"] + draw(st.integers(20, 40) if large or draw(gen.rare(15)) else st.integers(0, 3))
        case["surrogate"] = draw(st.sampled_from(SURROGATES))
        case["fid"] = draw(st.lists(st.integers(0, 1), min_size=3 * n_iter, max_size=3 * n_iter))
    return case


def degenerate(case, log):
    """A response of the initial design is constant (cannot be scaled)."""
    space = np.array(case["space"], float)
    for what, x in log:
        u = (np.atleast_2d(x) - space[:, 0]) / (space[:, 1] - space[:, 0])
        if len(u) < 2:                      # a query
            continue
        if what == "f_cons":
            y = constraints(case, u) / [c.get("scale", 1.0) for c in case["cons"]]
        else:
            s = case["low" if what == "lf" else "obj"]
            y = value(s, u) / s.get("scale", 1.0)
        if np.min(np.std(y, axis=0)) < 1e-6:
            return True
    return False


# ---------------------------------------------------------------- sessions
class Session:
    """One optimization object, the expected ledger and the recorded calls."""

    def __init__(self, case, watch=True, acquisition=None):
        self.case, self.kind, self.watch = case, case["kind"], watch
        self.space = np.array(case["space"], float)
        self.log, self.queries, self.iterations, self.bo = [], 0, 0, None
        self.cost, self.stop = None, 1.0
        self.problem = make_problem(case, self.log)
        self.acq = acquisition or self._acquisition()
        self.at_query = None                # extra hook of a law
        np.random.seed(case["pre"])
        args = dict(problem=self.problem, acquisition=self.acq, seed=case["seed"], verbose=case["verbose"])
        cls = {"uncons": BayesUnConsOpt, "cons": BayesConsOpt, "mf": mfUnConsBayesOpt}[self.kind]
        if self.kind == "mf":
            self.num_init = [case["n"], case["nl"]]
            args.update(num_init=self.num_init, surrogate_name=case["surrogate"])
        else:
            args.update(num_init=case["n"])
        self._numerical(lambda: cls(**args), init=True)
        bo = self.bo
        if case.get("thin"):                # fewer restarts of the hyper-parameter search
            for m in [getattr(bo, "surrogate", None), getattr(bo, "obj_surrogate", None),
                      *getattr(bo, "cons_surrogates", [])]:
                for g in (m, getattr(m, "lfGP", None), getattr(m, "disc_model", None)):
                    if hasattr(g, "optimizer_restart"):
                        g.optimizer_restart = 1
        if self.kind == "mf":
            check(len(bo.sample) == 2 and len(bo.response) == 2, "there are not two fidelities")
            self.X = [arr(bo.sample[i], (n, case["d"]), "initial design").copy()
                      for i, n in enumerate((case["n"], case["nl"]))]
        else:
            self.X = [arr(bo.sample, (case["n"], case["d"]), "initial design").copy()]
        for x in self.X:
            inside(x, self.space, "initial design")
        self.order = []
        self.hist = [self.best()]
        self.initial = {}
        for name in ("init_sample", "init_response", "init_obj_response", "init_cons_response"):
            # (responses may be the array of the problem, which some problems reuse)
            if getattr(bo, name, None) is not None and (name == "init_sample" or not case["reuse"]):
                v = getattr(bo, name)
                self.initial[name] = [np.array(a) for a in (v if self.kind == "mf" else [v])]
        self.init_calls = len(self.log)
        self.log.clear()

    def _numerical(self, fn, init=False):
        try:
            with quiet():
                out = fn()
        except np.linalg.LinAlgError:
            raise Inconclusive()
        except Exception:
            if init and self._degenerate():
                raise Inconclusive()
            raise
        if init:
            if self._degenerate():
                raise Inconclusive()
            self.bo = out
        return out

    def _degenerate(self):
        return degenerate(self.case, self.log)

    # --- reference
    def unit(self, x):
        return (np.atleast_2d(x) - self.space[:, 0]) / (self.space[:, 1] - self.space[:, 0])

    def y(self, i=0):
        return value(self.case["low"] if i == 1 else self.case["obj"], self.unit(self.X[i]))

    def feasible(self):
        if self.kind != "cons":
            return np.ones(len(self.X[0]), bool)
        return (constraints(self.case, self.unit(self.X[0])) <= 0).all(1)

    def best(self):
        y = self.y()[self.feasible()]
        return float(y.min()) if y.size else np.inf

    def downhill(self, eps):
        """The best of the points near the best one (known already)."""
        ok = self.feasible()
        i = int(np.argmin(np.where(ok, self.y().ravel(), np.inf))) if ok.any() else 0
        u = self.unit(self.X[0][i])
        steps = np.vstack([np.eye(self.case["d"]), -np.eye(self.case["d"])]) * eps
        near = np.clip(u + steps, 0, 1)
        u = near[int(np.argmin(value(self.case["obj"], near)))]
        return self.space[:, 0] + u * (self.space[:, 1] - self.space[:, 0])

    def scale(self, what="obj"):
        return self.case[what].get("scale", 1.0)

    def error(self):
        o = self.case["optimum"]
        if o is None:
            return 1.0
        e = abs(self.best() - o)
        return e if o == 0 else e / abs(o)

    # --- acquisitions
    def _acquisition(self):
        ses, inner, work = self, None, {}
        if self.case["real"] is not None:
            inner = real_acq(self.case)

        def pick():
            u = self.case["pts"][self.queries % len(self.case["pts"])]
            u = space_out(u, np.vstack([self.unit(x) for x in self.X]))
            x = self.space[:, 0] + u * (self.space[:, 1] - self.space[:, 0])
            again = self.case.get("again")
            if again and again[0] == self.queries:      # a point that is known already
                x = self.X[0][again[1] % len(self.X[0])].copy()
                if again[2]:                # or a little better than the best one
                    x = self.downhill(again[2])
                self.repeated = True
            if self.case.get("reuse"):
                x = reused(work, "x", x[None])[0]
            return x.reshape(1, -1) if self.case["column"] else x

        class Acq({"uncons": sfa.SFUnConsAcq, "cons": sca.SFConsAcq, "mf": mfa.MFUnConsAcq}[self.kind]):
            def __init__(self):
                self.optimizer = None

            def eval(self, *a, **k):
                raise AssertionError("not used")

            if ses.kind == "uncons":
                def query(self, surrogate):
                    return ses.query([surrogate], lambda: inner.query(surrogate=surrogate) if inner else pick())
            elif ses.kind == "cons":
                def query(self, obj_surrogate, cons_surrogate):
                    return ses.query([obj_surrogate, *cons_surrogate],
                                     lambda: inner.query(obj_surrogate=obj_surrogate, cons_surrogate=cons_surrogate)
                                     if inner else pick())
            else:
                def query(self, mf_surrogate, cost_ratio, fmin):
                    def ask():
                        if inner:
                            return inner.query(mf_surrogate=mf_surrogate, cost_ratio=cost_ratio, fmin=fmin)
                        fid = ses.case["fid"][ses.queries % len(ses.case["fid"])]
                        return pick(), np.int64(fid) if ses.case["column"] else fid
                    return ses.query([mf_surrogate], ask, cost_ratio, fmin)

        return Acq()

    def query(self, surrogates, ask, cost_ratio=None, fmin=None):
        """Called by the optimization for the next point."""
        self._settle()
        if self.watch:
            self.ledger("at a query")
            self.trained(surrogates)
            if self.kind == "mf":
                check(cost_ratio == self.cost, "the acquisition gets the wrong cost ratio", got=cost_ratio, want=self.cost)
                check(np.size(fmin) == 1 and float(np.ravel(fmin)[0]) == self.best(),
                      "the acquisition gets the wrong current best", got=fmin, want=self.best())
        if self.at_query:
            self.at_query()
        out = ask()
        x, fid = out if self.kind == "mf" else (out, 0)
        self.pending = (np.array(x, float).reshape(1, -1).copy(), int(fid))
        self.queries += 1
        return out

    pending, repeated = None, False

    def _settle(self):
        """Account for the evaluation of the last query."""
        if self.pending is None:
            return
        x, fid = self.pending
        want = {"uncons": ["f"], "cons": ["f", "f_cons"], "mf": [("hf", "lf")[fid]]}[self.kind]
        check(sorted(w for w, _ in self.log) == want, "an iteration does not evaluate the problem once",
              evaluated=[w for w, _ in self.log], expected=want)
        for w, z in self.log:
            check(z.shape == x.shape and np.array_equal(z, x), "the problem is not evaluated at the queried point",
                  queried=x, evaluated=z)
        self.log.clear()
        self.pending = None
        self.X[fid] = np.vstack([self.X[fid], x])
        self.order.append(fid)
        self.iterations += 1
        self.hist.append(self.best())

    def run(self, k, stop=1.0, cost=1.0):
        """One call of run_optimizer; None leaves an argument to its default."""
        self.cost, self.stop = 1.0 if cost is None else cost, 1.0 if stop is None else stop
        args = {n: v for n, v in (("max_iter", k), ("stopping_error", stop)) if v is not None}
        if self.kind == "mf" and cost is not None:
            args["cost_ratio"] = cost
        out = self._numerical(lambda: self.bo.run_optimizer(**args))
        if self.pending is None:
            check(not self.log, "the problem is evaluated without a query", evaluated=[w for w, _ in self.log])
        self._settle()
        if self.kind != "mf" and self.watch:
            check(isinstance(out, tuple) and len(out) == 2, "run_optimizer does not return the best value and point")
            self._best(out[0], out[1], "returned best")

    # --- invariants
    def _best(self, best, best_x, what):
        want = self.best()
        check(np.size(best) == 1, f"{what}: not one value")
        b = float(np.ravel(best)[0])
        check(b == want or abs(b - want) <= 1e-12 * abs(want), f"{what} is not the best evaluated value",
              got=b, want=want)
        if not np.isfinite(want):
            check(best_x is None, f"{what}: a location although nothing is feasible", got=best_x)
            return
        z = np.asarray(best_x, float)
        check(z.size >= 1 and z.size % self.case["d"] == 0, f"{what}: bad location", got=best_x)
        z = z.reshape(-1, self.case["d"])
        check(len(z) == 1 or self.kind == "cons", f"{what}: several locations", got=z)
        y, ok = self.y().ravel(), self.feasible()
        for r in z:
            hit = (self.X[0] == r).all(1)
            check(bool(hit.any()), f"{what}: the location was never evaluated", got=r)
            i = int(np.argmax(hit))
            check(bool(ok[i]), f"{what}: the location is not feasible", got=r)
            check(abs(y[i] - want) <= 1e-12 * abs(want), f"{what}: the location does not attain it",
                  value=float(y[i]), best=want)

    def ledger(self, when):
        bo = self.bo
        if self.kind == "mf":
            check(len(bo.sample) == 2 and len(bo.response) == 2, "there are not two fidelities")
            pairs = [(bo.sample[i], bo.response[i], self.X[i], self.y(i), "high-fidelity " if i == 0 else "low-fidelity ")
                     for i in range(2)]
            got = [int(np.ravel(v)[0]) for v in bo.fidelity_query_order]
            check(got == self.order, f"{when}: the record of queried fidelities is wrong", got=got, want=self.order)
        elif self.kind == "cons":
            pairs = [(bo.sample, bo.obj_response, self.X[0], self.y(), ""),
                     (bo.sample, bo.cons_response, self.X[0], constraints(self.case, self.unit(self.X[0])), "constraint ")]
        else:
            pairs = [(bo.sample, bo.response, self.X[0], self.y(), "")]
        for gx, gy, x, y, what in pairs:
            gx = arr(gx, x.shape, f"{when}: {what}samples")
            gy = arr(gy, y.shape, f"{when}: {what}responses")
            check(np.array_equal(gx, x), f"{when}: the {what}samples are not the initial design and the queried points")
            check(np.allclose(gy, y, rtol=1e-12, atol=0), f"{when}: the {what}responses are not the problem's values",
                  got=gy.ravel()[-4:], want=y.ravel()[-4:])
        for name, keep in self.initial.items():
            v = getattr(bo, name)
            v = list(v) if self.kind == "mf" else [v]
            check(len(v) == len(keep) and all(np.array_equal(a, b) for a, b in zip(v, keep)),
                  f"{when}: the recorded initial design has changed", attribute=name)
        self._best(bo.best, bo.best_x, f"{when}: best")
        h = [float(np.ravel(v)[0]) for v in bo.history_best]
        check(len(h) == len(self.hist), f"{when}: the history has the wrong length", got=len(h), want=len(self.hist))
        check(np.allclose(h, self.hist, rtol=1e-12, atol=0), f"{when}: the history of best values is wrong",
              got=h, want=self.hist)
        hx = bo.history_best_x
        check(len(hx) == len(h), f"{when}: the history of best points has the wrong length", got=len(hx), want=len(h))
        for b, z in zip(h, hx):
            if not np.isfinite(b):
                check(z is None, f"{when}: a best point without a best value")
                continue
            z = np.asarray(z, float).reshape(-1, self.case["d"])
            v = value(self.case["obj"], self.unit(z)).ravel()
            check(np.allclose(v, b, rtol=1e-12, atol=0), f"{when}: a past best point does not have the past best value",
                  value=v, best=b)

    def trained(self, surrogates):
        """The surrogates know all data."""
        if self.kind == "mf":
            s = surrogates[0]
            sets = [(s.predict, self.X[0], self.y(0), self.scale(), "high-fidelity"),
                    (s.predict_lf, self.X[1], self.y(1), self.scale("low"), "low-fidelity")]
            for got, want, w in ((s._get_sample_hf, self.X[0], "high"), (s._get_sample_lf, self.X[1], "low")):
                check(np.array_equal(np.asarray(got, float), want), f"a query sees a surrogate without all {w}-fidelity data")
        else:
            m = len(self.case["cons"]) if self.kind == "cons" else 0
            check(len(surrogates) == 1 + m, "a query does not get one surrogate per response", got=len(surrogates))
            for g in surrogates:
                got = getattr(g, "sample_x", None)
                if isinstance(got, np.ndarray) and got.ndim == 2:
                    check(len(got) == len(self.X[0]), "a query sees a surrogate without all data",
                          samples=len(got), want=len(self.X[0]))
            sets = [(surrogates[0].predict, self.X[0], self.y(), self.scale(), "objective")]
            if m:
                C = constraints(self.case, self.unit(self.X[0]))
                sets += [(surrogates[1 + k].predict, self.X[0], C[:, k:k + 1], self.case["cons"][k].get("scale", 1.0), f"constraint {k}") for k in range(m)]
        if self.repeated:                   # singular correlation matrices
            return
        for pred, X, Y, s, w in sets:
            if np.std(Y) < 1e-6 * s:
                continue
            with quiet():
                p = np.asarray(pred(X.copy()), float)
            check(p.shape == Y.shape and bool(np.all(np.abs(p - Y) <= 0.05 * np.std(Y) + 1e-9 * s)),
                  f"a query sees a {w} surrogate that does not know all data",
                  predicted=p.ravel()[-4:], data=Y.ravel()[-4:], n=len(X))
