"""P32 stopping rule and reproducibility of Bayesian optimization."""
import numpy as np
from hypothesis import strategies as st

from vlib import bo
from vlib.core import Inconclusive, Law, check, quiet

KINDS = ("uncons", "cons", "mf")


@st.composite
def stop_cases(draw):
    case = draw(bo.bo_case(draw(st.sampled_from(KINDS)), n_iter=3))
    case["real"], case["verbose"] = None, draw(st.integers(0, 3)) == 0
    how = draw(st.sampled_from(["none", "none", "fixed", "point", "zero", "dip", "dip", "dip", "near", "near", "near"]))
    case["opt"] = [how, draw(st.sampled_from({
        "none": [0.0], "fixed": [-3.0, 0.0, 2.5, 0.05, -0.3], "point": [0.0, 0.05, -0.3], "zero": [0.0, 0.125],
        "near": [0.0, 0.02, -0.02, 0.3, 0.0, -0.3, 3.0, -50.0],
        "dip": [0.0, 0.0, -0.02, 0.02]}[how]))]
    stops = {"none": [1.0, 0.5, 0.1, 0.0, None], "dip": [0.1, 0.01, 1e-6, 0.5, 0.03, 5.0], "near": [1.0, 0.1, 5.0, 0.01, 20.0, 1e-4, None]}.get(
        how, [1.0, 0.5, 0.1, 0.01, 0.0, 5.0, 0.3, 1e-6, None])
    case["runs"] = draw(st.lists(st.tuples(st.sampled_from([3, 4, 2, 1, 0] if how == "dip" else [1, 2, 3, 4, 0]),
                                           st.sampled_from(stops)), min_size=1, max_size=3))
    case["at"] = draw(st.integers(0, 2))
    if how == "dip":                        # the target of the search is queried at this iteration
        case["target"] = draw(st.sampled_from([-40.0, -3.0, 0.0, 0.0, 0.03, -0.2, 2.5, 40.0]))
        if case["kind"] == "mf":
            case["fid"] = [0 if i == case["at"] else f for i, f in enumerate(case["fid"])]
    if how == "near":                       # the initial error is a multiple of the stopping error
        case["times"] = draw(st.sampled_from([0.3, 0.9, 1.1, 3.0, 10.0]))
    if how in ("dip", "near") and case["kind"] == "cons":
        case["cons"] = [dict(c, level=6.0) for c in case["cons"]]
    return case


def law_stop(case, rec):
    case = dict(case)
    how = case["opt"]
    u = np.array(case["pts"][1])[None]
    if how[0] == "none":
        case["optimum"] = None
    elif how[0] == "fixed":
        case["optimum"] = how[1]
    elif how[0] == "dip":                   # the best point of all is reached in the middle of the search
        U = np.random.default_rng(case["at"]).random((3000, case["d"]))
        v = bo.value(case["obj"], U).ravel()
        if case["kind"] == "cons":
            v = np.where((bo.constraints(case, U) <= 0).all(1), v, np.inf)
        i = int(np.argmin(v))
        if not np.isfinite(v[i]):
            raise Inconclusive()
        case["pts"] = [list(U[i]) if k == case["at"] else p for k, p in enumerate(case["pts"])]
        case["obj"] = dict(case["obj"], shift=case["obj"]["shift"] - float(v[i]) + case["target"])
        case["optimum"] = case["target"] + how[1] * min(1.0, abs(case["target"])) if case["target"] else 0.0
    elif how[0] == "near":
        b = bo.Session(dict(case, optimum=None), watch=False).best()
        if not np.isfinite(b):
            raise Inconclusive()
        s = case["runs"][0][1]
        gap = case["times"] * (1.0 if s is None else s) * (abs(how[1]) or 1.0)
        case["obj"] = dict(case["obj"], shift=case["obj"]["shift"] - b + how[1] + gap)
        case["optimum"] = how[1]
    elif how[0] == "point":                 # the value of a point that may be queried
        case["optimum"] = float(bo.value(case["obj"], u).item()) + how[1]
    else:                                   # a problem whose optimum is zero
        v = float(bo.value(case["obj"], u).item())
        case["obj"] = dict(case["obj"], shift=case["obj"]["shift"] - v + how[1])
        case["optimum"] = 0.0
    ses = bo.Session(case, watch=False)
    known = case["optimum"] is not None
    early = middle = 0
    for k, stop in case["runs"]:
        count, level = [0], 1.0 if stop is None else stop

        def at_query():
            count[0] += 1
            check(count[0] <= k, "more iterations than allowed", allowed=k)
            e = ses.error()
            if known and e < level and abs(e - level) > 1e-9 * (1 + level):
                check(False, "an iteration although the error is below the stopping error", error=e, stop=level,
                      best=ses.best(), optimum=case["optimum"])

        ses.at_query = at_query
        ses.run(k, stop)
        e = ses.error()
        check(known or count[0] == k, "a run with an unknown optimum does not perform all its iterations",
              done=count[0], allowed=k, stop=level)
        if count[0] < k:
            early += 1
            middle += 0 < count[0]
            check(e < level + 1e-9 * (1 + level), "the run stops although the error is not below the stopping error",
                  done=count[0], allowed=k, error=e, stop=level, best=ses.best(), optimum=case["optimum"])
    rec.label(case["kind"], "optimum " + ("unknown" if case["optimum"] is None else "zero" if case["optimum"] == 0
                                          else "negative" if case["optimum"] < 0 else "positive"),
              "stopped in the middle" if middle else "stopped at once" if early else "full length")
    rec.nontrivial(known and any(s is None or s > 0 for _, s in case["runs"]))


@st.composite
def default_cases(draw):
    case = draw(bo.bo_case(draw(st.sampled_from(KINDS)), n_iter=4, d_max=1))
    case["real"], case["verbose"], case["optimum"], case["thin"] = None, False, None, True
    case["n"] = 4
    if case["kind"] == "mf":
        case["nl"] = 5
    return case


def law_default(case, rec):
    """run_optimizer() without arguments: ten iterations."""
    ses = bo.Session(case, watch=False)
    ses.run(None, None, None)
    check(ses.iterations == 10, "a run without arguments and with an unknown optimum does not perform its ten iterations",
          done=ses.iterations)
    rec.label(case["kind"])


# ---------------------------------------------------------------- repetition
@st.composite
def repeat_cases(draw):
    case = draw(bo.bo_case(draw(st.sampled_from(KINDS)), n_iter=3, d_max=2))
    case["optimum"] = None
    case["real"] = draw(st.sampled_from(["random", "random", 0, 1, 2, 3]))
    case["runs"] = draw(st.lists(st.integers(1, 2), min_size=1, max_size=2))
    case["between"] = draw(st.sampled_from(["nothing", "random", "other"]))
    case["pre2"] = draw(st.integers(100, 199))
    return case


def random_acq(case):
    """A user-defined acquisition that draws candidates at random."""
    space = np.array(case["space"], float)

    def best(predict):
        u = np.random.rand(8, len(space))
        x = space[:, 0] + u * (space[:, 1] - space[:, 0])
        with quiet():
            return x[int(np.argmin(np.ravel(predict(x)) + 0.1 * np.random.rand(len(x))))]

    if case["kind"] == "uncons":
        class A(bo.sfa.SFUnConsAcq):
            def eval(self, x, surrogate): raise AssertionError
            def query(self, surrogate): return best(surrogate.predict)
    elif case["kind"] == "cons":
        class A(bo.sca.SFConsAcq):
            def eval(self, x, obj_surrogate, cons_surrogates): raise AssertionError
            def query(self, obj_surrogate, cons_surrogate): return best(obj_surrogate.predict)
    else:
        class A(bo.mfa.MFUnConsAcq):
            def __init__(self, optimizer): self.optimizer = optimizer
            def eval(self, x, mf_surrogate, cost_ratio, fidelity): raise AssertionError
            def query(self, mf_surrogate, cost_ratio, fmin):
                return best(mf_surrogate.predict), int(np.random.rand() < 0.5)
    return A(None)


def whole_run(case, pre, log=None):
    log = [] if log is None else log
    prob = bo.make_problem(case, log)
    acq = random_acq(case) if case["real"] == "random" else bo.real_acq(case)
    np.random.seed(pre)
    np.random.rand(pre % 7)
    args = dict(problem=prob, acquisition=acq, seed=case["seed"], verbose=False)
    kind = case["kind"]
    if kind == "mf":
        args.update(num_init=[case["n"], case["nl"]], surrogate_name=case["surrogate"])
    else:
        args["num_init"] = case["n"]
    with quiet():
        b = {"uncons": bo.BayesUnConsOpt, "cons": bo.BayesConsOpt, "mf": bo.mfUnConsBayesOpt}[kind](**args)
        for k in case["runs"]:
            b.run_optimizer(max_iter=k, stopping_error=0.0)
    return b, log


def law_repeat(case, rec):
    out = []
    for pre in (case["pre"], case["pre2"]):
        log = []
        try:
            b, log = whole_run(case, pre, log)
        except np.linalg.LinAlgError:
            raise Inconclusive()
        except Exception:
            if bo.degenerate(case, log):    # a constant response cannot be standardised
                raise Inconclusive()
            raise
        out.append((b, log))
        if case["between"] == "random":
            np.random.rand(17)
        elif case["between"] == "other":
            try:
                whole_run(dict(case, seed=case["seed"] + 1, runs=[1], n=4), 7)
            except Exception:
                pass
    (a, la), (b, lb) = out
    check(len(la) == len(lb), "the same seed does not repeat the run: number of evaluations", first=len(la), again=len(lb))
    for i, ((w1, x1), (w2, x2)) in enumerate(zip(la, lb)):
        check(w1 == w2 and x1.shape == x2.shape and np.allclose(x1, x2, rtol=1e-9, atol=1e-12),
              "the same seed does not repeat the run", evaluation=i, first=x1[:3], again=x2[:3], which=[w1, w2])
    def design(o):
        return [x[:n] for x, n in zip(o.sample, (case["n"], case["nl"]))] if case["kind"] == "mf" else [o.sample[:case["n"]]]

    try:
        other = whole_run(dict(case, seed=case["seed"] + 1, runs=[]), case["pre"])[0]
    except Exception:                       # a constant response in the other design
        other = None
    if other is not None:
        for i, (x, y) in enumerate(zip(design(a), design(other))):
            check(not np.allclose(x, y, rtol=1e-9, atol=1e-12), "different seeds start from the same initial design", fidelity=i)
        rec.label("other seed")
    f = lambda v: np.inf if v is None else float(np.ravel(v)[0])
    check(f(a.best) == f(b.best), "the same seed does not repeat the run: best", first=f(a.best), again=f(b.best))
    rec.label(case["kind"], "user-defined random search" if case["real"] == "random" else "package acquisition", case["between"])


LAWS = [
    Law("stop", stop_cases, law_stop, 480, thorough=4000, shards=8, rule="the optimum is known and a positive stopping error is used"),
    Law("default", default_cases, law_default, 12, thorough=100, shards=2),
    Law("repeat", repeat_cases, law_repeat, 50, thorough=1000, shards=8),
]
ASSUMPTIONS = ["With an unknown optimum only stopping errors up to the default of 1 are used; its error then counts as 1.",
               "Errors within 1e-9 of the stopping error are not judged.",
               "Runs whose surrogate training fails numerically (LinAlgError) are not judged."]
