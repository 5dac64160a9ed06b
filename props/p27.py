"""P27 reported best and history of PSO and DE."""
import numpy as np
from hypothesis import strategies as st

from vlib import ea
from vlib.core import Law, arr, check, sut


@st.composite
def sessions(draw):
    first = draw(ea.run_spec(max_gen=10, max_pop=10))
    runs = [first]
    for _ in range(draw(st.integers(0, 2))):   # the same object, another problem
        other = draw(ea.run_spec(max_gen=10, max_pop=10))
        runs.append(dict(other, algo=first["algo"], pars=first["pars"], pop=first["pop"],
                         gen=first["gen"]))
    return {"runs": runs}


def one(opt, case):
    run = ea.Run(opt, case)
    n = len(run.calls)
    xs, ys = run.survivors(case)
    allx = np.concatenate([x for x, _ in run.calls])
    ally = run.full()
    low = float(ally.min())
    check(run.best_y == low, "the returned best is not the smallest value evaluated",
          got=run.best_y, want=low)
    at = ally[(allx == run.best_x).all(1)]
    check(at.size > 0, "the returned best point was never evaluated", x=run.best_x)
    check(low in at, "the returned best point does not have the returned best value",
          at=at[:4], best=low)
    res = run.results
    ry = arr(res["best_y"], what="record best_y", finite=False).ravel()
    rx = arr(res["best_x"], what="record best_x").ravel()
    check(ry.size == 1 and ry[0] == low and np.array_equal(rx, run.best_x),
          "the result record reports another best than the returned one",
          record=[rx, ry], returned=[run.best_x, run.best_y])
    hy = arr(res["best_y_historical"], what="best history", finite=False).ravel()
    hx = arr(res["best_x_historical"], what="best point history").reshape(len(hy), case["d"])
    check(len(hy) >= n, "the history is shorter than the run")
    X = arr(res["all_samples"], what="recorded samples")
    Y = arr(res["all_responses"], what="recorded responses", finite=False)
    sofar = np.inf
    for g in range(n):
        sofar = min(sofar, run.calls[g][1].min())
        check(hy[g] == sofar, f"history entry {g} is not the best value so far",
              got=float(hy[g]), want=float(sofar))
        pts = np.concatenate([x for x, _ in run.calls[:g + 1]])
        val = np.concatenate([y for _, y in run.calls[:g + 1]])
        v = val[(pts == hx[g]).all(1)]
        check(sofar in v, f"history point {g} does not have the history value", x=hx[g])
        check(np.array_equal(X[g], xs[g]), f"recorded population {g} is not the one of the run")
        check(np.array_equal(Y[g].ravel(), ys[g]), f"recorded responses {g} are not those of the run")
    check(np.array_equal(np.asarray(res["design_space"]), run.space),
          "the record holds another design space")
    return run


def snapshot(run):
    """Copies of what a run has returned."""
    out = {k: np.array(v, float) for k, v in zip(("best value", "best point"), run.raw[1:])}
    for k, v in run.results.items():
        if isinstance(v, (np.ndarray, float, list)):
            out[k] = np.array(v, float)
    return out


def law_report(case, rec):
    opt = sut(ea.make, case["runs"][0])
    early, past = 0, []
    for c in case["runs"]:
        run = one(opt, c)
        early += len(run.calls) < c["gen"] + 1
        past.append((run, snapshot(run)))
    for run, was in past:                   # the answers belong to the user
        for k, v in snapshot(run).items():
            check(np.array_equal(v, was[k]), f"a later run changes the answer of an earlier one ({k})",
                  was=np.ravel(was[k])[:5], now=np.ravel(v)[:5])
    c = case["runs"][0]
    rec.label(c["algo"], "stopped early" if early else "full runs",
              "reused" if len(case["runs"]) > 1 else "single run",
              *{r["obj"]["kind"] for r in case["runs"]}, *{r["out"] for r in case["runs"]})
    rec.nontrivial(c["pop"] >= 2 and len(run.calls) >= 3)


LAWS = [Law("report", sessions, law_report, 1200, shards=4,
            rule="at least two individuals and two generations")]
ASSUMPTIONS = ["History entries after an early stop carry no promise.",
               "A new individual of differential evolution replaces its parent only when strictly better."]
