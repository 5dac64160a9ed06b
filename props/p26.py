"""P26 what PSO and DE hand to the objective."""
import numpy as np
from hypothesis import strategies as st

from vlib import ea, gen
from vlib.core import Law, arr, check, rejects, sut
from vlib.doe import inside


@st.composite
def runs(draw):
    case = draw(ea.run_spec(max_gen=12, max_pop=14, d_max=5))
    case["args"] = draw(st.one_of(st.none(), st.lists(st.integers(-3, 3), max_size=3)))
    case["n_runs"] = draw(st.integers(1, 2))
    if draw(gen.rare(8)):                   # narrow compared to where it lies
        case["space"] = [[b[0] * 1e4 + 1e5, b[0] * 1e4 + 1e5 + (b[1] - b[0]) / 100] for b in
                         draw(gen.space_d(case["d"], ("int", "unit")))]
    return case


@st.composite
def long_runs(draw):
    """Many generations of a small population, often without improvement."""
    case = draw(runs())
    case.update(pop=draw(st.integers(3, 7)), gen=draw(st.integers(20, 150)), n_runs=1)
    case["obj"]["kind"] = draw(st.sampled_from(["const", "const", "steps", "cliff", "sphere", "linear"]))
    if draw(st.integers(0, 3)):
        case["stop"] = None
    return case


def law_calls(case, rec):
    opt = sut(ea.make, case)
    args = None if case["args"] is None else tuple(case["args"])
    early = False
    for r in range(case["n_runs"]):
        run = ea.Run(opt, case, args=args, seed=case["seed"] + r)
        for g, (x, y) in enumerate(run.calls):
            arr(x, (case["pop"], case["d"]), f"population {g}")
            inside(x, run.space, f"population {g}")
        for a, k in run.extra:
            check(list(a) == list(args or ()) and not k,
                  "the objective did not get its extra arguments", got=a, want=args)
        best = np.minimum.accumulate([y.min() for _, y in run.calls])
        n = len(run.calls)
        if run.stop is None:
            check(n == case["gen"] + 1, f"{n} calls of the objective instead of one per "
                                        f"generation and one for the initial population",
                  generations=case["gen"])
        else:
            check(n <= case["gen"] + 1, "more calls than generations")
            # the run ends after the first generation whose best is below the error
            hit = [g for g in range(1, n) if best[g] < run.stop]
            if n < case["gen"] + 1:
                check(bool(hit), "the run stopped early without reaching the stopping error",
                      best=float(best[-1]), stop=run.stop)
            check(not hit or hit[0] == n - 1, "the objective is evaluated after the run should have stopped",
                  generation=hit[:1], calls=n)
            early |= n < case["gen"] + 1
    rec.label(case["algo"], case["obj"]["kind"], "stopped early" if early else "full run",
              "extra args" if args else "no args")
    rec.nontrivial(len(run.calls) >= 3 and case["pop"] >= 2)


LAWS = [Law("calls", runs, law_calls, 1500, shards=4,
            rule="at least two generations with at least two individuals"),
        Law("long runs", long_runs, law_calls, 150, shards=3, rule="at least twenty generations")]
ASSUMPTIONS = ["At least one generation; at least three individuals for differential evolution.",
               "The stopping error is compared strictly with the best value after each generation."]
