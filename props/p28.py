"""P28 reproducibility and invariances of PSO and DE."""
import numpy as np
from hypothesis import strategies as st

from vlib import ea
from vlib.core import Law, check, sut


def _equal(a, b, what):
    check(len(a.calls) == len(b.calls), f"{what}: the runs have different lengths",
          lengths=[len(a.calls), len(b.calls)])
    for g, ((x1, _), (x2, _)) in enumerate(zip(a.calls, b.calls)):
        check(np.array_equal(x1, x2), f"{what}: population {g} differs")
    check(np.array_equal(a.best_x, b.best_x), f"{what}: another best point is reported")


@st.composite
def repeats(draw):
    case = draw(ea.run_spec())
    other = draw(ea.run_spec())
    case["other"] = dict(other, algo=case["algo"], pop=case["pop"], gen=case["gen"], pars=case["pars"])
    case["before"] = draw(st.booleans())
    return case


def law_repeat(case, rec):
    opt = sut(ea.make, case)
    if case["before"]:
        ea.Run(opt, case["other"])
    a = ea.Run(opt, case)
    ea.Run(opt, case["other"])
    b = ea.Run(opt, case)
    _equal(a, b, "same object, same random state")
    check(a.best_y == b.best_y, "repeating the run changes the best value")
    c = ea.Run(sut(ea.make, case), case)
    _equal(a, c, "fresh object, same random state")
    for k in ("best_y_historical", "all_samples", "all_responses"):
        check(np.array_equal(np.asarray(a.results[k]), np.asarray(c.results[k])) or
              len(a.calls) < case["gen"] + 1, f"record {k} depends on earlier runs")
    rec.label(case["algo"], "used before" if case["before"] else "fresh first")
    rec.nontrivial(len(a.calls) >= 3 and case["pop"] >= 2)


@st.composite
def monotone(draw):
    case = draw(ea.run_spec(stop=False, max_gen=12))
    case["how"] = draw(st.sampled_from(["rank", "double", "half", "negexp"]))
    return case


def law_monotone(case, rec):
    a = ea.Run(sut(ea.make, case), case)
    if case["how"] in ("rank", "negexp"):
        # strictly increasing on the values that occur: their rank
        levels = np.unique(a.full())

        def tr(y):
            r = np.searchsorted(levels, y).astype(float)
            return r if case["how"] == "rank" else -np.exp(-r / 64.0)
    else:
        k = 2.0 if case["how"] == "double" else 0.5
        tr = lambda y: y * k
    b = ea.Run(sut(ea.make, case), case, transform=tr)
    _equal(a, b, "order-preserving change of the objective")
    rec.label(case["algo"], case["how"], case["obj"]["kind"])
    rec.nontrivial(len(np.unique(a.full())) >= 3 and len(a.calls) >= 3)


@st.composite
def units(draw):
    case = draw(ea.run_spec(max_gen=12))
    case["pow"] = draw(st.integers(-8, 8).filter(lambda i: i))
    return case


def law_units(case, rec):
    k = 2.0 ** case["pow"]
    a = ea.Run(sut(ea.make, case), case)
    b = ea.Run(sut(ea.make, case), case, scale=k)
    check(len(a.calls) == len(b.calls), "a change of units changes the length of the run")
    for g in range(len(a.calls)):
        check(np.array_equal(a.calls[g][0] * k, b.calls[g][0]),
              f"a change of units changes population {g}")
    check(np.array_equal(a.best_x * k, b.best_x) and a.best_y == b.best_y,
          "a change of units changes the reported best")
    rec.label(case["algo"])
    rec.nontrivial(len(a.calls) >= 3)


def never_worse():
    return ea.run_spec(stop=True, max_gen=12).filter(lambda c: c["algo"] != "pso")


def law_never_worse(case, rec):
    run = ea.Run(sut(ea.make, case), case)
    X, Y = np.asarray(run.results["all_samples"]), np.asarray(run.results["all_responses"])
    moved = 0
    for g in range(1, len(run.calls)):
        bad = np.flatnonzero(Y[g].ravel() > Y[g - 1].ravel())
        check(bad.size == 0, f"individual {bad[:1]} got worse in generation {g}")
        change = (X[g] != X[g - 1]).any(1)
        moved += int(change.sum())
        check(bool(np.all(Y[g].ravel()[change] < Y[g - 1].ravel()[change])),
              "an individual was replaced by one that is not better")
        check(np.array_equal(Y[g].ravel()[~change], Y[g - 1].ravel()[~change]),
              "the response of an unchanged individual changed")
    rec.label(case["algo"], case["obj"]["kind"])
    rec.nontrivial(moved >= 2)


@st.composite
def fly(draw):
    case = draw(ea.run_spec(stop=False, max_gen=12))
    case["algo"] = "pso"
    case["pars"] = {"weight": draw(st.sampled_from([0.5, 0.8, 1.0, 2.0])),
                    "cognition_rate": draw(st.sampled_from([0.0, 0.5, 1.5, 3.0])),
                    "social_rate": draw(st.sampled_from([0.0, 0.5, 1.5, 3.0])),
                    "max_velocity_rate": draw(st.sampled_from([0.01, 0.05, 0.1, 0.2]))}
    return case


def law_velocity(case, rec):
    """A coordinate moves at most its velocity limit per generation, unless the
    particle left the space there and was sent back into it: possible only from
    within one velocity limit of the boundary."""
    run = ea.Run(sut(ea.make, case), case)
    lo, hi = run.space[:, 0], run.space[:, 1]
    w = hi - lo
    vmax = case["pars"]["max_velocity_rate"] * w
    slack = 1e-9 * (w + np.maximum(abs(lo), abs(hi)))
    far = 0
    for g in range(1, len(run.calls)):
        x0, x1 = run.calls[g - 1][0], run.calls[g][0]
        step = np.abs(x1 - x0)
        near = (x0 - lo < vmax + slack) | (hi - x0 < vmax + slack)
        bad = (step > vmax + slack) & ~near
        if bad.any():
            i, k = np.argwhere(bad)[0]
            check(False, f"particle {int(i)} moved {step[i, k] / w[k]:.3g} of the range in dimension "
                         f"{int(k)} in one generation", limit=case["pars"]["max_velocity_rate"])
        far += int((step > 0.5 * vmax).sum())
    rec.label(case["obj"]["kind"], f"rate={case['pars']['max_velocity_rate']}")
    rec.nontrivial(far >= 1)


LAWS = [
    Law("repeat", repeats, law_repeat, 500, shards=2, rule="at least two individuals and two generations"),
    Law("objective_order", monotone, law_monotone, 500, shards=2,
        rule="at least three distinct objective values and two generations"),
    Law("units", units, law_units, 500, rule="at least two generations"),
    Law("de_never_worse", never_worse, law_never_worse, 500, rule="at least two replacements happen"),
    Law("pso_velocity", fly, law_velocity, 500, rule="some coordinate moves more than half its limit"),
]
ASSUMPTIONS = ["Changes of units of the design space are scalings by powers of two (exact in floating point).",
               "Order-preserving transformations are exact on the values that occur (ranks, doubling, halving, negative exponentials of ranks)."]
