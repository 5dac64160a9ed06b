"""P29 the ledger of single-fidelity Bayesian optimization."""
from hypothesis import strategies as st

from vlib import bo, gen
from vlib.core import Law, check
from props.p02 import stratified


@st.composite
def runs(draw, kind):
    case = draw(bo.bo_case(kind))
    case["runs"] = draw(st.lists(st.sampled_from([1, 2, 3, 3, 0]), min_size=1, max_size=3))
    if draw(gen.rare(15)):
        case["runs"] = [draw(st.integers(5, 9))]
    case["stop"] = draw(st.sampled_from([0.0, 0.0, 0.01, 1.0, None]))
    return case


@st.composite
def large(draw, kind):
    """Designs of many samples."""
    case = draw(bo.bo_case(kind, large=True))
    case.update(real=None, thin=True, optimum=None, stop=0.0)
    case["runs"] = draw(st.sampled_from([[3], [1, 2], [4], [2, 2]]))
    return case


def play(case, rec):
    """Construct and run several times; the ledger is compared at every query
    and after every run."""
    ses = bo.Session(case)
    ses.ledger("after construction")
    for i, k in enumerate(case["runs"]):
        before, cost = ses.iterations, case.get("cost", 1.0)
        ses.run(k, case["stop"], cost[i % len(cost)] if isinstance(cost, list) else cost)
        ses.ledger("after a run")
        check(ses.iterations - before <= k, "more iterations than allowed", got=ses.iterations - before, allowed=k)
    rec.label(case["kind"], "given acquisition" if case["real"] is None else "package acquisition",
              f"runs={len(case['runs'])}", f"iterations={min(ses.iterations, 5)}")
    rec.nontrivial(ses.iterations >= 1)
    return ses


def law_ledger(case, rec):
    ses = play(case, rec)
    stratified(ses.X[0][:case["n"]], ses.space, "initial design")
    h = ses.hist
    if any(b < a for a, b in zip(h, h[1:])):
        rec.label("improved")


LAWS = [Law("ledger", lambda: runs("uncons"), law_ledger, 240, thorough=5000, shards=8,
            rule="at least one iteration was performed"),
        Law("large designs", lambda: large("uncons"), law_ledger, 40, thorough=1000, shards=8,
            rule="at least one iteration was performed")]
ASSUMPTIONS = ["Problems and acquisitions are user-defined classes derived from the package's base classes; runs whose surrogate training fails numerically (LinAlgError) are not judged.",
               "'Trained on all data' is judged by the noise-free surrogate holding as many samples and reproducing every response to 5 % of their spread."]
