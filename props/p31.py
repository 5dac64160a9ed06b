"""P31 constrained Bayesian optimization."""
import numpy as np

from props.p29 import play, runs
from vlib.core import Law


def law_ledger(case, rec):
    ses = play(case, rec)
    ok = ses.feasible()
    n = case["n"]
    start, end = bool(ok[:n].any()), bool(ok.any())
    rec.label(f"constraints={len(case['cons'])}",
              "feasible from the start" if start else "found a feasible point" if end else "never feasible")
    y = ses.y().ravel()
    if end and np.any((y <= y[ok].min()) & ~ok):
        rec.label("an infeasible point is as good or better")
    if end and np.sum(y[ok] == y[ok].min()) > 1:
        rec.label("several best points")


LAWS = [Law("ledger", lambda: runs("cons"), law_ledger, 150, thorough=4000, shards=8, rule="at least one iteration was performed")]
ASSUMPTIONS = ["Problems and acquisitions are user-defined classes derived from the package's base classes; runs whose surrogate training fails numerically (LinAlgError) are not judged.",
               "Problems with a constant objective or constraint over the initial design are not judged (they cannot be standardised)."]
