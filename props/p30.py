"""P30 the ledger of multi-fidelity Bayesian optimization."""
from hypothesis import strategies as st

from props.p02 import stratified
from props.p29 import large, play, runs
from vlib.core import Law


@st.composite
def cases(draw):
    case = draw(runs("mf"))
    case["cost"] = draw(st.one_of(st.sampled_from([1.0, 5.0, 20.0, 0.5, None]),
                                  st.lists(st.sampled_from([1.0, 5.0, 20.0, 0.5, None]), min_size=3, max_size=3)))
    return case


def law_ledger(case, rec):
    ses = play(case, rec)
    for i, n in enumerate(ses.num_init):
        stratified(ses.X[i][:n], ses.space, "initial design of a fidelity")
    rec.label(case["surrogate"], "queried " + "".join(sorted({"hl"[f] for f in ses.order})))


LAWS = [Law("ledger", cases, law_ledger, 220, thorough=5000, shards=8, rule="at least one iteration was performed"),
        Law("large designs", lambda: large("mf"), law_ledger, 40, thorough=1000, shards=8,
            rule="at least one iteration was performed")]
ASSUMPTIONS = ["Problems and acquisitions are user-defined classes derived from the package's base classes; runs whose surrogate training fails numerically (LinAlgError) are not judged.",
               "'Trained on all data' is judged by the noise-free surrogate holding all samples and reproducing every response to 5 % of their spread."]
