"""P04 nested designs: subsets, sizes, no repeats; non-monotone sizes rejected."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Law, arr, check, rejects, sut
from vlib.doe import make_mf, mf_case


@st.composite
def nested(draw):
    case = draw(mf_case(nested=True, max_n=60))
    if case["nf"] == 1:
        case["nf"] = 2
        case["draws"] = [[[max(1, s[0] // 2), s[0]], seed] for s, seed in case["draws"]]
    return case


def rows(x):
    return {tuple(r) for r in np.asarray(x).tolist()}


def law_nested(case, rec):
    smp = sut(make_mf, case)
    for sizes, seed in case["draws"]:
        data = sut(smp.get_samples, num_samples=list(sizes), seed=seed)
        check(len(data) == len(sizes), "one array per fidelity expected")
        xs = [arr(data[k], (n, case["d"]), f"fidelity {k}") for k, n in enumerate(sizes)]
        for k, x in enumerate(xs):
            check(len(rows(x)) == sizes[k], f"fidelity {k} uses a point twice",
                  sizes=sizes)
            for j in range(k):
                extra = rows(xs[j]) - rows(x)
                check(not extra, f"{len(extra)} points of fidelity {j} are not points "
                                 f"of fidelity {k}", sizes=sizes)
    rec.label(case["kind"], f"fidelities={case['nf']}", f"d={case['d']}")
    rec.nontrivial(any(s[0] >= 2 and s[0] < s[-1] for s, _ in case["draws"]))


@st.composite
def bad(draw):
    case = draw(mf_case(draws=1))
    nf = max(2, case["nf"])
    case["nf"] = nf
    if not case["shared"] and len(case["spaces"]) < nf:
        case["spaces"] = [case["spaces"][0]] * nf
    good = draw(st.lists(st.integers(1, 20), min_size=nf, max_size=nf).map(sorted))
    i = draw(st.integers(0, nf - 2))
    sizes = list(good)
    sizes[i] = sizes[i + 1] + draw(st.integers(1, 10))
    case["good"], case["bad"] = good, sizes
    case["prior"] = draw(st.booleans())
    case["seed"] = draw(gen.seeds)
    return case


def law_rejects(case, rec):
    smp = sut(make_mf, case)
    before = None
    if case["prior"]:
        before = [np.array(x) for x in
                  sut(smp.get_samples, num_samples=list(case["good"]), seed=case["seed"])]
    check(rejects(smp.get_samples, num_samples=list(case["bad"]), seed=case["seed"] + 1),
          "a request with more high- than low-fidelity samples is accepted",
          sizes=case["bad"])
    if before is not None:
        check(len(smp.data) == len(before) and
              all(np.array_equal(a, b) for a, b in zip(smp.data, before)),
              "a rejected request changed the kept design")
    rec.label(case["kind"], f"fidelities={case['nf']}",
              "with prior design" if case["prior"] else "fresh")


LAWS = [
    Law("nested", nested, law_nested, 1500, shards=2,
        rule="the highest fidelity has at least two points and fewer than the lowest"),
    Law("rejects_non_monotone", bad, law_rejects, 800, rule="every case"),
]
ASSUMPTIONS = ["Sizes are listed from the highest to the lowest fidelity, as the API documents."]
