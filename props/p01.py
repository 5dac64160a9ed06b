"""P01 samples have the requested shape and lie inside the design space."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Law, arr, check, sut
from vlib.doe import (make_sf, make_mf, mf_case, sf_case, space_of,
                      inside, space_array)


def law_sf(case, rec):
    dom = space_array(case)
    smp = sut(make_sf, case["kind"], dom, case)
    d = len(case["space"])
    for n, seed in case["draws"]:
        x = sut(smp.get_samples, num_samples=n, seed=seed)
        if case["kind"] == "fix":
            x = arr(x, (n, 2 * d), "fixed samples")
            want = np.tile(np.asarray(case["space"], float).ravel(), (n, 1))
            check(np.array_equal(x, want), "fixed samples are not the design space")
        else:
            x = arr(x, (n, d), "samples")
            inside(x, case["space"], "samples")
        kept = arr(smp.samples, x.shape, "kept samples")
        check(np.array_equal(kept, x), "kept samples differ from the returned ones")
    rec.label(case["kind"], f"d={d}", case["form"])
    rec.nontrivial(max(n for n, _ in case["draws"]) >= 2)


def law_mf(case, rec):
    smp = sut(make_mf, case)
    d = case["d"]
    for sizes, seed in case["draws"]:
        data = sut(smp.get_samples, num_samples=list(sizes), seed=seed)
        check(isinstance(data, (list, tuple)) and len(data) == len(sizes),
              "one array per fidelity expected",
              got=type(data).__name__)
        for k, n in enumerate(sizes):
            x = arr(data[k], (n, d), f"samples of fidelity {k}")
            inside(x, space_of(case, k), f"samples of fidelity {k}")
        check(len(smp.data) == len(sizes), "kept data has another number of fidelities")
        for k in range(len(sizes)):
            kept = arr(smp.data[k], np.shape(data[k]), "kept data")
            check(np.array_equal(kept, np.asarray(data[k])),
                  "kept data differ from the returned ones")
    rec.label(case["kind"], f"fidelities={case['nf']}", f"d={d}",
              "shared" if case["shared"] else "own-space",
              "nested" if case["nested"] else "independent")
    rec.nontrivial(any(s[-1] >= 2 for s, _ in case["draws"]))


narrow = st.builds(lambda a, w, e: [a * e, a * e + w * e * 1e-9], st.integers(-9, 9).filter(bool),
                   st.integers(1, 9), st.sampled_from([1e-150, 1.0, 123.456, 1e7, 1e150]))


@st.composite
def narrow_cases(draw):
    """Intervals that are narrow compared to where they lie."""
    if draw(st.booleans()):
        case = draw(sf_case())
        case["space"] = [draw(narrow) if draw(st.booleans()) else b for b in case["space"]]
        case["space"][-1] = draw(narrow)
    else:
        case = draw(mf_case(max_n=30))
        case["spaces"] = [[draw(narrow) if draw(st.booleans()) else b for b in s] for s in case["spaces"]]
        case["spaces"][0][0] = draw(narrow)
    return case


def law_narrow(case, rec):
    (law_mf if "spaces" in case else law_sf)(case, rec)


LAWS = [
    Law("narrow_spaces", narrow_cases, law_narrow, 600, rule="at least two points are drawn"),
    Law("single_fidelity", sf_case, law_sf, 1500,
        rule="at least two points are drawn", shards=2),
    Law("multi_fidelity", mf_case, law_mf, 1500,
        rule="the lowest fidelity has at least two points", shards=2),
]
ASSUMPTIONS = ["Design spaces have lower < upper in every dimension; a nested design is requested only when all fidelities share one design space.",
               "Sobol draws of points whose count is not a power of two are allowed (scipy only warns)."]
