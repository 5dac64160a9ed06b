"""P05 draws depend only on seed and request."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Law, arr, check, sut
from vlib.doe import make_mf, make_sf, mf_case, sf_case, space_array


# related seeds: a period, a truncation or an offset may identify them
deltas = st.one_of(st.integers(8, 31).map(lambda i: 2 ** i), st.integers(2, 9).map(lambda i: 10 ** i),
                   st.sampled_from([100, 997, 1000, 12345, 65536, 1000003, 2**31 - 1]))


@st.composite
def history(draw):
    """Several sampler objects, a list of requests, and a script of calls."""
    samplers = []
    for _ in range(draw(st.integers(1, 3))):
        if draw(st.booleans()):
            samplers.append(["sf", draw(sf_case(kinds=("lhs", "random", "sobol")))])
        else:
            samplers.append(["mf", draw(mf_case(d_max=3, max_n=25))])
        c = samplers[-1][1]
        if len(c["draws"]) < 3 and draw(st.booleans()):     # the same request with a related seed
            req, seed = c["draws"][0]
            c["draws"].append((req, seed + draw(deltas)))
    script = draw(st.lists(st.one_of(
        st.tuples(st.just("draw"), st.integers(0, 2), st.integers(0, 3)),
        st.tuples(st.just("fresh"), st.integers(0, 2), st.integers(0, 3)),
        st.tuples(st.just("random_state"), st.integers(0, 10**6), st.just(0)),
        st.tuples(st.just("spoil"), st.integers(0, 5), st.just(0)),
        st.tuples(st.just("consume"), st.integers(1, 30), st.just(0))),
        min_size=3, max_size=14))
    return {"samplers": samplers, "script": script}


def _make(kind, case):
    return sut(make_sf, case["kind"], space_array(case), case) if kind == "sf" \
        else sut(make_mf, case)


def _draw(kind, smp, case, i, held=None):
    req, seed = case["draws"][i % len(case["draws"])]
    if kind == "sf":
        out = [sut(smp.get_samples, num_samples=req, seed=seed)]
    else:
        out = list(sut(smp.get_samples, num_samples=list(req), seed=seed))
    if held is not None:
        held.append(out)
    return [np.array(x) for x in out]


def law_history(case, rec):
    objs = [_make(k, c) for k, c in case["samplers"]]
    first, repeats, held = {}, 0, []
    for op, a, b in case["script"]:
        if op == "random_state":
            np.random.seed(a)
            continue
        if op == "consume":
            np.random.random(a)
            continue
        if op == "spoil":                   # returned arrays belong to the user
            for x in held[-1 - a % len(held)] if held else ():
                if isinstance(x, np.ndarray) and x.flags.writeable:
                    x *= -3.0
                    x += 11.0
            continue
        i = a % len(objs)
        kind, c = case["samplers"][i]
        smp = _make(kind, c) if op == "fresh" else objs[i]
        key = (i, b % len(c["draws"]))
        got = _draw(kind, smp, c, b, held)
        if key in first:
            repeats += 1
            check(len(got) == len(first[key]) and
                  all(np.array_equal(x, y) for x, y in zip(got, first[key])),
                  f"the same request with the same seed gave other samples ({kind} "
                  f"{c['kind']}, {'fresh object' if op == 'fresh' else 'same object'})",
                  request=c["draws"][key[1]])
        else:
            for (j, q), old in first.items():
                if j != i:
                    continue
                (r0, s0), (r1, s1) = c["draws"][q], c["draws"][key[1]]
                if r0 == r1 and abs(s0 - s1) > (0 if kind == "sf" else 10) and \
                        c["kind"] in ("lhs", "random"):
                    check(not any(np.array_equal(x, y) for x, y in zip(old, got)),
                          "two different seeds give the same design in one history", seeds=[s0, s1], kind=c["kind"])
                    rec.label("same request, other seed")
            first[key] = got
    rec.label(*{f"{k}/{c['kind']}" + ("/nested" if c.get("nested") else "")
                for k, c in case["samplers"]})
    rec.nontrivial(repeats >= 1)


@st.composite
def twins(draw):
    if draw(st.booleans()):
        kind, case = "sf", draw(sf_case(kinds=("lhs", "random"), draws=1))
        case["n"] = draw(st.integers(2, 40))
    else:
        kind, case = "mf", draw(mf_case(kinds=("lhs",), d_max=3, draws=1))
        case["n"] = sorted([s + 1 for s in case["draws"][0][0]])
    s1 = draw(gen.seeds)
    s2 = s1 + draw(deltas) if draw(st.booleans()) else draw(gen.seeds.filter(lambda s: s != s1))
    case["seeds"] = [s1, s2 if abs(s2 - s1) > 10 or kind == "sf" else s1 + 1000 + abs(s2 - s1)]
    return {"kind": kind, "case": case}


def law_seeds(case, rec):
    c = case["case"]
    out = []
    for s in c["seeds"]:
        out.append(_draw(case["kind"], _make(case["kind"], c),
                         dict(c, draws=[[c["n"], s]]), 0))
    for k, (a, b) in enumerate(zip(*out)):
        check(not np.array_equal(a, b), f"two different seeds give the same design (fidelity {k})",
              seeds=c["seeds"])
    rec.label(f"{case['kind']}/{c['kind']}")


LAWS = [
    Law("history", history, law_history, 1200, shards=3,
        rule="at least one request is repeated within the history"),
    Law("different_seeds", twins, law_seeds, 600, rule="every case"),
]
ASSUMPTIONS = ["Seeds are integers; seed=None asks for an irreproducible draw and is not covered.",
               "Seeds of multi-fidelity designs that are compared differ by more than the number of fidelities."]
