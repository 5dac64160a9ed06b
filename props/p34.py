"""P34 the multi-fidelity data container mirrors its data."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Law, check, rejects, sut

from mfpml.core.data import mfArray


@st.composite
def data(draw):
    return {"sizes": draw(st.lists(st.integers(0, 6), min_size=1, max_size=6)),
            "d": draw(st.integers(0, 3)), "holes": draw(st.sampled_from([False] * 3 + [True])), "tag": draw(st.integers(0, 9))}


@st.composite
def cases(draw):
    op = st.one_of(st.fixed_dictionaries({"op": st.just("replace"), "data": data()}),
                   st.fixed_dictionaries({"op": st.just("append"), "data": data()}),
                   st.just({"op": "read"}))
    return {"first": draw(st.one_of(st.none(), data())), "second": draw(data()),
            "ops": draw(st.lists(op, min_size=1, max_size=8)), "twin": draw(data())}


def build(spec):
    out = []
    for i, n in enumerate(spec["sizes"]):
        shape = (n,) if spec["d"] == 0 else (n, spec["d"])
        x = (1000.0 * spec["tag"] + 100.0 * i + np.arange(np.prod(shape, dtype=int), dtype=float).reshape(shape))
        if spec["holes"] and x.size:        # missing and unbounded values are data as well
            x.flat[spec["tag"] % x.size] = [np.nan, np.inf, -np.inf][spec["tag"] % 3]
        out.append(x)
    return out


def mirror(m, want):
    """The container against a plain list."""
    k = len(want)
    check(sut(lambda: m.n_levels) == k, "wrong number of fidelities", got=m.n_levels, want=k)
    size = sut(lambda: m.size)
    check(list(size) == [len(a) for a in want], "wrong sizes", got=list(size), want=[len(a) for a in want])
    check(np.array_equal(sut(lambda: m.hf), want[0], equal_nan=True) and np.shape(m.hf) == np.shape(want[0]),
          "hf is not the first fidelity", got=m.hf, want=want[0])
    for i in list(range(k)) + list(range(-k, 0)):
        got = sut(lambda: m[i])
        check(np.shape(got) == np.shape(want[i]) and np.array_equal(got, want[i], equal_nan=True), f"index {i} returns other data",
              got=got, want=want[i])
    for i in (k, -k - 1):
        check(rejects(lambda: m[i]), f"index {i} of {k} fidelities is accepted")
    part = sut(lambda: m[0:k])
    check(len(part) == k and all(np.array_equal(a, b, equal_nan=True) for a, b in zip(part, want)), "a slice returns other data")


def law(case, rec):
    twin_data = build(case["twin"])
    twin = sut(mfArray, list(twin_data))
    if case["first"] is None:
        m = sut(mfArray)
        model = build(case["second"])
        sut(m, list(model))
    else:
        model = build(case["first"])
        m = sut(mfArray, list(model))
    mirror(m, model)
    for op in case["ops"]:
        if op["op"] == "replace":
            model = build(op["data"])
            given = list(model)
            sut(m, given)
            check(len(given) == len(model) and all(a is b for a, b in zip(given, model)), "replacing changes the list given")
        elif op["op"] == "append":          # one more sample of the last fidelity
            model = [*model[:-1], np.concatenate([model[-1], model[-1][:1]])]
            sut(m, list(model))
        mirror(m, model)
        mirror(twin, twin_data)
    rec.label(*[op["op"] for op in case["ops"]], f"{len(model)} fidelities")
    rec.nontrivial(any(op["op"] != "read" for op in case["ops"]) and len(model) > 1)


LAWS = [Law("mirror", cases, law, 1500, thorough=60000, shards=2,
            rule="at least one replacement and several fidelities at the end")]
ASSUMPTIONS = []
