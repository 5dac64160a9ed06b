"""P10 problem metadata, dimension rejection, independent instances, calls."""
import numpy as np
from hypothesis import strategies as st

from vlib import problems as pr
from vlib.core import Law, arr, check, rejects, sut

costs = st.lists(st.sampled_from([0.1, 0.2, 0.25, 0.5, 1.0, 1, 2, 3.0, 4, 7, 10.0]), min_size=2, max_size=2)


def meta(p, case):
    """Consistency of one instance's metadata with the case it was built from."""
    spec, d, n = pr.BY_NAME[case["name"]], case["d"], case["name"]
    check(p.num_dim == d, f"{n}: dimension {p.num_dim!r} instead of {d}")
    check(p.num_obj == 1, f"{n}: {p.num_obj!r} objectives recorded")
    check(p.num_cons == len(spec.cons or []), f"{n}: {p.num_cons!r} constraints recorded")
    dom = arr(p.input_domain, (d, 2), f"{n}: domain")
    check(bool(np.all(dom[:, 0] < dom[:, 1])), f"{n}: bounds out of order")
    check(bool(np.allclose(dom, np.asarray(spec.domain(d), float), rtol=1e-12)),
          f"{n}: the domain is not the documented one", domain=dom)
    check(p._get_dimension == d, f"{n}: the dimension accessor disagrees")
    check(np.array_equal(np.asarray(p._input_domain), np.asarray(p.input_domain)),
          f"{n}: the domain accessor disagrees")
    if spec.record:
        check(np.array_equal(np.asarray(p._optimum, float), np.asarray(p.optimum, float)),
              f"{n}: the optimum accessor disagrees")
        check(np.array_equal(np.asarray(p._optimum_variable, float), np.asarray(p.optimum_scheme, float)),
              f"{n}: the optimum location accessor disagrees")
        check(np.atleast_2d(np.asarray(p.optimum_scheme, float)).shape[1] == d,
              f"{n}: the recorded location has another dimension")
    else:
        check(p.optimum is None and p._optimum is None, f"{n}: unexpected optimum")
    check(p._get_low_fidelity == p.low_fidelity, f"{n}: the fidelity accessor disagrees")
    ds = getattr(p, "design_space", None)
    if isinstance(ds, dict):
        check(np.array_equal(np.array(list(ds.values()), float), dom),
              f"{n}: the named design space disagrees with the domain")


@st.composite
def sessions(draw):
    """A history of constructing and using instances."""
    ops = []
    for _ in range(draw(st.integers(2, 7))):
        free = draw(st.booleans())
        case = draw(pr.pick((lambda s: s.free) if free else None))
        if pr.BY_NAME[case["name"]].cost and draw(st.booleans()):
            case["cost"] = draw(costs)
        case["u"] = draw(pr.unit_points(case["d"], 1, 3))
        ops.append(case)
    return {"ops": ops, "check": draw(st.lists(st.integers(0, 6), min_size=1, max_size=6))}


def _build(case):
    spec = pr.BY_NAME[case["name"]]
    if "cost" in case:
        return spec.cls(cost=list(case["cost"]))
    return pr.build(case)


def _values(p, case):
    spec = pr.BY_NAME[case["name"]]
    x = pr.to_domain(case["u"], spec.domain(case["d"]))
    out = [arr(sut(getattr(p, k), x.copy()), (len(x), 1), f"{case['name']}.{k}").copy()
           for k in spec.fids]
    if spec.cons:
        out.append(arr(sut(p.f_cons, x.copy()), (len(x), len(spec.cons)), "constraints").copy())
    return out


def law_instances(case, rec):
    made = []
    for c in case["ops"]:
        p = sut(_build, c)
        made.append((p, c, _values(p, c), np.array(p.optimum, float) if p.optimum is not None else None))
        for i in [len(made) - 1] + [k % len(made) for k in case["check"]]:
            q, cq, vals, opt = made[i]
            meta(q, cq)
            now = _values(q, cq)
            check(all(np.array_equal(a, b) for a, b in zip(now, vals)),
                  f"{cq['name']}: values changed after creating or using another instance")
            if opt is not None:
                check(np.array_equal(np.array(q.optimum, float), opt),
                      f"{cq['name']}: the optimum changed after creating or using another instance")
            spec = pr.BY_NAME[cq["name"]]
            if spec.cost:
                a, b = cq.get("cost", spec.cost)
                check(list(getattr(q, "cost", [a, b])) == [a, b], f"{cq['name']}: the costs {getattr(q, 'cost', None)!r} are not the given ones")
                got = getattr(q, "cr", None)
                check(got == round(a / b), f"{cq['name']}: cost ratio {got!r} instead of round({a}/{b})")
            if cq["name"] == "Ackley":
                want = {"a": 20, "b": 0.2, "c": 2 * np.pi, **cq["pars"]}
                got = sut(q.get_param)
                check(all(got[k] == v for k, v in want.items()), "Ackley parameters differ", got=got)
    names = [c["name"] for c in case["ops"]]
    twice = {n for n in names if names.count(n) > 1}
    rec.label(*set(names), "same class twice" if twice else "distinct classes")
    rec.nontrivial(any(len({(c["d"], str(c["pars"]), str(c.get("cost"))) for c in case["ops"]
                            if c["name"] == n}) > 1 for n in twice) or len(names) >= 4)


@st.composite
def wrong_dim(draw):
    case = draw(pr.pick(lambda s: not s.free))
    case["wrong"] = draw(st.integers(1, 12).filter(lambda k: k != case["d"]))
    return case


def law_dim(case, rec):
    spec = pr.BY_NAME[case["name"]]
    check(rejects(spec.cls, num_dim=case["wrong"]),
          f"{case['name']} accepts dimension {case['wrong']} although its dimension is {case['d']}")
    sut(spec.cls, num_dim=case["d"])
    rec.label(case["name"])


@st.composite
def lists(draw):
    case = draw(pr.pick(lambda s: s.hf))
    case["hf"] = draw(pr.unit_points(case["d"], 1, 5))
    case["lf"] = draw(pr.unit_points(case["d"], 1, 8))
    case["as_lists"] = draw(st.booleans())
    case["same"] = draw(st.integers(0, 4)) == 0
    if case["same"]:                        # the same design for both fidelities
        case["lf"] = case["hf"]
    return case


def law_call(case, rec):
    spec = pr.BY_NAME[case["name"]]
    p = sut(pr.build, case)
    X = [pr.to_domain(case[k], spec.domain(case["d"])) for k in ("hf", "lf")]
    arg = [x.tolist() for x in X] if case["as_lists"] else [x.copy() for x in X]
    if case["same"]:
        arg[1] = arg[0]
    out = sut(p, arg)
    check(isinstance(out, (list, tuple)) and len(out) == 2, "a call on two designs must give two responses")
    check(np.array_equal(arr(out[0], (len(X[0]), 1), "high-fidelity responses"), np.asarray(sut(p.hf, X[0]))),
          f"{case['name']}: the first response is not the high-fidelity one")
    check(np.array_equal(arr(out[1], (len(X[1]), 1), "low-fidelity responses"), np.asarray(sut(p.lf, X[1]))),
          f"{case['name']}: the second response is not the low-fidelity one")
    rec.label(case["name"], "lists" if case["as_lists"] else "arrays")


LAWS = [
    Law("instances", sessions, law_instances, 1500, shards=3,
        rule="two different instances of one class, or at least four instances"),
    Law("wrong_dimension", wrong_dim, law_dim, 400, rule="every case"),
    Law("call_on_list", lists, law_call, 800, rule="every case"),
]
ASSUMPTIONS = ["The documented domains are those in vlib/problems.py."]
