"""P20 retraining forgets the past."""
import numpy as np
from hypothesis import strategies as st

from vlib import models as md
from vlib.core import Inconclusive, Law, arr, check, quiet, sut

from mfpml.optimization.evolutionary_algorithms import DE, PSO


@st.composite
def variant(draw):
    """How the data of one training derive from those of the case."""
    return {"drop": draw(st.integers(0, 3)), "drop_l": draw(st.integers(0, 3)),
            "scale": draw(st.sampled_from([1.0, 1.0, -2.0, 0.01, 50.0])),
            "shift": draw(st.sampled_from([0.0, 0.0, 5.0, -400.0])),
            "roll": draw(st.integers(0, 3)), "roll_l": draw(st.integers(0, 3)),
            "seed": draw(st.integers(0, 99)), "predict": draw(st.booleans()),
            "in_place": draw(st.booleans())}


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["gp", "hk", "sk", "sk", "ck"]))
    case = draw(md.gp_case(n_max=9, d_max=2)) if kind == "gp" else \
        draw(md.mf_case(kinds=(kind,), nl_max=8, nh_max=6))
    case["model"] = kind
    if kind == "gp":
        case["bounds"] = None
    case["noise"] = draw(st.sampled_from([["est", 0.05], ["est", 0.4], ["free", 0.0], ["known", 0.1]]))
    case["optimizer"] = draw(st.sampled_from(["stub", "stub", "builtin", "de", "pso"]))
    if kind == "sk":
        case["rho_opt"] = draw(st.sampled_from([None, "error", "bumpiness", "user"]))
    case["v"] = draw(st.lists(variant(), min_size=2, max_size=4))
    case["q"] = draw(md.queries(case["d"], 3, 6))
    return case


def data(case, v):
    if case["model"] == "gp":
        X, Y = md.gp_arrays(case)
        p = {"ordinary": 1, "linear": case["d"] + 1, "quadratic": (case["d"] + 1) * (case["d"] + 2) // 2}[case["regr"]]
        n = max(p + 2, len(X) - v["drop"])
        D = [X[:n], np.roll(Y, v["roll"], 0)[:n]]
    else:
        Xh, Yh, Xl, Yl = md.mf_arrays(case)
        n, nl = max(3, len(Xh) - v["drop"]), max(4, len(Xl) - v["drop_l"])
        D = [Xh[:n], np.roll(Yh, v["roll"], 0)[:n], Xl[:nl], np.roll(Yl, v["roll_l"], 0)[:nl]]
    D = [x.copy() if i % 2 == 0 else v["scale"] * (x + v["shift"]) for i, x in enumerate(D)]
    unit = abs(v["scale"]) * case["y" if case["model"] == "gp" else "yl"]["scale"]
    if any(np.std(y) < 1e-3 * unit for y in D[1::2]):
        raise Inconclusive()
    return D


def optimizer(case):
    kind = case["optimizer"]
    if kind == "stub":
        return md.Stub([md.stub_params(case)]) if case["model"] == "gp" else md.mf_stub(case)
    return {"builtin": None, "de": DE(num_pop=5, num_gen=3), "pso": PSO(num_pop=4, num_gen=3)}[kind]


def build(case):
    with quiet():
        if case["model"] == "gp":
            return md.build_gp(case, optimizer(case), 1.0, optimizer_restart=1)
        kw = {}
        if case.get("rho_opt"):
            kw = dict(rho_optimize=True, rho_method="bumpiness" if case["rho_opt"] == "bumpiness" else "error")
            if case["rho_opt"] == "user":
                kw["rho_optimizer"] = md.Stub([[0.6]])
            if case["rho_opt"] == "bumpiness":
                # a cheap search, the discrepancy model is trained in it
                kw["rho_optimizer"] = md.Stub([[1.7]], probes=lambda b: np.array([[0.3], [1.1]]))
        return md.build_mf(case, optimizer(case), 1.0, optimizer_restart=1, **kw)


def train(m, case, D):
    """False when the training fails numerically."""
    try:
        with quiet():
            if case["model"] == "gp":
                m.train(D[0], D[1])
            else:
                m.train([D[0], D[2]], [D[1], D[3]])
    except np.linalg.LinAlgError:
        return False
    return True


def look(m, case, Q, X):
    """Everything the property names."""
    Z = np.vstack([Q, X[:2]])
    out = {}
    for name in ("predict", "predict_lf"):
        if hasattr(m, name):
            o = sut(getattr(m, name), Z.copy(), return_std=True)
            out[name + " mean"] = arr(o[0], (len(Z), 1), name, finite=False)
            out[name + " std"] = arr(o[1], (len(Z), 1), name + " std", finite=False)
            out[name + " mean alone"] = arr(sut(getattr(m, name), Z.copy()), (len(Z), 1), name, finite=False)
    out["noise"] = np.ravel(m.noise).astype(float)
    if case["model"] in ("sk", "ck"):
        out["scale factor"] = np.ravel(m.rho).astype(float)
    if case["model"] != "gp":
        out["correlation"] = np.array(m._eval_corr(Q, X[:2], 0), float)
        out["low-fidelity correlation"] = np.array(m._eval_corr(Q, X[:2], 1), float)
    return out


def law_fresh(case, rec):
    Q = md.points_of(case, case["q"])
    old = build(case)
    held = None
    for k, v in enumerate(case["v"]):
        D = data(case, v)
        use = [x.copy() for x in D]
        if v["in_place"] and held is not None and [h.shape for h in held] == [x.shape for x in D]:
            for h, x in zip(held, D):       # the caller overwrites its arrays
                h[...] = x
            use = held
            rec.label("same array objects")
        held = use
        if case["optimizer"] == "stub" and isinstance(old_opt(old), md.Stub):
            old_opt(old).calls.clear()
        np.random.seed(v["seed"])
        ok = train(old, case, use)
        new = build(case)
        np.random.seed(v["seed"])
        ok2 = train(new, case, [x.copy() for x in D])
        check(ok == ok2, f"{case['model']} trained {k + 1} times fails differently from a fresh one",
              retrained=ok, fresh=ok2)
        if not ok:
            continue
        a, b = look(old, case, Q, D[0]), look(new, case, Q, D[0])
        s = float(D[1].std())
        for name in a:
            sc = 0.0 if name in ("scale factor", "correlation") else s
            same = np.isclose(a[name], b[name], rtol=1e-7, atol=1e-8 * sc + 1e-13, equal_nan=True)
            check(bool(same.all()), f"{case['model']} trained {k + 1} times differs from a fresh one: {name}",
                  retrained=a[name].ravel()[:5], fresh=b[name].ravel()[:5])
        if v["predict"]:
            look(old, case, Q, D[0])
    rec.label(case["model"], case["optimizer"], case["noise"][0], str(case.get("rho_opt", "-")))


def old_opt(m):
    return getattr(m, "optimizer", None) or getattr(m.lfGP, "optimizer", None)


@st.composite
def update_cases(draw):
    case = draw(md.mf_case(kinds=("ck",), nl_max=9, nh_max=5))
    case["noise"] = draw(st.sampled_from([["est", 0.05], ["est", 0.4], ["free", 0.0], ["known", 0.1]]))
    case["new"] = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))
    case["q"] = draw(md.queries(case["d"], 3, 6))
    return case


def law_update(case, rec):
    """Adding samples to a trained low-fidelity model equals training on all."""
    Xh, Yh, Xl, Yl = md.mf_arrays(case)
    ends = [len(Xl)]
    for k in reversed(case["new"]):
        ends.insert(0, ends[0] - k)
    if ends[0] < 3 or Yl[:ends[0]].std() < 1e-3 * Yl.std():
        raise Inconclusive()
    s = float(Yh.std())
    a, b = (sut(md.build_mf, case, md.mf_stub(case), s) for _ in range(2))
    if not train(a, case, [Xh, Yh, Xl[:ends[0]], Yl[:ends[0]]]) or not train(b, case, [Xh, Yh, Xl, Yl]):
        raise Inconclusive()
    for i, j in zip(ends, ends[1:]):
        x, y = a.normalize_input(Xl[i:j]), (Yl[i:j] - np.mean(Yh)) / np.std(Yh)
        a.optimizer.calls.clear()
        try:
            with quiet():
                a.lfGP.update_model(x, y)
        except np.linalg.LinAlgError:
            raise Inconclusive()
    Q = np.vstack([md.points_of(case, case["q"]), Xl[-1:], Xl[:1]])
    for n, p, q in zip(("mean", "std"), sut(a.predict_lf, Q.copy(), return_std=True),
                       sut(b.predict_lf, Q.copy(), return_std=True)):
        check(bool(np.allclose(p, q, rtol=1e-7, atol=1e-8 * s + 1e-13)),
              f"the low-fidelity model updated with new samples differs from one trained on all of them: {n}",
              updated=np.ravel(p)[:5], fresh=np.ravel(q)[:5])
    rec.label(case["noise"][0], f"{len(case['new'])} updates")


LAWS = [Law("update", update_cases, law_update, 300, thorough=4000, shards=2),
        Law("fresh", cases, law_fresh, 900, thorough=12000, shards=8)]
ASSUMPTIONS = ["Trainings that fail numerically (LinAlgError) are not judged.",
               "Both models are trained in the same state of the global random generator."]
