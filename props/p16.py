"""P16 units and ordering of the data."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, models as md
from vlib.core import Inconclusive, Law, arr, check, sut

HOW = ("responses", "inputs", "points", "dimensions")


@st.composite
def cases(draw):
    if draw(st.booleans()):
        case = draw(md.gp_case(n_max=10, large=True))
        case["model"] = "gp"
    else:
        case = draw(md.mf_case(large=True))
    d = case["d"]
    case["q"] = draw(md.queries(d))
    case["how"] = draw(st.sampled_from(HOW if d > 1 else HOW[:3]))
    case["a"] = draw(st.sampled_from([-1.0, 2.0, -0.5, 0.1, 100.0, -7.0, 1.0, 1e-12, -1e12]))
    case["b"] = draw(st.sampled_from([0.0, 1.0, -30.0, 1000.0]))
    k = draw(st.sampled_from([0] * 5 + [-60, -40, 40, 60]))     # very small or large units
    case["sp2"] = [[v * 2.0 ** k for v in b] for b in draw(gen.space_d(d, md.KINDS))]
    case["p1"] = draw(st.permutations(range(case["n"] if case["model"] == "gp" else case["nh"])))
    case["p2"] = draw(st.permutations(range(case["n"] if case["model"] == "gp" else case["nl"])))
    case["pd"] = draw(st.permutations(range(d)))
    return case


def data(case):
    return md.gp_arrays(case) if case["model"] == "gp" else md.mf_arrays(case)


def train(case, D, noise_std, optimizer=None, **kw):
    """A model of the case on the data D (noise_std: the unit of its noise)."""
    if case["model"] == "gp":
        m = sut(md.build_gp, case, optimizer or md.Stub([md.stub_params(case)]), noise_std, **kw)
        call = lambda: m.train(D[0].copy(), D[1].copy())
    else:
        m = sut(md.build_mf, case, optimizer or md.mf_stub(case), noise_std, **kw)
        call = lambda: m.train([D[0].copy(), D[2].copy()], [D[1].copy(), D[3].copy()])
    sut(call)
    return m


def ref(case, D, w):
    return md.ref_gp(case, *D, w) if case["model"] == "gp" else md.RefMF(case, *D, w)


def out(m, Q, n):
    o = sut(m.predict, Q.copy(), return_std=True)
    check(isinstance(o, tuple) and len(o) == 2, "predict(return_std=True) must give two arrays")
    r = [arr(o[0], (n, 1), "mean"), arr(o[1], (n, 1), "standard deviation")]
    if hasattr(m, "predict_lf"):
        o = sut(m.predict_lf, Q.copy(), return_std=True)
        r += [arr(o[0], (n, 1), "low-fidelity mean"), arr(o[1], (n, 1), "low-fidelity standard deviation")]
    return r


def law_units(case, rec):
    D = data(case)
    Q = md.points_of(case, case["q"])
    n = len(Q)
    scale = float(D[1].std())
    mean, std, tm, tv = md.with_tolerance(lambda w: ref(case, D, w), Q, scale)
    if np.max(tm) > 1e-3 * scale:
        raise Inconclusive()
    tol = [(tm, tv)]
    if case["model"] != "gp":
        _, _, a, b = md.with_tolerance(lambda w: ref(case, D, w).lf, Q, scale)
        tol.append((a, b))
    m1 = train(case, D, scale)
    c2, D2, Q2, a, b = dict(case), [x.copy() for x in D], Q, 1.0, 0.0
    ns = scale
    if case["how"] == "responses":
        a, b = case["a"], case["b"] * scale
        for i in range(1, len(D), 2):
            D2[i] = a * D2[i] + b
        ns = abs(a) * scale
        tol = [(t * 2 + 1e-12 * abs(b / a), v * 2 + 1e-12 * (b / a) ** 2 * 1e-2) for t, v in tol]
    elif case["how"] == "inputs":
        c2["space"] = case["sp2"]
        for i in range(0, len(D), 2):
            u = md.RefGP.unit(type("S", (), {"space": np.asarray(case["space"], float)})(), D[i])
            D2[i] = md.scale_up(u, case["sp2"])
        unit = md.RefGP.unit(type("S", (), {"space": np.asarray(case["space"], float)})(), Q)
        Q2 = md.scale_up(unit, case["sp2"])
        # rounding of coordinates with a large offset
        mag = max(np.abs(np.asarray(s, float)).max() / np.diff(np.asarray(s, float)).min() for s in (case["space"], case["sp2"]))
        if mag > 1e4:
            raise Inconclusive()
        tol = [(t * (2 + mag), v * (2 + mag)) for t, v in tol]
    elif case["how"] == "points":
        ps = [case["p1"], case["p1"]] + [case["p2"], case["p2"]]
        D2 = [x[ps[i]] for i, x in enumerate(D2)]
    else:
        pd = case["pd"]
        c2["space"] = [case["space"][i] for i in pd]
        c2["theta"] = [case["theta"][i] for i in pd]
        if "theta_l" in case:
            c2["theta_l"] = [case["theta_l"][i] for i in pd]
        for i in range(0, len(D), 2):
            D2[i] = D2[i][:, pd]
        Q2 = Q[:, pd]
    m2 = train(c2, D2, ns)
    r1, r2 = out(m1, Q, n), out(m2, Q2, n)
    for k, (t, v) in enumerate(tol):
        w = (case["model"] + (" low-fidelity" if k else ""))
        e = np.abs((r2[2 * k] - b) / a - r1[2 * k]) - 3 * t
        check(bool(np.all(e <= 0)), f"{w} predictions do not follow a change of {case['how']}",
              before=r1[2 * k].ravel()[:5], after=r2[2 * k].ravel()[:5], a=a, b=b)
        e = np.abs((r2[2 * k + 1] / a) ** 2 - r1[2 * k + 1] ** 2) - 3 * v
        check(bool(np.all(e <= 0)), f"{w} standard deviations do not follow a change of {case['how']}",
              before=r1[2 * k + 1].ravel()[:5], after=r2[2 * k + 1].ravel()[:5], a=a)
    rec.label(case["model"], case["how"], case["noise"][0])
    trivial = {"responses": a == 1 and b == 0, "inputs": case["sp2"] == case["space"],
               "points": list(case["p1"]) == sorted(case["p1"]), "dimensions": list(case["pd"]) == sorted(case["pd"])}
    rec.nontrivial(not trivial[case["how"]])


# ---------------------------------------------------------------- training
@st.composite
def train_cases(draw):
    if draw(st.integers(0, 2)) == 0:
        case = draw(md.gp_case(n_max=7, d_max=2))
        case["model"], case["bounds"] = "gp", None
    else:
        case = draw(md.mf_case(nl_max=7, nh_max=5))
    case["noise"] = draw(st.sampled_from([["free", 0.0], ["known", 0.1], ["est", 0.1]]))
    case["a"] = draw(st.sampled_from([2.0, -1.0, 0.25, -8.0, 1024.0, 2.0 ** -40, 2.0 ** 40]))
    case["ka"] = draw(st.sampled_from([2.0, 0.5, 16.0, 2.0 ** -60, 2.0 ** -40, 2.0 ** 50]))
    case["q"] = draw(md.queries(case["d"]))
    case["seed"] = draw(st.integers(0, 999))
    case["how"] = draw(st.sampled_from(["responses", "inputs"]))
    return case


def law_trained(case, rec):
    """Scaling by powers of two is exact, so that training follows exactly."""
    D = data(case)
    Q = md.points_of(case, case["q"])
    scale = float(D[1].std())
    res = []
    for changed in (False, True):
        c, E, q, ns, a = dict(case), [x.copy() for x in D], Q, scale, 1.0
        if changed and case["how"] == "responses":
            a = case["a"]
            E = [x if i % 2 == 0 else x * a for i, x in enumerate(E)]
            ns = abs(a) * scale
        elif changed:
            k = case["ka"]
            c["space"] = (np.array(case["space"], float) * k).tolist()
            E = [x * k if i % 2 == 0 else x for i, x in enumerate(E)]
            q = Q * k
        if case["model"] == "gp":
            m = sut(md.build_gp, c, None, ns, optimizer_restart=1)
            call = lambda: m.train(E[0].copy(), E[1].copy())
        else:
            m = sut(md.build_mf, c, None, ns, optimizer_restart=1)
            call = lambda: m.train([E[0].copy(), E[2].copy()], [E[1].copy(), E[3].copy()])
        np.random.seed(case["seed"])
        try:
            call()
        except np.linalg.LinAlgError:
            raise Inconclusive()
        res.append((out(m, q, len(q)), a))
    (r1, _), (r2, a) = res
    for k, (x, y) in enumerate(zip(r1, r2)):
        y = y / (a if k % 2 == 0 else abs(a))
        check(bool(np.all(np.abs(x - y) <= 1e-7 * (np.abs(x) + scale))),
              f"a trained {case['model']} does not follow a change of units of the {case['how']}",
              what=("mean", "standard deviation", "low-fidelity mean", "low-fidelity standard deviation")[k],
              before=x.ravel()[:5], after=y.ravel()[:5], a=a)
    rec.label(case["model"], case["how"], case["noise"][0])


LAWS = [
    Law("units", cases, law_units, 1500, shards=4, rule="the change of units or the permutation is not the identity"),
    Law("training", train_cases, law_trained, 160, thorough=3000, shards=8),
]
ASSUMPTIONS = ["Prescribed hyper-parameters (permuted with the dimensions) for general changes; scaling by signed powers of two for trained ones, where the arithmetic follows exactly."]
