"""P19 prediction is a pure function of the trained model and the point."""
import numpy as np
from hypothesis import strategies as st

from vlib import models as md
from vlib.core import Inconclusive, Law, arr, check, sut


NQ = 6


@st.composite
def op(draw):
    kind = draw(st.sampled_from(["predict"] * 5 + ["lf"] * 2 + ["at data"] * 2 + ["input", "output", "train", "other", "random"]))
    if kind in ("predict", "lf"):
        idx = draw(st.lists(st.integers(0, NQ + 1), min_size=1, max_size=NQ))
        idx = idx * draw(st.sampled_from([1] * 8 + [25, 70]))     # now and then a large batch
        return [kind, idx, draw(st.booleans()), draw(st.booleans()), draw(st.booleans())]
    if kind == "at data":                   # the array of all training points
        return [kind, draw(st.booleans()), draw(st.booleans()), draw(st.booleans())]
    if kind == "train":
        return [kind, draw(st.integers(0, 3))]
    if kind == "random":
        return [kind, draw(st.integers(0, 99))]
    return [kind]


@st.composite
def cases(draw):
    if draw(st.integers(0, 2)) == 0:
        case = draw(md.gp_case(n_max=10, large=True))
        case["model"] = "gp"
    else:
        case = draw(md.mf_case(large=True))
        if case["model"] == "sk" and draw(st.booleans()):
            case["sk_rho"] = draw(st.sampled_from([0.3, 2.5]))
    case["q"] = draw(md.queries(case["d"], NQ, NQ))
    case["ops"] = draw(st.lists(op(), min_size=3, max_size=12))
    return case


def observables(m, case):
    out = {"noise": m.noise, "kernel": m.kernel._get_param}
    if case["model"] != "gp":
        out.update(lf_kernel=m.lfGP.kernel._get_param, xh=m._get_sample_hf, xl=m._get_sample_lf,
                   nh=m._num_xh, nl=m._num_xl)
        if case["model"] != "hk":
            out["rho"] = m.rho
    else:
        out.update(x=m.sample_x, y=m.sample_y, n=m._num_samples)
    return {k: np.array(v, float).copy() for k, v in out.items()}


def other(case, D, s):
    if case["model"] == "gp":
        m = md.build_gp(case, md.Stub([np.array(md.stub_params(case)) * 0.5 + 0.1]), s)
        m.train(D[0][::-1].copy(), D[1] * -2 + np.linspace(0, 1, len(D[1])).reshape(-1, 1))
    else:
        c = dict(case, theta=[t + 0.25 for t in case["theta"]], theta_l=[1.0] * case["d"], rho=2.0)
        m = md.build_mf(c, md.mf_stub(c), s)
        m.train([D[0].copy(), D[2].copy()], [D[1] * 2 + 1, D[3][::-1].copy()])


def law_pure(case, rec):
    gp = case["model"] == "gp"
    D = md.gp_arrays(case) if gp else md.mf_arrays(case)
    clean = [x.copy() for x in D]
    held = [x.copy() for x in D]            # the arrays the caller holds on to
    s = float(D[1].std())
    ref = lambda w: (md.ref_gp if gp else md.RefMF)(case, *clean, w)
    Q = np.vstack([md.points_of(case, case["q"]), D[0], *D[2:3]])
    k = len(case["q"])
    data = {"predict": range(k, k + len(D[0])), "lf": range(k + len(D[0]), len(Q))}
    want = {"predict": md.with_tolerance(ref, Q, s)}
    if not gp:
        want["lf"] = md.with_tolerance(ref, Q, s, lambda r, X: r.lf.predict(X))
    for mean, std, tm, tv in want.values():
        if np.max(tm) > 1e-2 * s:
            raise Inconclusive()
    if gp:
        m = sut(md.build_gp, case, md.Stub([md.stub_params(case)]), s)
        sut(m.train, held[0], held[1])
    else:
        kw = {}
        if "sk_rho" in case:
            kw = dict(rho_optimize=True, rho_optimizer=md.Stub([[case["sk_rho"]]]))
        m = sut(md.build_mf, case, md.mf_stub(case), s, **kw)
        sut(m.train, [held[0], held[2]], [held[1], held[3]])
    before = observables(m, case)
    seen, last_in, last_out, hits, mutated = {}, None, None, 0, False
    for o in case["ops"]:
        if o[0] == "at data":
            o = ["predict" if gp or o[3] else "lf", None, o[1], False, o[2]]
            o[1] = list(data[o[0]])
        if o[0] in ("predict", "lf"):
            kind = "predict" if gp else o[0]
            mean, std, tm, tv = want[kind]
            idx = o[1]
            if len(o) > 4 and o[4] and last_in is not None and last_in.ndim == 2:
                # refill the array that was predicted before
                idx = (idx * len(last_in))[:len(last_in)]
                last_in[:] = Q[idx]
                X = last_in
                mutated = True
            else:
                X = Q[idx].copy()
                if len(idx) == 1 and o[3]:
                    X = X[0]
            given = X.copy()
            out = sut(m.predict if kind == "predict" else m.predict_lf, X, return_std=o[2])
            check(np.array_equal(X, given), "predicting modifies the points it is given")
            if o[2]:
                check(isinstance(out, tuple) and len(out) == 2, "predict(return_std=True) must give two arrays")
            got = [arr(out[0] if o[2] else out, (len(idx), 1), "mean")]
            if o[2]:
                got.append(arr(out[1], (len(idx), 1), "standard deviation"))
            t = tm[idx] if np.ndim(tm) else tm
            check(bool(np.all(np.abs(got[0] - mean[idx]) <= 2 * t)),
                  f"{case['model']} {kind}: the mean depends on more than the model and the point",
                  got=got[0].ravel(), want=mean[idx].ravel(), ops=len(seen))
            if o[2]:
                v = tv[idx] if np.ndim(tv) else tv
                check(bool(np.all(np.abs(got[1] ** 2 - std[idx] ** 2) <= 2 * v)),
                      f"{case['model']} {kind}: the standard deviation depends on more than the model and the point",
                      got=got[1].ravel(), want=std[idx].ravel())
            key = (kind, tuple(idx))
            for j, g in enumerate(got):
                if (key, j) in seen:
                    b = seen[key, j]
                    check(bool(np.all(np.abs(g - b) <= 1e-9 * (s + np.abs(b)))),
                          f"{case['model']} {kind}: repeating a prediction changes it",
                          first=b.ravel(), again=g.ravel(), what=("mean", "standard deviation")[j])
                    hits += 1
                else:
                    seen[key, j] = g.copy()
            last_in, last_out = X, out if o[2] else (out,)
        elif o[0] == "input" and last_in is not None:
            last_in[...] = last_in + 0.37 * (1 + np.abs(last_in))
            mutated = True
        elif o[0] == "output" and last_out is not None:
            for a in last_out:
                if isinstance(a, np.ndarray) and a.flags.writeable:
                    a *= -3.0
                    a += s
            mutated = True
        elif o[0] == "train":
            a = held[o[1] % len(held)]
            a[...] = 1.5 * a + 0.7 * (1 + np.abs(1.5 * a))
            mutated = True
        elif o[0] == "random":
            np.random.seed(o[1])
        elif o[0] == "other":
            # another model of the same kind, trained on other data
            try:
                other(case, clean, s)
            except np.linalg.LinAlgError:
                pass
            mutated = True
    if not any(o[0] == "train" for o in case["ops"]):
        after = observables(m, case)
        for k in before:
            check(np.array_equal(before[k], after[k]), f"predicting changes the model ({k})",
                  before=before[k].ravel()[:5], after=after[k].ravel()[:5])
    rec.label(case["model"], case["noise"][0])
    if mutated:
        rec.label("with modifications")
    if hits:
        rec.label("repeated prediction")
    rec.nontrivial(len(seen) >= 2 and (mutated or hits))


LAWS = [Law("pure", cases, law_pure, 2000, shards=6,
            rule="at least two predictions, and a repeated one or an intervening modification")]
ASSUMPTIONS = ["Values are compared with the reference model (tolerances as in P14, P17), so dependence on the batch or on history shows as a wrong value."]
