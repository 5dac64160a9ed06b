"""P12 kernel values, definiteness, two entry points, bounds, Kronecker delta."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Law, arr, check, sut
from vlib.models import kern

from mfpml.models.kernels import RBF, kronDelta

co = st.one_of(st.integers(-24, 40).map(lambda i: i / 16), st.floats(-3, 3, allow_nan=False, width=32))
th = st.one_of(st.integers(-16, 12).map(lambda i: i / 4), st.floats(-4, 3, allow_nan=False, width=32))


@st.composite
def histories(draw):
    d = draw(st.integers(6, 16) if draw(gen.rare(10)) else st.integers(1, 5))
    pts = lambda: st.lists(st.lists(co, min_size=d, max_size=d), min_size=1, max_size=7)
    vec = st.lists(th, min_size=d, max_size=d)
    return {"d": d, "theta0": draw(vec),
            "types": draw(st.tuples(*[st.sampled_from(["float", "float", "int"])] * 2)),
            "bounds": draw(st.one_of(st.none(), st.sampled_from([[-4, 3], [-1.5, 2.5], [0, 1]]))),
            "ops": draw(st.lists(st.one_of(
                st.tuples(st.just("set"), vec),
                st.tuples(st.just("eval"), pts(), pts()),
                st.tuples(st.just("call"), pts(), pts(), vec),
                st.tuples(st.just("self"), pts(), st.integers(-8, 8).map(lambda i: i / 4)),
                st.tuples(st.just("many"), st.integers(0, 9999), st.integers(1, 300), st.integers(1, 300), vec)),
                min_size=2, max_size=8))}


def tol(A, B, theta):
    t = 10.0 ** np.asarray(theta, float)
    # cancellation of squared norms, and the jitter on the diagonal
    size = 1 + ((np.abs(A).max() + np.abs(B).max()) ** 2) * t.sum()
    return 1.1e-10 + 1e-14 * size


def typed(values, kind):
    """Parameters or points in the form a user passes them in: integral
    numbers may come as an integer array."""
    a = np.array(values, float)
    if kind == "int" and bool(np.all(a == np.round(a))):
        return a.astype(int)
    return a


def law_kernel(case, rec):
    d = case["d"]
    tt, tx = case.get("types", ("float", "float"))
    case = dict(case)
    if tt == "int":
        case["theta0"] = np.round(case["theta0"])
    if tx == "int":
        case["ops"] = [[op[0], np.round(op[1]), *op[2:]] if op[0] in ("eval", "call", "self") else op
                       for op in case["ops"]]
    kw = {} if case["bounds"] is None else {"bounds": list(case["bounds"])}
    k = sut(RBF, theta=typed(case["theta0"], tt), **kw)
    cur = np.array(case["theta0"], float)
    evals = 0
    lo, hi = case["bounds"] if case["bounds"] is not None else (-2, 3)
    for op in case["ops"]:
        check(sut(lambda: k._get_num_para) == d, "number of parameters is not the dimension")
        b = arr(sut(lambda: k._get_bounds), (d, 2), "bounds")
        check(bool(np.all(b == [lo, hi])), "the bounds are not the configured ones", bounds=b)
        check(list(sut(lambda: k._get_low_bound)) == [lo] * d and list(sut(lambda: k._get_high_bound)) == [hi] * d
              and [list(v) for v in sut(lambda: k._get_bounds_list)] == [[lo, hi]] * d,
              "the bound accessors disagree")
        p = arr(sut(lambda: k._get_param), (d,), "parameters")
        check(bool(np.allclose(p, 10.0 ** cur, rtol=1e-12, atol=0)), "the stored parameters are not the ones set")
        check(bool(np.allclose(sut(lambda: k.hyperparameters), 10.0 ** cur, rtol=1e-12, atol=0)),
              "the listed parameters are not the ones set")
        if op[0] == "set":
            cur = np.array(op[1], float)
            sut(k.set_params, typed(cur, tt))
            continue
        if op[0] == "many":
            rng = np.random.default_rng(op[1])
            A, B = rng.integers(-24, 41, (op[2], d)) / 16, rng.random((op[3], d))
            B[:op[2]:7] = A[:op[3]:7][:len(B[:op[2]:7])]
            for how, t in (("stored", cur), ("given", np.array(op[4], float))):
                K = arr(sut(k.get_kernel_matrix, A.copy(), B.copy()) if how == "stored" else sut(k, A.copy(), B.copy(), t.copy()),
                        (len(A), len(B)), "kernel matrix")
                check(bool(np.all(np.abs(K - kern(A, B, t)) <= tol(A, B, t))),
                      "kernel of many points is not exp(-sum 10^theta dx^2)", theta=t, parameters=how,
                      worst=float(np.abs(K - kern(A, B, t)).max()))
            K = arr(sut(k.get_kernel_matrix, A.copy(), A.copy()), (len(A), len(A)), "kernel matrix")
            check(bool(np.all(np.abs(K - kern(A, A, cur)) <= tol(A, A, cur))),
                  "kernel matrix of many points is not exp(-sum 10^theta dx^2)", points=len(A))
            ev = np.linalg.eigvalsh((K + K.T) / 2)
            check(ev[0] >= -len(A) * tol(A, A, cur), "the kernel matrix is not positive semi-definite", smallest=float(ev[0]))
            evals += 1
            continue
        A = np.array(op[1], float)
        if op[0] == "self":
            K = arr(sut(k.get_kernel_matrix, A.copy(), A.copy()), (len(A), len(A)), "kernel matrix")
            t = tol(A, A, cur)
            check(bool(np.all(np.abs(K - K.T) <= t)), "the kernel matrix is not symmetric")
            check(bool(np.all(np.abs(np.diag(K) - 1) <= t)), "the diagonal is not one")
            check(bool(np.all((K >= 0) & (K <= 1 + t))), "an entry is outside [0, 1]")
            ev = np.linalg.eigvalsh((K + K.T) / 2)
            check(ev[0] >= -len(A) * t, "the kernel matrix is not positive semi-definite", smallest=float(ev[0]))
            S = A + op[2]
            K2 = arr(sut(k.get_kernel_matrix, S, S), K.shape, "kernel matrix")
            check(bool(np.all(np.abs(K2 - K) <= t + tol(S, S, cur))), "the kernel is not translation invariant")
            th_, B = cur, A
            check(bool(np.all(np.abs(K - kern(A, A, cur)) <= t)), "kernel matrix is not exp(-sum 10^theta dx^2)")
            if len(np.unique(A, axis=0)) == len(A):
                np.linalg.cholesky(K + np.eye(len(A)) * 1e-9)
            evals += 1
            continue
        B = np.array(op[2], float)
        if op[0] == "call":
            th_ = np.array(op[3], float)
            K = sut(k, typed(A, tx), B.copy(), typed(th_, tt))
            other = sut(RBF, theta=th_.copy())
            K2 = sut(other.get_kernel_matrix, A.copy(), B.copy())
            check(bool(np.allclose(arr(K, what="kernel"), arr(K2, what="kernel"), rtol=1e-13, atol=1e-15)),
                  "evaluating with explicit parameters differs from setting them first")
        else:
            th_ = cur
            K = sut(k.get_kernel_matrix, typed(A, tx), typed(B, tx))
        K = arr(K, (len(A), len(B)), "kernel matrix")
        want = kern(A, B, th_)
        check(bool(np.all(np.abs(K - want) <= tol(A, B, th_))), "kernel is not exp(-sum 10^theta dx^2)",
              got=K.ravel()[:4], want=want.ravel()[:4], theta=th_)
        same = (A[:, None, :] == B[None, :, :]).all(-1)
        check(bool(np.all(np.abs(K[same] - 1) <= tol(A, B, th_))), "kernel of coinciding points is not one")
        evals += 1
    rec.label(f"d={d}", "custom bounds" if case["bounds"] else "default bounds", *{o[0] for o in case["ops"]})
    rec.nontrivial(evals >= 2 and any(o[0] in ("set", "call") for o in case["ops"]))


@st.composite
def rows(draw):
    d = draw(st.integers(1, 4))
    c = st.integers(-6, 6).map(lambda i: i / 4)
    p = st.lists(st.lists(c, min_size=d, max_size=d), min_size=1, max_size=6)
    return {"A": draw(p), "B": draw(p), "share": draw(st.lists(st.integers(0, 5), max_size=3))}


def law_delta(case, rec):
    A = np.array(case["A"])
    B = np.vstack([case["B"]] + [A[i % len(A)][None, :] for i in case["share"]])
    D = np.asarray(sut(kronDelta, A.copy(), B.copy()))
    check(D.shape == (len(A), len(B)), f"delta has shape {D.shape}")
    want = (A[:, None, :] == B[None, :, :]).all(-1)
    check(np.array_equal(D.astype(bool), want), "the Kronecker delta is not true exactly for coinciding rows")
    rec.nontrivial(want.any() and not want.all())


LAWS = [
    Law("kernel_history", histories, law_kernel, 2500, shards=3,
        rule="at least two evaluations and a change of parameters"),
    Law("kronecker", rows, law_delta, 600, rule="some rows coincide and some do not"),
]
ASSUMPTIONS = ["Coordinates within [-4, 4] of the scaled space; the jitter of 1e-10 is allowed on the leading diagonal of any kernel matrix."]
