"""Data sets, stub optimizers and reference models for the Kriging checks."""
import numpy as np
from hypothesis import strategies as st
from scipy.linalg import cho_factor, cho_solve

from vlib import gen
from vlib.core import Inconclusive, Violation, arr, check, sut

from mfpml.models.basis_functions import Linear, Ordinary, Quadratic
from mfpml.models.co_kriging import CoKriging
from mfpml.models.gaussian_process import GaussianProcessRegression
from mfpml.models.hierarchical_kriging import HierarchicalKriging
from mfpml.models.kernels import RBF
from mfpml.models.scale_kriging import ScaledKriging

JIT = 1e-10
COND_MAX = 1e8
KINDS = ("unit", "int", "eighth", "offset", "dec", "tiny", "huge")


# ---------------------------------------------------------------- stubs
class Stub:
    """A user-supplied optimizer that answers with prescribed parameters.

    answers[i] is the parameter vector of the i-th call (clipped into the
    search box); probes[i] are parameter vectors evaluated before answering.
    """

    def __init__(self, answers, probes=None):
        self.answers, self.probes = list(answers), probes
        self.calls = []
        self.plots = 0

    def run_optimizer(self, func, num_dim, design_space, *a, **k):
        i = len(self.calls)
        box = np.array(design_space, float)
        call = {"num_dim": num_dim, "box": box.copy(), "func": func}
        self.calls.append(call)
        ans = self.answers[i % len(self.answers)]
        x = np.array(ans(box) if callable(ans) else ans, float)
        x = np.clip(x, box[:, 0], box[:, 1])
        if self.probes is not None:
            call["probe"] = np.array(self.probes(box), float)
            call["batch"] = np.array(func(call["probe"].copy()), float)
            call["rows"] = [np.array(func(row.copy()), float) for row in call["probe"]]
        call["answer"] = x.copy()
        y = np.array(func(x.reshape(1, -1)), float).ravel()
        return {"best_x": x, "best_y": y}, y, x

    def plot_optimization_history(self, *a, **k):
        self.plots += 1


REGR = {"ordinary": Ordinary, "linear": Linear, "quadratic": Quadratic}


def basis(name, U):
    n, d = U.shape
    cols = [np.ones(n)]
    if name != "ordinary":
        cols += [U[:, k] for k in range(d)]
    if name == "quadratic":
        cols += [U[:, k] * U[:, j] for k in range(d) for j in range(k, d)]
    return np.column_stack(cols)


def kern(A, B, theta):
    t = 10.0 ** np.asarray(theta, float)
    diff = A[:, None, :] - B[None, :, :]
    return np.exp(-(diff * diff * t).sum(-1))


class Wobble:
    """Perturbations of the reference computation that must not matter: the
    jitter of 1e-10 some correlation entries carry, and rounding."""

    def __init__(self, seed=None):
        self.rng = None if seed is None else np.random.default_rng(seed)

    def cross(self, K):
        """cross correlations (n x m)"""
        if self.rng is None:
            return K
        return K * (1 + 3e-15 * self.rng.standard_normal(K.shape)) + \
            JIT * self.rng.uniform(-3, 3, K.shape)

    def sym(self, K, theta=()):
        """correlations of the samples; the distances are differences of
        numbers as large as the correlation parameters"""
        if self.rng is None:
            return K
        E = self.rng.standard_normal(K.shape) * (3e-15 + 2e-16 * np.sum(10.0 ** np.asarray(theta, float)))
        return K * (1 + (E + E.T) / 2)

    def vec(self, y):
        if self.rng is None:
            return y
        return y * (1 + 1e-15 * self.rng.standard_normal(np.shape(y)))


class Krig:
    """Universal kriging algebra for a correlation matrix K and trend F."""

    def __init__(self, K, F, y):
        self.F, self.y, self.n = F, y.reshape(-1, 1), len(y)
        self.cond = np.linalg.cond(K)
        if not np.isfinite(self.cond) or self.cond > COND_MAX:
            raise Inconclusive()
        self.c = cho_factor(K, lower=True)
        KF = cho_solve(self.c, F)
        A = F.T @ KF
        self.cond_a = np.linalg.cond(A)
        if not self.cond_a <= 1e7:
            raise Inconclusive()
        self.A = A
        self.beta = np.linalg.solve(A, F.T @ cho_solve(self.c, self.y))
        r = self.y - F @ self.beta
        self.gamma = cho_solve(self.c, r)
        self.sigma2 = float((r.T @ self.gamma).item() / self.n)
        self.logl = float(np.log(np.abs(np.diag(self.c[0]))).sum())

    def nll(self, concentrated):
        if concentrated:
            if self.sigma2 <= 1e-14:
                raise Inconclusive()
            return 0.5 * self.n * np.log(self.sigma2) + self.logl
        return 0.5 * self.n * self.sigma2 + self.logl

    def post(self, k, f):
        """mean and variance at points with cross correlations k (n x m) and
        trend f (m x p)"""
        mean = f @ self.beta + k.T @ self.gamma
        dk = cho_solve(self.c, k)
        R = f.T - self.F.T @ dk
        q = 1 - (k * dk).sum(0) + (R * np.linalg.solve(self.A, R)).sum(0)
        return mean, np.maximum(self.sigma2 * q, 0).reshape(-1, 1)


class RefGP:
    """Reference Gaussian process in original units."""

    def __init__(self, space, X, Y, theta, noise, regr="ordinary", standard=None, w=Wobble()):
        self.space, self.w = np.asarray(space, float), w
        self.regr, self.theta = regr, np.asarray(theta, float)
        Y = np.asarray(Y, float).reshape(-1, 1)
        self.m, self.s = (Y.mean(), Y.std()) if standard is None else standard
        self.noise = float(noise)               # original units
        self.U = self.unit(X)
        self.ys = w.vec((Y - self.m) / self.s)
        self.Kn = w.sym(kern(self.U, self.U, self.theta)
                        + np.eye(len(Y)) * (JIT + (self.noise / self.s) ** 2), self.theta)
        self.k = Krig(self.Kn, basis(regr, self.U), self.ys)

    def unit(self, X):
        X = np.atleast_2d(np.asarray(X, float))
        return (X - self.space[:, 0]) / (self.space[:, 1] - self.space[:, 0])

    def predict(self, X):
        """mean and std in original units."""
        U = self.unit(X)
        mean, var = self.k.post(self.w.cross(kern(self.U, U, self.theta)), basis(self.regr, U))
        return mean * self.s + self.m, np.sqrt(var * self.s ** 2 + self.noise ** 2)


def with_tolerance(build, Q, scale, predict=lambda r, Q: r.predict(Q), seeds=(1, 2, 3, 4, 5)):
    """Nominal reference prediction, and how far perturbations of the
    reference that must not matter move it (with a safety factor)."""
    mean, std = predict(build(Wobble()), Q)
    tm, tv = 0.0, 0.0
    for sd in seeds:
        m, s = predict(build(Wobble(sd)), Q)
        tm = np.maximum(tm, np.abs(m - mean))
        tv = np.maximum(tv, np.abs(s ** 2 - std ** 2))
    tm, tv = np.maximum(tm, tm.mean()), np.maximum(tv, tv.mean())
    return mean, std, 10 * tm + 1e-10 * (scale + np.abs(mean)), \
        10 * tv + 1e-9 * (scale ** 2 + std ** 2)


def agree(got_mean, got_std, mean, std, tm, tv, what, **detail):
    got_mean = arr(got_mean, mean.shape, what + " mean")
    err = np.abs(got_mean - mean) - tm
    check(bool(np.all(err <= 0)), f"{what}: mean is not the reference posterior mean",
          got=got_mean.ravel()[:6], want=mean.ravel()[:6], **detail)
    if got_std is not None:
        got_std = arr(got_std, std.shape, what + " standard deviation")
        check(bool(np.all(got_std >= 0)), f"{what}: negative standard deviation")
        err = np.abs(got_std ** 2 - std ** 2) - tv
        check(bool(np.all(err <= 0)),
              f"{what}: standard deviation is not the reference one",
              got=got_std.ravel()[:6], want=std.ravel()[:6], **detail)


# ---------------------------------------------------------------- data
def theta_vec(d, large=False):
    """(short correlation lengths only for large data sets, whose matrices
    would be near-singular otherwise)"""
    return st.lists(st.integers(6 if large else -4, 12).map(lambda i: i / 4), min_size=d, max_size=d)


@st.composite
def responses(draw, n, lo=-20, hi=20):
    """Coefficients turning unit points into responses."""
    return {"c": draw(st.lists(st.integers(-4, 4), min_size=4, max_size=4)),
            "e": draw(st.lists(st.integers(lo, hi).map(lambda i: i / 8), min_size=n, max_size=n)),
            "scale": draw(st.sampled_from([1.0, 1.0, 1.0, 0.01, 1000.0])),
            "shift": draw(st.sampled_from([0.0, 0.0, 10.0, -300.0]))}


def evaluate(r, U):
    U = np.asarray(U, float)
    s = U.sum(1)
    c = r["c"]
    y = c[0] * s + c[1] * np.sin(5 * s + c[2]) + c[3] * U[:, 0] ** 2 + np.array(r["e"][:len(U)])
    y = r["scale"] * y + r["shift"] * r["scale"]
    if np.std(y) < 1e-3 * r["scale"]:
        y = y + r["scale"] * np.linspace(0, 1, len(y)) ** 2
    return y.reshape(-1, 1)


LARGE = st.integers(0, 11).map(lambda i: i == 11)      # now and then a large data set


def noise_of(r, n, seed):
    """Responses of a large data set: draw the spread from a seed."""
    r["e"] = (np.random.default_rng(seed).integers(-20, 21, n) / 8).tolist()
    return r


@st.composite
def gp_data(draw, n_min=3, n_max=12, d_max=3, large=False):
    d = draw(st.integers(1, d_max))
    if large and draw(LARGE):
        d = draw(st.integers(1, 6))
        n, seed = draw(st.integers(25, 90)), draw(st.integers(0, 9999))
        return {"d": d, "n": n, "space": draw(gen.space_d(d, KINDS)), "large": True,
                "u": gen.seeded_points(n, d, seed), "y": noise_of(draw(responses(0)), n, seed)}
    n = draw(st.integers(n_min, n_max))
    case = {"d": d, "n": n, "space": draw(gen.space_d(d, KINDS)),
            "u": draw(gen.strat_points(n, d)), "y": draw(responses(n))}
    if large and draw(gen.rare(10)):
        case["u"] = draw(close_pair(case["u"]))
        case["large"] = True
    elif draw(gen.rare(8)):
        case = dict(case, ints=True, space=draw(int_space(d)))
    return case


@st.composite
def close_pair(draw, u):
    """Two of the points become almost the same (the responses do not)."""
    i, j = draw(st.permutations(range(len(u))))[:2]
    e = draw(st.sampled_from([2.0 ** -9, 2.0 ** -11, 2.0 ** -12]))
    s = draw(st.lists(st.integers(-1, 1), min_size=len(u[0]), max_size=len(u[0])))
    s = s if any(s) else [1] * len(s)
    return [[v + e * t for v, t in zip(u[i], s)] if k == j else p for k, p in enumerate(u)]


def scale_up(u, space):
    s = np.asarray(space, float)
    return s[:, 0] + np.asarray(u, float) * (s[:, 1] - s[:, 0])


def int_space(d):
    """extents wide enough for the points to be rounded to integers"""
    return st.lists(st.tuples(st.integers(-40, 40), st.integers(1, 60)).map(
        lambda t: [float(t[0]), float(t[0] + 60 * t[1])]), min_size=d, max_size=d)


def points_of(case, u):
    """points of the case; an integer array if it is about integers"""
    x = scale_up(u, case["space"])
    return np.rint(x).astype(np.int64) if case.get("ints") else x


def ints_of(case, y, scale):
    """responses as integers"""
    if not case.get("ints"):
        return y
    y = np.rint(8 * y / scale)
    if y.std() == 0:
        y[0] += 8
    return y.astype(np.int64)


def gp_arrays(case):
    return points_of(case, case["u"]), ints_of(case, evaluate(case["y"], case["u"]), case["y"]["scale"])


@st.composite
def queries(draw, d, n_min=1, n_max=6, lo=-16, hi=32):
    """Unit coordinates, inside and a little outside of the design space."""
    if draw(gen.rare(15)):                  # a large batch
        n, seed = draw(st.integers(30, 300)), draw(st.integers(0, 9999))
        n = n * 5 if draw(gen.rare(4)) else n
        return (np.random.default_rng(seed).integers(lo, hi + 1, (n, d)) / 16).tolist()
    return draw(st.lists(st.lists(st.integers(lo, hi).map(lambda i: i / 16), min_size=d, max_size=d),
                         min_size=n_min, max_size=n_max))


noise_mode = st.sampled_from([["free", 0.0], ["free", 0.0], ["known", 0.01], ["known", 0.1],
                              ["known", 0.5], ["known", 2.0], ["est", 0.001], ["est", 0.05],
                              ["est", 0.3], ["est", 3.0]])


def noise_prior(mode, s):
    """noise_prior argument for data of standard deviation s."""
    return {"free": 0.0, "known": mode[1] * s, "est": None}[mode[0]]


@st.composite
def gp_case(draw, n_max=12, d_max=3, regrs=("ordinary", "linear", "quadratic"), large=False):
    case = draw(gp_data(4, n_max, d_max, large))
    p = {"ordinary": 1, "linear": case["d"] + 1,
         "quadratic": (case["d"] + 1) * (case["d"] + 2) // 2}
    case["regr"] = draw(st.sampled_from([r for r in regrs if p[r] + 2 <= case["n"]]))
    case["theta"] = draw(theta_vec(case["d"], case.get("large")))
    case["noise"] = draw(noise_mode)
    case["bounds"] = draw(st.sampled_from([None, [-4.0, 4.0], [-1.0, 3.5]]))
    case["flat_y"] = draw(st.booleans())
    if case["noise"][0] != "free" and case["noise"][1] >= 0.1 and draw(gen.rare(5)):
        case["u"] = draw(repeated(case["u"]))
    return case


@st.composite
def repeated(draw, u):
    """Measurements are repeated at some of the points."""
    pairs = draw(st.lists(st.tuples(st.integers(0, len(u) - 1), st.integers(0, len(u) - 1)), min_size=1, max_size=len(u) // 3))
    u = list(u)
    for i, j in pairs:
        u[i] = u[j]
    return u


def build_gp(case, optimizer, s, **kw):
    """A GaussianProcessRegression for the case (s: std of its responses)."""
    args = dict(design_space=np.array(case["space"], float), regr=REGR[case["regr"]](),
                optimizer=optimizer, noise_prior=noise_prior(case["noise"], s))
    if case.get("tbox") is not None:          # bounds of its own per dimension
        args["kernel"] = RBF(theta=np.zeros(case["d"]))
        args["kernel"].bounds = np.array(case["tbox"], float)
    elif case["bounds"] is not None:
        args["kernel"] = RBF(theta=np.zeros(case["d"]), bounds=list(case["bounds"]))
    args.update(kw)
    return GaussianProcessRegression(**args)


def theta_box(case):
    """bounds of the kernel parameters, one row per dimension"""
    if case.get("tbox") is not None:
        return np.array(case["tbox"], float)
    return np.array([case.get("bounds") or [-2.0, 3.0]] * case["d"], float)


def theta_in(case):
    return np.clip(case["theta"], *theta_box(case).T)


def box_of(d):
    return st.one_of(st.none(), st.none(), st.none(), st.lists(
        st.tuples(st.integers(-12, 8), st.integers(2, 16)).map(lambda t: [t[0] / 4, (t[0] + t[1]) / 4]),
        min_size=d, max_size=d))


def stub_params(case, which="theta"):
    """Answer of the optimizer: theta and, if estimated, the (scaled) noise."""
    t = list(case[which])
    if case["noise"][0] == "est":
        t.append(case["noise"][1])
    return t


def trained_gp(case):
    X, Y = gp_arrays(case)
    stub = Stub([stub_params(case)])
    gp = sut(build_gp, case, stub, float(Y.std()))
    sut(gp.train, X.copy(), Y.ravel().copy() if case["flat_y"] else Y.copy())
    return gp, stub, X, Y


def ref_gp(case, X, Y, w=Wobble()):
    mode, val = case["noise"]
    noise = {"free": 0.0, "known": val * Y.std(), "est": val * Y.std()}[mode]
    return RefGP(case["space"], X, Y, theta_in(case), noise, case["regr"], w=w)


# ---------------------------------------------------------------- multi-fidelity
MODELS = ("hk", "sk", "ck")


@st.composite
def mf_data(draw, d_max=3, nl_max=11, nh_max=7, large=False):
    d = draw(st.integers(1, d_max))
    if large and draw(LARGE):
        d = draw(st.integers(1, 5))
        nl, seed = draw(st.integers(20, 60)), draw(st.integers(0, 9999))
        nh, nested = draw(st.integers(8, min(20, nl // 2))), draw(st.booleans())
        ul = gen.seeded_points(nl, d, seed)
        return {"d": d, "nl": nl, "nh": nh, "nested": nested, "space": draw(gen.space_d(d, KINDS)),
                "ul": ul, "uh": ul[::2][:nh] if nested else gen.seeded_points(nh, d, seed + 1),
                "yl": noise_of(draw(responses(0)), nl, seed), "yh": noise_of(draw(responses(0)), nh, seed + 1),
                "rel": draw(st.sampled_from([0.0, 1.0, 2.0, -0.5])), "large": True}
    nl = draw(st.integers(5, nl_max))
    nh = draw(st.integers(3, min(nl, nh_max)))
    ul = draw(gen.strat_points(nl, d))
    close = large and draw(gen.rare(10))
    if close:
        ul = draw(close_pair(ul))
    nested = draw(st.booleans())
    if nested:
        idx = draw(st.permutations(range(nl)))[:nh]
        uh = [ul[i] for i in idx]
    else:
        uh = draw(gen.strat_points(nh, d))
    ints = not close and draw(gen.rare(8))
    return {"d": d, "nl": nl, "nh": nh, "nested": nested,
            "space": draw(int_space(d) if ints else gen.space_d(d, KINDS)), **({"ints": True} if ints else {}),
            "ul": ul, "uh": uh, "yl": draw(responses(nl)), "yh": draw(responses(nh)),
            "rel": draw(st.sampled_from([0.0, 1.0, 2.0, -0.5])), **({"large": True} if close else {})}


@st.composite
def mf_case(draw, kinds=MODELS, **kw):
    case = draw(mf_data(**kw))
    case["model"] = draw(st.sampled_from(kinds))
    case["theta"] = draw(theta_vec(case["d"], case.get("large")))
    case["theta_l"] = draw(theta_vec(case["d"], case.get("large")))
    case["noise"] = draw(noise_mode)
    case["noise_l"] = draw(st.sampled_from([0.001, 0.02, 0.3]))
    if case["noise"][0] == "known" and case["noise"][1] >= 0.1 and draw(gen.rare(5)):
        case["ul"], case["uh"] = draw(repeated(case["ul"])), draw(repeated(case["uh"]))
    case["rho"] = draw(st.sampled_from([0.03, 0.1, 0.5, 1.0, 1.7, 3.0, 8.0, 25.0, 90.0]))
    return case


def mf_arrays(case):
    sc = case["yl"]["scale"]
    Xl, Xh = points_of(case, case["ul"]), points_of(case, case["uh"])
    Yl = evaluate(case["yl"], case["ul"])
    yh = dict(case["yh"], scale=sc)
    lf_like = evaluate(dict(case["yl"], e=[0.0] * len(case["uh"])), case["uh"])
    Yh = case["rel"] * lf_like + evaluate(yh, case["uh"])
    if np.std(Yh) < 1e-3 * sc:
        Yh = Yh + sc * np.linspace(0, 1, len(Yh)).reshape(-1, 1) ** 2
    return Xh, ints_of(case, Yh, sc), Xl, ints_of(case, Yl, sc)


def mf_stub(case):
    lf = list(case["theta_l"]) + ([case["noise_l"]] if case["noise"][0] == "est" else [])
    if case["model"] == "ck":
        hf = [case["rho"]] + ([case["noise"][1]] if case["noise"][0] == "est" else []) + list(case["theta"])
    else:
        hf = list(case["theta"]) + ([case["noise"][1]] if case["noise"][0] == "est" else [])
    return Stub([lf, hf])


CLS = {"hk": HierarchicalKriging, "sk": ScaledKriging, "ck": CoKriging}


def build_mf(case, optimizer, s, **kw):
    args = dict(design_space=np.array(case["space"], float), optimizer=optimizer,
                noise_prior=noise_prior(case["noise"], s))
    args.update(kw)
    return CLS[case["model"]](**args)


def trained_mf(case, **kw):
    Xh, Yh, Xl, Yl = mf_arrays(case)
    stub = mf_stub(case)
    m = sut(build_mf, case, stub, float(Yh.std()), **kw)
    sut(m.train, [Xh.copy(), Xl.copy()], [Yh.copy(), Yl.copy()])
    return m, stub, Xh, Yh, Xl, Yl


def clipped(theta, lo=-2.0, hi=3.0):
    return np.clip(theta, lo, hi)


class RefMF:
    """Reference hierarchical, scaled and co-Kriging in original units."""

    def __init__(self, case, Xh, Yh, Xl, Yl, w=Wobble()):
        self.case, self.kind, self.w = case, case["model"], w
        mode, val = case["noise"]
        sh = Yh.std()
        self.space = np.asarray(case["space"], float)
        tl, th = clipped(case["theta_l"]), clipped(case["theta"])
        self.mh, self.sh = Yh.mean(), sh
        std_l = (self.mh, sh) if self.kind == "ck" else (Yl.mean(), Yl.std())
        noise_l = {"free": 0.0, "known": val * sh, "est": case["noise_l"] * std_l[1]}[mode]
        self.lf = RefGP(case["space"], Xl, Yl, tl, noise_l, standard=std_l, w=w)
        n = len(Xh)
        self.Uh = self.lf.unit(Xh)
        lfh = self.lf.predict(Xh)[0]
        if self.kind == "sk":
            self.rho = case.get("sk_rho", 1.0)
            disc = Yh - self.rho * lfh
            if disc.std() < 1e-6 * (abs(lfh).max() + abs(Yh).max()):
                raise Inconclusive()
            noise_d = {"free": 0.0, "known": val * sh, "est": val * disc.std()}[mode]
            self.disc = RefGP(case["space"], Xh, disc, th, noise_d, w=w)
            self.noise = noise_d
            return
        self.noise = {"free": 0.0, "known": val * sh, "est": val * sh}[mode]
        self.theta = th
        K = w.sym(kern(self.Uh, self.Uh, th) + np.eye(n) * (JIT + (self.noise / sh) ** 2), th)
        ys = w.vec((Yh - self.mh) / sh)
        ld = (lfh - self.mh) / sh
        if self.kind == "hk":
            self.k = Krig(K, ld, ys)
            return
        rho = float(np.clip(case["rho"], *case.get("rho_bound", (1e-2, 1e2))))
        self.rho = rho
        d = Krig(K, np.ones((n, 1)), ys - rho * ld)
        self.d, self.s2d, self.s2l = d, d.sigma2, self.lf.k.sigma2
        Ul, Uh = self.lf.U, self.Uh
        self.tl = tl
        kl = lambda a, b: kern(a, b, tl)
        X = rho * self.s2l * w.cross(kl(Ul, Uh))
        C = np.block([[self.s2l * self.lf.Kn, X], [X.T,
                      w.sym(rho ** 2 * self.s2l * (kl(Uh, Uh) + JIT * np.eye(n)) + self.s2d * K, tl)]])
        C = C + np.eye(len(C)) * JIT
        self.C = Krig(C, np.ones((len(C), 1)), np.vstack([self.lf.ys, ys]))

    def predict(self, X):
        """mean and std"""
        U, w = self.lf.unit(X), self.w
        if self.kind == "sk":
            m1, s1 = self.lf.predict(X)
            m2, s2 = self.disc.predict(X)
            return self.rho * m1 + m2, np.sqrt(self.rho ** 2 * s1 ** 2 + s2 ** 2)
        if self.kind == "hk":
            f = (self.lf.predict(X)[0] - self.mh) / self.sh
            mean, var = self.k.post(w.cross(kern(self.Uh, U, self.theta)), f)
            return mean * self.sh + self.mh, np.sqrt(var * self.sh ** 2 + self.noise ** 2)
        rho, s2l, s2d, G = self.rho, self.s2l, self.s2d, self.C
        kl = lambda a: w.cross(kern(a, U, self.tl))
        c = np.vstack([rho * s2l * kl(self.lf.U),
                       rho ** 2 * s2l * kl(self.Uh) + s2d * w.cross(kern(self.Uh, U, self.theta))])
        mean = G.beta.item() + c.T @ G.gamma
        var = rho ** 2 * s2l + s2d - (c * cho_solve(G.c, c)).sum(0)
        var = np.maximum(var, 0).reshape(-1, 1)
        return mean * self.sh + self.mh, np.sqrt(var * self.sh ** 2 + self.noise ** 2)
