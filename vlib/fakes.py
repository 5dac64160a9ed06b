"""Fake surrogates with prescribed predictions, and reference acquisitions."""
import numpy as np
from hypothesis import strategies as st
from scipy.special import log_ndtr, ndtr

from vlib.core import arr, check, sut

from mfpml.models.hierarchical_kriging import HierarchicalKriging


# ---------------------------------------------------------------- surrogates
def point(i, d):
    """Point number i of the table: the index sits in the first coordinate."""
    return np.array([float(i)] + [0.25 * ((i + k) % 4) for k in range(1, d)])


class Table:
    """Prediction looked up by the integer in the first coordinate."""

    def __init__(self, d, mean, std, sample_y=(0.0,)):
        self.num_dim = d
        self.table = (np.array(mean, float), np.array(std, float))
        n = max(1, len(mean))
        self.bounds = self.bound = np.array([[0.0, float(n)]] + [[0.0, 1.0]] * (d - 1))
        self.sample_y = np.array(sample_y, float).reshape(-1, 1)
        self.noise = 0.0

    def _look(self, X, tab, return_std):
        X = np.atleast_2d(np.asarray(X, float))
        assert X.shape[1] == self.num_dim, "wrong dimension handed to the surrogate"
        i = np.round(X[:, 0]).astype(int)
        m, s = tab[0][i].reshape(-1, 1).copy(), tab[1][i].reshape(-1, 1).copy()
        return (m, s) if return_std else m

    def predict(self, X, return_std=False):
        return self._look(X, self.table, return_std)


class Fn:
    """Prediction by functions of the unit point."""

    def __init__(self, space, mean, std, sample_y=(0.0,)):
        self.bounds = self.bound = np.array(space, float)
        self.num_dim = len(self.bounds)
        self.fm, self.fs = mean, std
        self.sample_y = np.array(sample_y, float).reshape(-1, 1)
        self.noise = 0.0

    def unit(self, X):
        X = np.atleast_2d(np.asarray(X, float))
        assert X.shape[1] == self.num_dim, "wrong dimension handed to the surrogate"
        return (X - self.bounds[:, 0]) / (self.bounds[:, 1] - self.bounds[:, 0])

    def predict(self, X, return_std=False):
        U = self.unit(X)
        m = self.fm(U).reshape(-1, 1)
        return (m, self.fs(U).reshape(-1, 1)) if return_std else m


class MFMixin:
    """Low fidelity, samples and correlations on top of Table or Fn."""

    corr_scale = (1.0, 0.5)

    def set_lf(self, lf, sample_hf, sample_lf, beta=1.0, corr=1.0, scale=None):
        self.corr_scale = scale or self.corr_scale
        self.lf, self.beta, self.corr_len = lf, beta, corr
        self.sample_xh, self.sample_xl = np.array(sample_hf, float), np.array(sample_lf, float)
        return self

    def predict_lf(self, X, return_std=False):
        return self.lf.predict(X, return_std)

    @property
    def _get_sample_hf(self):
        return self.sample_xh

    @property
    def _get_sample_lf(self):
        return self.sample_xl

    def _eval_corr(self, X, Xp, fidelity=0):
        X, Xp = np.atleast_2d(X), np.atleast_2d(Xp)
        t = self.corr_len * self.corr_scale[fidelity]
        w = self.bound[:, 1] - self.bound[:, 0]
        d2 = (((X[:, None] - Xp[None]) / w) ** 2).sum(-1)
        return np.exp(-t * d2)


class MFTable(MFMixin, Table, HierarchicalKriging):
    """Passes for hierarchical Kriging."""


class MFFn(MFMixin, Fn, HierarchicalKriging):
    pass


# ---------------------------------------------------------------- references
def ei(fmin, m, s):
    """E max(fmin - Y, 0), Y ~ N(m, s), accurate in the tails."""
    m, s = np.broadcast_arrays(np.asarray(m, float), np.asarray(s, float))
    out = np.maximum(fmin - m, 0.0)
    pos = s > 0
    z = np.where(pos, (fmin - m) / np.where(pos, s, 1), 0.0)
    phi = np.exp(-0.5 * z * z) / np.sqrt(2 * np.pi)
    val = s * (phi + z * ndtr(z))
    return np.where(pos, np.maximum(val, 0), out)


def ei_bounds(fmin, m, s, eps):
    """Interval of EI values over the regularisations of the uncertainty (a
    number up to eps added to the standard deviation, where it divides)."""
    m, s = np.asarray(m, float), np.asarray(s, float)
    e = ei(fmin, m, s)
    z = (fmin - m) / (s + eps)
    alt = (fmin - m) * ndtr(z) + s * np.exp(-0.5 * z * z) / np.sqrt(2 * np.pi)
    # cancellation of the two terms
    slack = 1e-9 * np.abs(e) + 4e-16 * (np.abs(fmin - m) * ndtr(z) + s) + 2 * eps * np.exp(-0.5 * z * z)
    fine = s > 1e7 * eps
    # for a usual uncertainty the regularisation is invisible
    slack = np.where(fine, 1e-5 * np.abs(e) + 1e-14 * (s + np.abs(fmin - m) * ndtr(z)), slack)
    return np.minimum(e, alt) - slack, np.maximum(e, alt) + slack


def pi_bounds(fmin, m, s, eps):
    """Interval of P(Y < fmin)."""
    m, s = np.asarray(m, float), np.asarray(s, float)
    d = fmin - m
    with np.errstate(divide="ignore", invalid="ignore"):
        a = ndtr(d / (s + eps))
        b = np.where(s > 0, ndtr(d / np.where(s > 0, s, 1)), (d > 0) * 1.0)
    lo, hi = np.minimum(a, b), np.maximum(a, b)
    zero = (s == 0) & (np.abs(d) < 1e-300)
    lo, hi = np.where(zero, 0, lo), np.where(zero, 1, hi)
    return lo * (1 - 1e-7) - 1e-14, hi * (1 + 1e-7) + 1e-14


def inside(got, lo, hi, what, **detail):
    n = np.size(lo)
    g = arr(got, what=what)
    check(g.size == n, f"{what} gives {g.size} values for {n} points", shape=str(g.shape))
    g = g.ravel()
    ok = (g >= np.ravel(lo)) & (g <= np.ravel(hi))
    if not ok.all():
        i = int(np.argmin(ok))
        check(False, f"{what} is wrong", got=float(g[i]), low=float(np.ravel(lo)[i]),
              high=float(np.ravel(hi)[i]), row=i,
              **{k: (float(np.ravel(v)[i]) if np.size(v) == n else v) for k, v in detail.items()})


# ---------------------------------------------------------------- strategies
mean_v = st.one_of(st.integers(-40, 40).map(lambda i: i / 8),
                   st.floats(-1e3, 1e3, allow_nan=False, width=32))
std_v = st.one_of(st.integers(1, 40).map(lambda i: i / 8), st.sampled_from([0.0, 0.0, 1e-12, 1e-7, 1e-3, 0.01]),
                  st.floats(0, 100, allow_nan=False, width=32))
std_pos = st.one_of(st.integers(1, 40).map(lambda i: i / 8), st.sampled_from([1e-3, 0.01]),
                    st.floats(0.0009765625, 100, allow_nan=False, width=32))


units = st.sampled_from([1.0, 1.0, 1.0, 1e-2, 1e-4, 1e-6, 1e3])


def in_unit(unit, rows):
    """The rows of (mean, std) in another unit of the responses."""
    return [(m * unit, s if s < 1e-6 else s * unit) for m, s in rows]


def table(n_min=1, n_max=7, std=std_v):
    return st.lists(st.tuples(mean_v, std), min_size=n_min, max_size=n_max)


def calls_agree(fn, X, full, what):
    """Values of a batch do not depend on its composition."""
    full = np.ravel(full)
    for i in range(len(X)):
        one = arr(sut(fn, X[i].copy()), what=what)
        check(one.size == 1, f"{what} of a single point gives {one.size} values")
        check(np.isclose(one.ravel()[0], full[i], rtol=1e-9, atol=1e-12),
              f"{what} of a point depends on the batch it is in",
              alone=float(one.ravel()[0]), batch=float(full[i]), row=i)
    k = 37 if len(X) < 30 else 3            # a large batch of the same points, in another order
    big = arr(sut(fn, np.vstack([np.roll(X, j, axis=0) for j in range(k)])), what=what).ravel()
    want = np.concatenate([np.roll(full, j) for j in range(k)])
    check(big.size == want.size and np.allclose(big, want, rtol=1e-9, atol=1e-12),
          f"{what} of a point depends on the batch it is in (large batch)",
          row=int(np.argmax(np.abs(big - want))) if big.size == want.size else None)
