"""Hypothesis strategies of plain-JSON values shared by the properties."""
import numpy as np
from hypothesis import strategies as st

seeds = st.one_of(st.integers(0, 50), st.integers(0, 2**31 - 10),
                  st.sampled_from([0, 1, 1996, 123456]))


def rare(k=12):
    """True in about one of k cases."""
    return st.integers(0, k - 1).map(lambda i: i == k - 1)


def _bound(kind, a, w):
    if kind == "unit":
        return [0.0, 1.0]
    if kind == "int":
        return [a, a + w]
    if kind == "eighth":
        return [a / 8, a / 8 + w / 8]
    if kind == "tiny":
        return [a * 1e-6, a * 1e-6 + w * 1e-6]
    if kind == "huge":
        return [a * 1e5, a * 1e5 + w * 1e5]
    if kind == "offset":
        return [1000.0 + a, 1000.0 + a + w / 4]
    if kind == "dec":
        return [a / 10, a / 10 + w / 10]
    raise ValueError(kind)


@st.composite
def bound(draw, kinds=("unit", "int", "eighth", "tiny", "huge", "offset", "dec")):
    kind = draw(st.sampled_from(kinds))
    a = draw(st.integers(-40, 40))
    w = draw(st.integers(1, 60))
    return _bound(kind, a, w)


def space(d_min=1, d_max=4, kinds=("unit", "int", "eighth", "tiny", "huge",
                                   "offset", "dec")):
    return st.integers(d_min, d_max).flatmap(
        lambda d: st.lists(bound(kinds), min_size=d, max_size=d))


def space_d(d, kinds=("unit", "int", "eighth", "offset", "dec")):
    return st.lists(bound(kinds), min_size=d, max_size=d)


def wide_space(d_min=7, d_max=24):
    """A space of many dimensions, from a seed."""
    def make(d, seed):
        rng = np.random.default_rng(seed)
        kinds = ("unit", "int", "eighth", "tiny", "huge", "offset", "dec")
        return [_bound(kinds[rng.integers(len(kinds))], int(rng.integers(-40, 41)), int(rng.integers(1, 61)))
                for _ in range(d)]
    return st.builds(make, st.integers(d_min, d_max), st.integers(0, 9999))


def strat_points(n, d, fine=8):
    """n points in the unit cube, one per stratum in every dimension (as
    integer numerators over n*fine), hence pairwise separated."""
    return st.lists(
        st.tuples(st.permutations(range(n)),
                  st.lists(st.integers(1, fine - 1), min_size=n, max_size=n)),
        min_size=d, max_size=d).map(
            lambda cols: [[(cols[k][0][i] * fine + cols[k][1][i]) / (n * fine)
                           for k in range(d)] for i in range(n)])


def seeded_points(n, d, seed, fine=8):
    """strat_points of many points, from a seed"""
    rng = np.random.default_rng(seed)
    cols = [(rng.permutation(n) * fine + rng.integers(1, fine, n)) / (n * fine) for _ in range(d)]
    return np.column_stack(cols).tolist()


def grid_points(n, d, den=64):
    """n points of the unit cube on a grid (may repeat, corners included)."""
    return st.lists(st.lists(st.integers(0, den).map(lambda i: i / den),
                             min_size=d, max_size=d), min_size=n, max_size=n)


def values(n, lo=-40, hi=40, den=4):
    """n responses on a grid, not all equal."""
    return st.lists(st.integers(lo, hi), min_size=n, max_size=n).map(
        lambda v: [x / den for x in ([v[0] + 1] + v[1:] if len(set(v)) == 1 else v)])
