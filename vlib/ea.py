"""Generated objectives and recorded runs of the evolutionary optimizers."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Inconclusive, Violation, arr, check, sut

from mfpml.optimization.evolutionary_algorithms import DE, PSO

KINDS = ("sphere", "linear", "const", "steps", "ripple", "abs", "cliff", "saddle", "barrier")


def objective_spec(d):
    frac = st.integers(-4, 20).map(lambda i: i / 16)
    return st.fixed_dictionaries({
        "kind": st.sampled_from(KINDS),
        "c": st.lists(frac, min_size=d, max_size=d),
        "w": st.lists(st.sampled_from([-3, -1, 0, 1, 2, 5]), min_size=d, max_size=d),
        "scale": st.sampled_from([1.0, 1.0, -1.0, 1e6, 1e-6]),
        "shift": st.sampled_from([0.0, 0.0, -7.5, 100.0])})


def objective(spec, lo, width):
    """Deterministic row-wise function of x through unit coordinates."""
    c, w = np.array(spec["c"]), np.array(spec["w"], float)
    k = spec["kind"]

    def f(x):
        u = (np.asarray(x, float) - lo) / width
        t = u - c
        if k == "sphere":
            y = (t * t).sum(1)
        elif k == "linear":
            y = (u * w).sum(1)
        elif k == "const":
            y = np.zeros(len(u))
        elif k == "steps":                  # many exact ties
            y = np.floor(4 * np.abs(t)).sum(1)
        elif k == "ripple":
            y = (t * t + 0.3 * np.cos(9 * u + w)).sum(1)
        elif k == "abs":
            y = np.abs(t).max(1)
        elif k == "cliff":                  # one good corner
            y = np.where((u < 0.25).all(1), -5.0, u.sum(1))
        elif k == "barrier":                # forbidden points are infinitely bad
            y = np.where(u[:, 0] > 0.6, np.inf, (t * t).sum(1))
            return abs(spec["scale"]) * y + spec["shift"]
        else:
            y = (w * t * t).sum(1)
        return spec["scale"] * y + spec["shift"]

    return f


@st.composite
def run_spec(draw, max_gen=10, max_pop=12, stop=True, d_max=4):
    d = draw(st.integers(1, d_max))
    if draw(gen.rare(15)):                  # a large population or many generations
        d = draw(st.integers(1, 10))
        max_pop, max_gen = draw(st.sampled_from([(150, 6), (1200, 4), (20, 60)]))
    algo = draw(st.sampled_from(["pso", "de/rand", "de/best"]))
    rate = st.integers(0, 16).map(lambda i: i / 8)
    pars = {"weight": draw(rate), "cognition_rate": draw(rate), "social_rate": draw(rate),
            "max_velocity_rate": draw(st.sampled_from([0.05, 0.2, 0.5, 1.0, 2.0]))} \
        if algo == "pso" else \
        {"step_size": draw(st.sampled_from([0.1, 0.5, 0.8, 1.0, 2.0])),
         "crossover_rate": draw(st.sampled_from([0.0, 0.1, 0.5, 0.9, 1.0]))}
    if draw(st.booleans()):
        pars = {}
    return {"d": d, "algo": algo, "pars": pars,
            "pop": draw(st.integers(1 if algo == "pso" else 3, max_pop)),
            "gen": draw(st.integers(1, max_gen)),
            "space": draw(gen.space_d(d, ("unit", "int", "eighth", "offset", "tiny", "huge"))),
            "obj": draw(objective_spec(d)),
            "out": draw(st.sampled_from(["column", "flat", "buffer"])),
            "stop": draw(st.one_of(st.none(), st.integers(0, 20).map(lambda i: i / 10)))
            if stop else None,
            "seed": draw(st.integers(0, 2**31 - 1)), "print": draw(gen.rare(6))}


def make(spec):
    if spec["algo"] == "pso":
        return PSO(num_pop=spec["pop"], num_gen=spec["gen"], **spec["pars"])
    name = {"de/rand": "DE/rand/1/bin", "de/best": "DE/best/1/bin"}[spec["algo"]]
    return DE(num_pop=spec["pop"], num_gen=spec["gen"], strategy=name, **spec["pars"])


def threshold(spec, f, space):
    """A stopping value in terms of a sampled distribution of the objective."""
    if spec["stop"] is None:
        return None
    rng = np.random.RandomState(0)
    u = rng.random_sample((200, spec["d"]))
    y = np.sort(f(space[:, 0] + u * (space[:, 1] - space[:, 0])))
    return float(y[int(min(199, spec["stop"] * 20))])


class Run:
    """One recorded run: calls = [(x, y)] copies in order."""

    def __init__(self, opt, spec, transform=None, scale=1.0, args=None, seed=None,
                 on_call=None, **kw):
        space = np.array(spec["space"], float)
        self.space = space * scale
        lo, width = space[:, 0], space[:, 1] - space[:, 0]
        base = objective(spec["obj"], lo, width)
        self.f = base
        self.stop = threshold(spec, base, space)
        self.calls, self.extra = [], []
        buf = np.zeros((spec["pop"], 1))
        n_max = spec["gen"] + 40

        def fn(x, *a, **k):
            check(isinstance(x, np.ndarray), "the objective got something else than an array")
            xc = np.array(x, float)
            if on_call is not None:
                on_call(self, xc)
            y = base(xc / scale if scale != 1.0 else xc)
            if transform is not None:
                y = transform(y)
            self.calls.append((xc, np.array(y)))
            self.extra.append((a, k))
            check(len(self.calls) < n_max, "the objective is called without end")
            if spec["out"] == "flat":
                return y
            if spec["out"] == "buffer" and len(y) == len(buf):
                buf[:, 0] = y
                return buf
            return y.reshape(-1, 1)

        if args is not None:
            kw["args"] = args
        if self.stop is not None:
            kw["stopping_error"] = self.stop
        if spec.get("print"):
            kw["print_info"] = True
        np.random.seed(spec["seed"] if seed is None else seed)
        dom = self.space.copy()
        out = sut(opt.run_optimizer, fn, spec["d"], dom, **kw)
        check(isinstance(out, (tuple, list)) and len(out) == 3 and isinstance(out[0], dict),
              "run_optimizer does not return (results, best_y, best_x)")
        self.raw = out
        self.results, self.best_y, self.best_x = out
        self.best_y = arr(self.best_y, what="best value", finite=False).ravel()
        check(self.best_y.size == 1, "best value is not one number")
        self.best_y = float(self.best_y[0])
        self.best_x = arr(self.best_x, what="best point").ravel()
        check(self.best_x.size == spec["d"], "best point has another dimension")
        check(np.array_equal(dom, self.space), "the design space was modified")

    def full(self):
        return np.concatenate([y for _, y in self.calls])

    def survivors(self, spec):
        """Populations and responses the history should hold, per generation."""
        xs, ys = [], []
        for g, (x, y) in enumerate(self.calls):
            if spec["algo"] == "pso" or g == 0:
                xs.append(x), ys.append(y)
            else:
                better = y < ys[-1]
                xs.append(np.where(better[:, None], x, xs[-1]))
                ys.append(np.where(better, y, ys[-1]))
        return xs, ys
