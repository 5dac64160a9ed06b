"""P36 PSO and DE move by their defining rules."""
import numpy as np
from hypothesis import strategies as st
from scipy.stats import kstest

from vlib import ea
from vlib.core import Inconclusive, Law, check, sut

SMOOTH = ("sphere", "linear", "ripple", "abs", "saddle", "cliff")


@st.composite
def spec(draw, algos, **kw):
    case = draw(ea.run_spec(**kw))
    case["algo"] = draw(st.sampled_from(algos))
    case["obj"]["kind"] = draw(st.sampled_from(SMOOTH))
    case["obj"]["w"] = [w or 1 for w in case["obj"]["w"]]
    if case["algo"] == "pso":
        case["pars"] = {"weight": draw(st.sampled_from([0.0, 0.3, 0.5, 0.8, 1.0, 2.0])),
                        "cognition_rate": draw(st.sampled_from([0.0, 0.25, 0.5, 1.5, 3.0])),
                        "social_rate": draw(st.sampled_from([0.0, 0.25, 0.75, 1.5, 3.0])),
                        "max_velocity_rate": draw(st.sampled_from([0.02, 0.1, 0.2, 0.5, 1.0, 2.0]))} \
            if draw(st.integers(0, 4)) else {}
    else:
        case["pop"] = max(3, case["pop"])
        if case["algo"] == "de/rand" and case["pop"] > 20:      # all mutants are enumerated
            case["pop"] = 8 + case["pop"] % 6
        if case["pop"] > 150:
            case["pop"] = 60 + case["pop"] % 90
        case["pars"] = {"step_size": draw(st.sampled_from([0.1, 0.3, 0.5, 0.8, 1.0, 2.0])),
                        "crossover_rate": draw(st.sampled_from([0.0, 0.1, 0.5, 0.9, 1.0]))} \
            if draw(st.integers(0, 4)) else {}
    return case


def judged(run):
    """Best points so far of every individual and of all; ties not judged."""
    X = [x for x, _ in run.calls]
    Y = [np.ravel(y) for _, y in run.calls]
    ax, ay = np.vstack(X), np.concatenate(Y)
    _, first, inv = np.unique(ay, return_index=True, return_inverse=True)
    if not np.array_equal(ax, ax[first[np.ravel(inv)]]):
        raise Inconclusive()                # different points of equal value
    own_x, own_y, best = [X[0]], [Y[0]], []
    for g in range(len(X)):
        if g:
            b = Y[g] < own_y[-1]
            own_x.append(np.where(b[:, None], X[g], own_x[-1]))
            own_y.append(np.where(b, Y[g], own_y[-1]))
        best.append(own_x[-1][np.argmin(own_y[-1])])
    return X, Y, own_x, best


# ---------------------------------------------------------------- particles
def law_swarm(case, rec):
    opt = sut(ea.make, case)
    run = ea.Run(opt, case)
    p = dict(weight=0.8, cognition_rate=1.5, social_rate=1.5, max_velocity_rate=0.2, **{})
    p.update(case["pars"])
    X, _, own, best = judged(run)
    lo, hi = run.space[:, 0], run.space[:, 1]
    w = hi - lo
    vmax = p["max_velocity_rate"] * w
    tol = 1e-9 * w + 1e-12 * np.maximum(abs(lo), abs(hi))
    vl, vh = np.broadcast_to(-vmax, X[0].shape), np.broadcast_to(vmax, X[0].shape)
    exact = left = 0
    for g in range(len(X) - 1):
        x, y = X[g], X[g + 1]
        pull = p["cognition_rate"] * (own[g] - x) + p["social_rate"] * (best[g] - x)
        a = np.clip(p["weight"] * vl + pull, -vmax, vmax)
        b = np.clip(p["weight"] * vh + pull, -vmax, vmax)
        d = y - x
        moved = (d >= a - tol) & (d <= b + tol)
        under = a <= lo - x + tol           # a velocity that leaves below is possible
        over = b >= hi - x - tol
        bad = ~(moved | under | over)
        if bad.any():
            i, k = (int(v) for v in np.argwhere(bad)[0])
            check(False, f"particle {i} does not move by its velocity in dimension {k} of generation {g + 1}",
                  moved=float(d[i, k]), velocity=[float(a[i, k]), float(b[i, k])], width=float(w[k]))
        exact += int(((b - a <= 4 * tol) & moved & ~under & ~over).sum())
        left += int((~moved).sum())
        inf = np.inf
        nl = np.minimum.reduce([np.where(moved, d, inf), np.where(under, a, inf),
                                np.where(over, np.maximum(a, hi - x - tol), inf)])
        nh = np.maximum.reduce([np.where(moved, d, -inf), np.where(over, b, -inf),
                                np.where(under, np.minimum(b, lo - x + tol), -inf)])
        vl, vh = np.minimum(nl, nh), np.maximum(nl, nh)
    rec.label("put back" if left else "inside", *([f"{k}=0" for k, v in p.items() if v == 0]))
    rec.stat("moves judged exactly", exact)
    rec.nontrivial(exact >= 4)


# ---------------------------------------------------------------- differential evolution
def law_trials(case, rec):
    run = ea.Run(sut(ea.make, case), case)
    p = dict(step_size=0.5, crossover_rate=0.5)
    p.update(case["pars"])
    F, cr = p["step_size"], p["crossover_rate"]
    X, Y, _, _ = judged(run)
    n, d = case["pop"], case["d"]
    lo, hi = run.space[:, 0], run.space[:, 1]
    tol = 1e-9 * (hi - lo) + 1e-12 * np.maximum(abs(lo), abs(hi))
    par, val = X[0].copy(), Y[0].copy()
    best_x, best_y = par[np.argmin(val)].copy(), val.min()
    seen, inside = 0, 0
    for g in range(1, len(X)):
        for i in range(n):
            u, others = X[g][i], np.delete(par, i, 0)
            diff = (others[:, None] - others[None]).reshape(-1, d)
            base = others if case["algo"] == "de/rand" else best_x[None]
            V = (base[:, None] + F * diff[None]).reshape(-1, d)
            mut = np.abs(V - u) <= tol
            out = (V < lo + tol) | (V > hi - tol)
            keep = np.abs(u - par[i]) <= tol
            # a dimension that left the space was put back anywhere
            from_v = mut | out
            ok = (from_v | keep).all(1) & from_v.any(1)
            if cr == 1.0:
                ok &= from_v.all(1)
            if cr == 0.0:
                ok &= (~keep).sum() <= 1
            check(bool(ok.any()), f"trial {i} of generation {g} is not a crossover of its parent and a mutant",
                  trial=u, parent=par[i], base="best" if case["algo"] == "de/best" else "member")
            seen += 1
            inside += int(bool((ok & ~out.any(1)).any()))
        better = Y[g] < val
        par = np.where(better[:, None], X[g], par)
        val = np.where(better, Y[g], val)
        if val.min() < best_y:
            best_x, best_y = par[np.argmin(val)].copy(), val.min()
        got = np.asarray(run.results["all_samples"], float)[g]
        check(np.array_equal(got, par), f"the parents after generation {g} are not the better of parent and trial")
    rec.label(case["algo"], f"rate {cr}", f"step {F}")
    rec.stat("trials", seen)
    rec.nontrivial(inside >= 4)


# ---------------------------------------------------------------- randomness
@st.composite
def crowd(draw):
    case = draw(spec(("pso", "de/rand", "de/best"), max_gen=2, stop=False, d_max=7))
    case.update(pop=draw(st.one_of(st.integers(60, 160), st.integers(500, 900))), gen=2, out="column")
    if case["algo"] != "pso":
        case["pars"] = {"step_size": draw(st.sampled_from([0.1, 0.3, 0.5])),
                        "crossover_rate": draw(st.sampled_from([0.0, 0.1, 0.3, 0.5, 0.7, 0.9, 1.0]))}
    return case


def law_random(case, rec):
    run = ea.Run(sut(ea.make, case), case)
    lo, hi = run.space[:, 0], run.space[:, 1]
    U = (run.calls[0][0] - lo) / (hi - lo)
    n, d = U.shape
    for k in range(d):
        p = kstest(U[:, k], "uniform").pvalue
        check(p > 1e-11, f"the initial population is not uniform in dimension {k}", pvalue=p, points=n)
        for j in range(k):
            r = np.corrcoef(U[:, j], U[:, k])[0, 1] * np.sqrt(n)
            check(abs(r) < 7, "the initial population is correlated", r=float(r))
    if case["algo"] != "pso":
        cr = case["pars"]["crossover_rate"]
        prob = cr + (1 - cr) / d
        new = run.calls[1][0] != run.calls[0][0]
        z = abs(new.sum() - prob * new.size) / np.sqrt(new.size * max(prob * (1 - prob), 0) + 1)
        rec.stat("crossover deviation (sigmas)", z)
        check(z < 8, "the crossover rate is not kept", taken=float(new.mean()), want=prob, sigmas=float(z))
        which = new.sum(0)                  # every dimension alike
        z = np.abs(which - prob * n) / np.sqrt(n * max(prob * (1 - prob), 0) + 1)
        check(bool(np.all(z < 8)), "the dimensions do not take part alike", taken=which.tolist(), want=prob * n)
    rec.label(case["algo"], f"{d}-d")


@st.composite
def plots(draw):
    case = draw(ea.run_spec(stop=False, max_gen=8, max_pop=6))
    case["save"] = draw(st.one_of(st.none(), st.sampled_from(["hist.png", "a b.png", "h.svg", ""])))
    case["rerun"] = draw(st.booleans())
    return case


def law_plot(case, rec):
    """The history plot shows the history."""
    import os
    from vlib.figs import figures
    opt = sut(ea.make, case)
    run = ea.Run(opt, case)
    if case["rerun"]:
        run = ea.Run(opt, dict(case, seed=case["seed"] // 2 + 1))
    full = np.array([np.min(y) for _, y in run.calls])
    want = np.minimum.accumulate(full)
    with figures() as made:
        if case["save"] is None:
            sut(opt.plot_optimization_history, save_figure=False)
        elif case["save"] == "":
            sut(opt.plot_optimization_history)
        else:
            sut(opt.plot_optimization_history, figure_name=case["save"], save_figure=True)
        lines = [ln for f in made for ax in f.axes for ln in ax.lines]
        check(len(lines) == 1, "the history plot does not show one line", lines=len(lines))
        x, y = (np.ravel(np.asarray(v, float)) for v in lines[0].get_data())
        check(np.array_equal(x, np.arange(case["gen"] + 1)), "the generations are wrong", got=x)
        check(np.array_equal(y, want), "the plotted values are not the best so far", got=y, want=want)
    made_files = sorted(os.listdir("."))
    if case["save"] is None:
        check(made_files == [], "a file is written without request", files=made_files)
    elif case["save"] == "":
        check(made_files == ["optimization.png"], "the default file name is not used", files=made_files)
    else:
        check(made_files == [case["save"]], "the file is not written under the requested name", files=made_files)
    rec.label(case["algo"], "saved" if case["save"] is not None else "shown")


LAWS = [
    Law("swarm", lambda: spec(("pso",), max_gen=12, max_pop=10), law_swarm, 2000, shards=4,
        rule="at least 4 moves whose velocity is known exactly"),
    Law("trials", lambda: spec(("de/rand", "de/best"), max_gen=8, max_pop=8), law_trials, 1200, shards=4,
        rule="at least 4 trials explained by a mutant inside the design space"),
    Law("random", crowd, law_random, 250, shards=2),
    Law("plot", plots, law_plot, 60, thorough=1500, shards=3),
]
ASSUMPTIONS = ["Runs in which different points have equal values are not judged (the rules leave the choice between them open).",
               "The initial velocity of a particle is only known to respect the limit; the law tracks an interval for it.",
               "A member of the mutation may be drawn twice; only the parent itself may not take part.",
               "Statistical checks alarm beyond 8 standard deviations (p < 1e-11)."]
