"""P09 recorded optima: in domain, feasible, attained, never beaten."""
import json
import math
import os

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import minimize

from vlib import env, problems as pr
from vlib.core import Law, arr, check, sut, Violation

with open(os.path.join(env.VERIF, "known_findings.json")) as f:
    KNOWN = {k["key"] for k in json.load(f)["findings"] if k["property"] == "P09"}

recorded = lambda s: s.record


def digits(v):
    s = repr(float(v))
    if "e" in s or "." not in s:
        return 16
    return len(s.split(".")[1].rstrip("0"))


def tolerance(opt):
    return 0.5 * 10.0 ** (-digits(opt)) * (digits(opt) > 0) * (digits(opt) < 8) + 1e-6 * (1 + abs(opt))


def record(case):
    spec = pr.BY_NAME[case["name"]]
    p = sut(pr.build, case)
    fn = p.f if spec.f else p.hf
    opt = arr(p.optimum, what=f"optimum of {case['name']}").ravel()
    check(opt.size == 1, f"{case['name']} records no single optimum")
    dom = arr(p.input_domain, (case["d"], 2), f"domain of {case['name']}")
    return spec, p, fn, float(opt[0]), dom


def value(fn, x):
    return float(arr(sut(fn, np.array(x, float).reshape(1, -1)), (1, 1), "value")[0, 0])


def feasible(spec, p, x, slack=0.0):
    if not spec.cons:
        return True
    c = arr(sut(p.f_cons, np.array(x, float).reshape(1, -1)), (1, len(spec.cons)), "constraints")
    return bool(np.all(c <= slack))


@st.composite
def instances(draw):
    return draw(pr.pick(recorded, d_max=draw(st.sampled_from([6, 6, 24]))))


def law_attained(case, rec):
    spec, p, fn, opt, dom = record(case)
    scheme = np.atleast_2d(arr(p.optimum_scheme, what=f"optimum scheme of {case['name']}"))
    check(scheme.shape[1] == case["d"], f"{case['name']} records an optimum of another dimension",
          scheme=scheme)
    tol = tolerance(opt)
    for x in scheme:
        check(bool(np.all((x >= dom[:, 0]) & (x <= dom[:, 1]))),
              f"{case['name']}: the recorded optimum lies outside the domain", x=x)
        check(feasible(spec, p, x, 1e-5), f"{case['name']}: the recorded optimum is infeasible", x=x)
        y = value(fn, x)
        # the printed location is rounded as well: allow for its last digit
        h = 0.5 * 10.0 ** (-min(digits(v) for v in x)) if len(x) else 0
        h = h if h > 1e-10 and any(digits(v) for v in x) and h < 0.01 else 0.0
        slack = 0.0
        if h:
            w = dom[:, 1] - dom[:, 0]
            pts = [np.clip(x + s * h * e, dom[:, 0], dom[:, 1]) for e in np.eye(case["d"])
                   for s in (-1, 1)]
            slack = sum(abs(value(fn, q) - y) for q in pts)
        check(abs(y - opt) <= tol + slack,
              f"{case['name']}: the recorded optimum is {opt!r} but its location evaluates to {y!r}", x=x)
    rec.label(case["name"])


@st.composite
def hunts(draw):
    case = draw(pr.pick(recorded, d_max=4))
    case["u"] = draw(pr.unit_points(case["d"], 1, 12))
    case["near"] = draw(st.lists(st.lists(st.integers(-64, 64), min_size=case["d"], max_size=case["d"]),
                                 max_size=4))
    case["search"] = draw(st.booleans())
    case["seed"] = draw(st.integers(0, 2**31 - 1))
    return case


def law_not_beaten(case, rec):
    spec, p, fn, opt, dom = record(case)
    tol = tolerance(opt)
    w = dom[:, 1] - dom[:, 0]
    x0 = [pr.to_domain(u, dom) for u in case["u"]]
    sch = np.atleast_2d(np.asarray(p.optimum_scheme, float))
    x0 += [np.clip(sch[i % len(sch)] + np.array(v) / 512 * w, dom[:, 0], dom[:, 1])
           for i, v in enumerate(case["near"])]
    rng = np.random.RandomState(case["seed"])
    X = np.vstack(x0 + [dom[:, 0] + rng.random_sample((60, case["d"])) * w])

    def judge(X):
        Y = arr(sut(fn, X), (len(X), 1), "values").ravel()
        ok = np.ones(len(X), bool)
        if spec.cons:
            C = arr(sut(p.f_cons, X), (len(X), len(spec.cons)), "constraints")
            ok = np.all(C <= 0, axis=1)
        for i in np.flatnonzero(ok & (Y < opt - tol)):
            if case["name"] == "Thevenot" and case["d"] >= 2 and "thevenot-product" in KNOWN:
                m, beta = case["pars"].get("m", 5.0), case["pars"].get("beta", 15)
                floor = -2 + math.exp(-(case["d"] - 1) * (2 * math.pi / beta) ** (2 * m))
                if Y[i] >= floor - tol:
                    rec.known.append("thevenot-product")
                    continue
            raise Violation(f"{case['name']}: {Y[i]!r} is below the recorded optimum {opt!r}", x=X[i])
        return np.where(ok, Y, np.inf)

    Y = judge(X)
    if case["search"] and np.isfinite(Y).any():
        start = X[int(np.argmin(Y))]
        visited = []

        def unit(u):
            x = np.clip(dom[:, 0] + np.asarray(u) * w, dom[:, 0], dom[:, 1])
            visited.append(x)
            y = value(fn, x)
            if spec.cons:
                c = arr(sut(p.f_cons, x.reshape(1, -1)), what="constraints").ravel()
                y = y + 1e3 * np.maximum(c + 1e-9, 0).sum()
            return y

        u0 = (start - dom[:, 0]) / w
        r = minimize(unit, u0, method="Nelder-Mead" if spec.cons or case["seed"] % 2 else "L-BFGS-B",
                     bounds=[(0, 1)] * case["d"], options={"maxfev": 250})
        judge(np.array(visited))
        rec.label("local search")
    rec.label(case["name"])
    rec.nontrivial(np.isfinite(Y).sum() >= 2)


LAWS = [
    Law("attained", instances, law_attained, 300, rule="every recorded optimum"),
    Law("not_beaten", hunts, law_not_beaten, 1500, shards=6,
        rule="at least two feasible points are compared with the record"),
]
ASSUMPTIONS = ["The printed precision of an optimum is half a unit of its last digit plus 1e-6 relative; locations may be off by half a unit of their last digit.",
               "A constraint is satisfied when its value is at most zero (1e-5 at a printed location)."]
