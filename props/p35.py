"""P35 nothing the caller passes in is modified."""
import numpy as np
from hypothesis import strategies as st

from vlib import bo, doe, ea, fakes as fk, gen, models as md, problems as pr
from vlib.core import Inconclusive, Law, check, quiet, sut
from vlib.guard import Guard

from mfpml.models.kernels import RBF
from mfpml.optimization import mf_acqusitions as mfa
from mfpml.optimization import sf_cons_acqusitions as sca
from mfpml.optimization import sf_uncons_acqusitions as sfa


def layout(a, how):
    """The same values in another memory layout or type."""
    a = np.asarray(a, float)
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "view":                       # a strided view of a bigger array
        big = np.full((2 * len(a), *a.shape[1:]), 7.5)
        big[::2] = a
        return big[::2]
    return a.copy()


layouts = st.sampled_from(["plain", "plain", "fortran", "view"])


def add(g, name, a):
    """Guard an array and, for a view, all of the array behind it."""
    if isinstance(a, np.ndarray) and isinstance(a.base, np.ndarray):
        g.add(f"the array behind {name}", a.base)
    return g.add(name, a)


def numeric(fn, *a, **k):
    """Trainings may run into a singular matrix."""
    with quiet():
        try:
            return fn(*a, **k)
        except np.linalg.LinAlgError:
            raise Inconclusive()


# ---------------------------------------------------------------- samplers
@st.composite
def sampler_cases(draw):
    sf = draw(doe.sf_case(("lhs", "random", "sobol", "fix"), draws=3))
    mf = draw(doe.mf_case(draws=3, d_max=3, max_n=20))
    return {"sf": sf, "mf": mf, "more": draw(st.lists(st.sampled_from(["sf", "mf"]), min_size=2, max_size=6)),
            "tuples": draw(st.booleans())}


def law_samplers(case, rec):
    g = Guard()
    sf, mf = case["sf"], case["mf"]
    dom_sf = g.add("the design space", doe.space_array(sf))
    dom_mf = g.add("the design spaces", doe.mf_domain(mf))
    s, m, outs = None, None, 0
    for i, what in enumerate(case["more"]):
        if what == "sf":
            if s is None or i % 2:
                s = sut(doe.make_sf, sf["kind"], dom_sf, sf)
                g.verify("building a sampler")
            n, seed = sf["draws"][i % len(sf["draws"])]
            x = sut(s.get_samples, n, seed=seed)
            g.verify(f"{sf['kind']} sampling")
        else:
            if m is None or i % 2:
                m = sut(doe.make_mf, mf, dom_mf)
                g.verify("building a multi-fidelity sampler")
            sizes, seed = mf["draws"][i % len(mf["draws"])]
            x = sut(m.get_samples, g.add("the list of sizes", list(sizes)), seed=seed)
            g.verify(f"multi-fidelity {mf['kind']} sampling")
            x = x[0]
        if isinstance(x, np.ndarray) and x.flags.writeable:
            x[...] = 77                     # what is returned belongs to the caller
            g.verify("writing into the returned samples")
            outs += 1
    rec.label(sf["kind"], "mf " + mf["kind"], "nested" if mf["nested"] else "free", "list" if mf["as_list"] else "array")
    rec.nontrivial(len(set(case["more"])) == 2)


# ---------------------------------------------------------------- problems
@st.composite
def problem_cases(draw):
    case = draw(pr.pick())
    case["u"] = draw(pr.unit_points(case["d"], 1, 6))
    case["layout"] = draw(layouts)
    case["calls"] = draw(st.lists(st.integers(0, 9), min_size=2, max_size=6))
    case["sampler"] = draw(st.sampled_from(["lhs", "random", "sobol"]))
    case["seed"] = draw(gen.seeds)
    return case


def law_problems(case, rec):
    spec = pr.BY_NAME[case["name"]]
    p = sut(pr.build, case)
    g = Guard()
    g.meta(case["name"], p)
    funcs = [k for k in spec.fids] + (["f_cons"] if spec.cons else [])
    x = add(g, "the points", layout(pr.to_domain(case["u"], spec.domain(case["d"])), case["layout"]))
    for c in case["calls"]:
        k = funcs[c % len(funcs)]
        y = sut(getattr(p, k), x)
        g.verify(f"{case['name']}.{k}")
        if isinstance(y, np.ndarray) and y.flags.writeable:
            y[...] = 77                     # the values belong to the caller
            g.verify(f"writing into the values of {case['name']}.{k}")
    dom = getattr(p, "input_domain", None)
    if isinstance(dom, np.ndarray):
        s = sut(doe.make_sf, case["sampler"], dom, {"skip": None})
        x2 = sut(s.get_samples, 4, seed=case["seed"])
        g.verify("sampling the input domain")
        sut(getattr(p, funcs[0]), x2)
        g.verify(f"{case['name']}.{funcs[0]}")
    rec.label(case["name"], case["layout"])


# ---------------------------------------------------------------- models
@st.composite
def model_cases(draw):
    kind = draw(st.sampled_from(["gp", "hk", "sk", "ck"]))
    case = draw(md.gp_case(n_max=9, d_max=2) if kind == "gp" else md.mf_case(kinds=(kind,), nl_max=8, nh_max=5))
    case["kind"] = kind
    case["layout"] = draw(layouts)
    case["q"] = draw(md.queries(case["d"]))
    case["ops"] = draw(st.lists(st.sampled_from(["train", "predict", "std", "lf", "lf std", "twin", "corr"]),
                                min_size=2, max_size=7))
    case["builtin"] = draw(st.integers(0, 7)) == 0
    case["box"] = draw(st.sampled_from([[-2.0, 3.0], [-2.0, 3.0], [-1, 6], [-4.0, 8.0], [-2, 5]]))
    case["sk_opt"] = draw(st.sampled_from(["no", "error", "bumpiness", "disc"])) if kind == "sk" else "no"
    case["flat_q"] = draw(st.booleans())
    case["batch"] = draw(st.sampled_from([300, 2500])) if draw(gen.rare(8)) else 0
    return case


def law_models(case, rec):
    g = Guard()
    kind, d = case["kind"], case["d"]
    space = g.add("the design space", np.array(case["space"], float))
    Q = md.points_of(case, case["q"])
    if case.get("batch"):
        Q = np.resize(Q, (case["batch"], d))
    Q = add(g, "the prediction points", layout(Q, case["layout"]))
    box = g.add("the kernel bounds", list(case["box"]))
    theta0 = g.add("the initial kernel parameters", np.zeros(d))

    def kernel():                           # training sets its parameters, but its search bounds stay
        k = sut(RBF, theta=theta0, bounds=box)
        g.add("the search bounds of the kernel", np.asarray(k.bounds)) if hasattr(k, "bounds") else None
        return k

    if kind == "gp":
        X, Y = md.gp_arrays(case)
        X = add(g, "the samples", layout(X, case["layout"]))
        Y = add(g, "the responses", Y.ravel().copy() if case["flat_y"] else layout(Y, case["layout"]))
        ref = md.ref_gp(case, np.array(X), np.array(Y)) if not case["builtin"] else None
        data = (X, Y)

        def make():
            opt = None if case["builtin"] else md.Stub([md.stub_params(case)])
            kw = dict(kernel=kernel()) if case["bounds"] is None else {}
            return md.build_gp(case, opt, float(np.std(Y)), design_space=space, optimizer_restart=1, **kw)
    else:
        Xh, Yh, Xl, Yl = md.mf_arrays(case)
        if not case["builtin"]:
            md.RefMF(case, Xh, Yh, Xl, Yl)
        s = float(Yh.std())
        parts = [add(g, n, layout(a, case["layout"])) for n, a in
                 (("the high-fidelity samples", Xh), ("the low-fidelity samples", Xl),
                  ("the high-fidelity responses", Yh), ("the low-fidelity responses", Yl))]
        data = (g.add("the list of samples", parts[:2]), g.add("the list of responses", parts[2:]))
        rb = g.add("the bounds of the scale factor", [0.05, 9.0])

        def make():
            opt = None if case["builtin"] else md.mf_stub(case)
            kw = dict(design_space=space, kernel_bound=box, optimizer_restart=1)
            if kind == "sk":
                if case["sk_opt"] == "disc":
                    from mfpml.models.gaussian_process import GaussianProcessRegression as GP
                    kw["disc_model"] = GP(design_space=space, kernel=kernel(),
                                          optimizer=md.Stub([list(case["theta"])]), noise_prior=0.0)
                elif case["sk_opt"] != "no":
                    kw.update(rho_optimize=True, rho_method=case["sk_opt"], rho_bound=rb,
                              rho_optimizer=md.Stub([[case["rho"]]]))
            if kind == "ck":
                kw["rho_bound"] = rb
            return md.build_mf(case, opt, s, **kw)

    m = sut(make)
    g.verify(f"building {kind}")
    rec.stat("operations", len(case["ops"]))
    seen, tol = {}, 1e-6 if case["builtin"] else 1e-9

    def train(model, what):
        np.random.seed(11)
        numeric(model.train, *data)
        g.verify(what)
        out = sut(model.predict, Q, return_std=True)
        g.verify(f"predict of {kind}")
        for k, v in zip(("mean", "std"), out):
            v = np.array(v, float)
            if k in seen:                   # the same objects give the same model again
                a = seen[k]
                check(v.shape == a.shape and np.allclose(v, a, rtol=tol, atol=tol * (1e-300 + np.abs(a).max())),
                      f"reusing the objects gives another {k} ({kind})", first=a, again=v)
            seen[k] = v

    train(m, f"train of {kind}")
    for op in case["ops"]:
        if op == "train":
            if kind != "gp" and not case["builtin"] and hasattr(m, "lfGP"):
                for o in (getattr(m, "optimizer", None), getattr(m.lfGP, "optimizer", None)):
                    if isinstance(o, md.Stub):
                        o.calls.clear()
            train(m, f"retraining of {kind}")
        elif op == "twin":                  # another model on the same objects
            t = sut(make)
            g.verify(f"building {kind}")
            train(t, f"train of another {kind}")
        elif op == "predict":
            y = sut(m.predict, Q)
            g.verify(f"predict of {kind}")
            if isinstance(y, np.ndarray) and y.flags.writeable:
                y[...] = 77
        elif op == "std":
            out = sut(m.predict, Q, return_std=True)
            for v in out:
                if isinstance(v, np.ndarray) and v.flags.writeable:
                    v[...] = 77
        elif op in ("lf", "lf std") and kind != "gp":
            sut(m.predict_lf, Q, return_std=op == "lf std")
        elif op == "corr" and kind != "gp":
            for fid in (0, 1):
                sut(m._eval_corr, Q, Q, fid) if hasattr(m, "_eval_corr") else None
        g.verify(f"{op} of {kind}")
    rec.label(kind, case["layout"], case["sk_opt"], "built-in" if case["builtin"] else "prescribed", *case["ops"])
    rec.nontrivial("train" in case["ops"] or "twin" in case["ops"])


# ---------------------------------------------------------------- acquisitions
@st.composite
def acq_cases(draw):
    d = draw(st.integers(1, 2))
    table = draw(fk.table(2, 6, fk.std_pos))
    n = len(table)
    more = lambda: draw(st.lists(st.tuples(fk.mean_v, fk.std_pos), min_size=n, max_size=n))
    return {"d": d, "acq": draw(st.sampled_from(["EI", "PI", "LCB", "CEI", "AEI", "VFEI", "VFLCB", "EPI"])),
            "table": table, "lf": more(), "cons": [more() for _ in range(draw(st.integers(1, 3)))],
            "rows": draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=6)), "layout": draw(layouts),
            "kappa": draw(st.sampled_from([None, [1.0, 0.5], [2.0, 3.0], [1, 2]])),
            "y": draw(st.lists(fk.mean_v, min_size=1, max_size=4)), "cr": draw(st.sampled_from([1.0, 3.0])),
            "fid": draw(st.lists(st.integers(0, 1), min_size=1, max_size=4)), "query": draw(st.booleans()),
            "seed": draw(st.integers(0, 99))}


def law_acqs(case, rec):
    g, d, name = Guard(), case["d"], case["acq"]
    col = lambda t, k: [r[k] for r in t]
    n = len(case["table"])
    tab = fk.MFTable(d, col(case["table"], 0), col(case["table"], 1), case["y"])
    lf = fk.Table(d, col(case["lf"], 0), col(case["lf"], 1))
    pts = np.array([fk.point(i, d) for i in range(n)])
    tab.set_lf(lf, pts[:1], pts[1:])
    cons = g.add("the list of constraint models",
                 [fk.Table(d, col(c, 0), col(c, 1)) for c in case["cons"]])
    for what, t in [("the surrogate", tab), ("the low-fidelity surrogate", lf)] + \
            [("a constraint model", c) for c in cons]:
        g.add(f"{what}'s samples", t.sample_y)
        g.add(f"{what}'s bounds", t.bounds)
    g.add("the high-fidelity samples", tab.sample_xh)
    g.add("the low-fidelity samples", tab.sample_xl)
    kappa = g.add("the weights", case["kappa"])
    x = add(g, "the points", layout(pts[case["rows"]], case["layout"]))
    kw = {} if kappa is None else {"kappa": kappa}
    opt = bo.cheap()
    acq = {"EI": lambda: sfa.EI(optimizer=opt), "PI": lambda: sfa.PI(optimizer=opt),
           "LCB": lambda: sfa.LCB(optimizer=opt, **kw), "CEI": lambda: sca.CEI(optimizer=opt),
           "AEI": lambda: mfa.AugmentedEI(optimizer=opt), "VFEI": lambda: mfa.VFEI(optimizer=opt),
           "VFLCB": lambda: mfa.VFLCB(optimizer=opt, **kw), "EPI": lambda: mfa.ExtendedPI(optimizer=opt)}[name]
    acq = sut(acq)
    fmin = g.add("the current best", np.array([[float(np.min(case["y"]))]]))
    first = {}
    for fid in case["fid"] * 2:
        call = {"CEI": lambda: acq.eval(x, tab, cons),
                "AEI": lambda: acq.eval(x, mf_surrogate=tab, cost_ratio=case["cr"], fidelity=fid),
                "VFEI": lambda: acq.eval(x, fmin=float(fmin[0, 0]), mf_surrogate=tab, fidelity=fid),
                "VFLCB": lambda: acq.eval(x, mf_surrogate=tab, cost_ratio=case["cr"], fidelity=fid),
                "EPI": lambda: acq.eval(x, mf_surrogate=tab, fmin=float(fmin[0, 0]), cost_ratio=case["cr"], fidelity=fid)
                }.get(name, lambda: acq.eval(x, tab))
        v = np.array(sut(call), float)
        g.verify(f"{name}.eval")
        if fid in first:
            check(v.shape == first[fid].shape and np.array_equal(v, first[fid], equal_nan=True),
                  f"{name}: evaluating again changes the values", first=first[fid], again=v)
        first[fid] = v
    if case["query"]:
        np.random.seed(case["seed"])
        tab.bounds[:, 1] -= 0.5 if n > 1 else 0     # the table has n entries
        tab.bounds[:, 1] = np.maximum(tab.bounds[:, 1] - 0.5 * (np.arange(d) == 0), 0.5)
        g = Guard()
        g.add("the surrogate's bounds", tab.bounds)
        g.add("the surrogate's samples", tab.sample_y)
        g.add("the high-fidelity samples", tab.sample_xh)
        g.add("the low-fidelity samples", tab.sample_xl)
        g.add("the list of constraint models", cons)
        g.add("the weights", kappa)
        for c in cons:
            g.add("a constraint model's samples", c.sample_y)
        if name == "CEI":
            sut(acq.query, tab, cons)
        elif name in ("EI", "PI", "LCB"):
            sut(acq.query, tab)
        else:
            sut(acq.query, mf_surrogate=tab, cost_ratio=case["cr"], fmin=float(np.min(case["y"])))
        g.verify(f"{name}.query")
    rec.label(name, case["layout"], "query" if case["query"] else "eval only")


# ---------------------------------------------------------------- optimizers
@st.composite
def ea_cases(draw):
    spec = draw(ea.run_spec(max_gen=6, max_pop=8))
    return {"run": spec, "runs": draw(st.integers(1, 3)),
            "args": draw(st.sampled_from([None, "tuple", "array"])),
            "list": draw(st.booleans()), "new": draw(st.booleans())}


def law_ea(case, rec):
    g, spec = Guard(), case["run"]
    space = np.array(spec["space"], float)
    dom = g.add("the design space", space.copy())
    f = ea.objective(spec["obj"], space[:, 0], space[:, 1] - space[:, 0])
    extra = {"tuple": (3.0,), "array": (np.array([3.0, 4.0]), [1.0])}.get(case["args"], ())
    g.add("the extra arguments", extra)
    for a in extra:
        g.add("an extra argument", a)
    table = []

    def fn(x, *a):                          # hands out arrays it keeps
        y = f(np.array(x)).reshape(-1, 1)
        g.add("the returned values", y)
        table.append(y)
        return y

    opt = sut(ea.make, spec)
    kw = {"args": extra} if extra else {}
    stop = ea.threshold(spec, f, space)
    if stop is not None:
        kw["stopping_error"] = stop
    first = None
    for i in range(case["runs"]):
        if case["new"] and i:
            opt = sut(ea.make, spec)
        np.random.seed(spec["seed"])
        res, y, x = sut(opt.run_optimizer, fn, spec["d"], dom, **kw)
        g.verify(f"{spec['algo']}")
        got = (np.array(x, float).ravel(), np.array(y, float).ravel())
        if first is not None:
            check(np.array_equal(got[0], first[0]) and np.array_equal(got[1], first[1]),
                  "reusing the objects gives another result", first=list(first), again=list(got))
        first = got
        if isinstance(x, np.ndarray) and x.flags.writeable:
            x[...] = 77                     # the result belongs to the caller
            g.verify("writing into the result")
    rec.label(spec["algo"], str(case["args"]), f"{case['runs']} runs", "stop" if stop is not None else "no stop")
    rec.nontrivial(len(table) > 2)


# ---------------------------------------------------------------- optimizations
@st.composite
def bo_cases(draw):
    kind = draw(st.sampled_from(["uncons", "cons", "mf"]))
    case = draw(bo.bo_case(kind, n_iter=3))
    case["reuse"] = False                   # here every array is its own
    case["steps"] = draw(st.lists(st.integers(1, 2), min_size=1, max_size=2))
    return case


def law_bo(case, rec):
    g = Guard()
    ses = bo.Session(case, watch=False)
    # the guarded objects were handed over by the session
    p = ses.problem
    dom = np.array(case["space"], float)
    check(np.array_equal(np.asarray(p.input_domain), dom), "building the optimization modifies the input domain",
          now=p.input_domain, was=dom)
    check(list(p.cost_ratio) == [1.0, 0.2], "building the optimization modifies the cost ratio", now=p.cost_ratio)
    if case["kind"] == "mf":
        check(ses.num_init == [case["n"], case["nl"]], "building the optimization modifies the list of initial sizes",
              now=ses.num_init)
        g.add("the list of initial sizes", ses.num_init)
    g.meta("the problem", p)
    ask = ses.acq.query

    def query(*a, **k):
        out = ask(*a, **k)
        x = out[0] if case["kind"] == "mf" else out
        if isinstance(x, np.ndarray):
            g.add("the queried point", x)
        g.verify("an iteration")
        return out

    ses.acq.query = query
    for name in ("f", "f_cons", "hf", "lf"):
        def keep(x, fn=getattr(p, name), name=name):
            y = fn(x)
            return g.add(f"the values returned by {name}", y)
        setattr(p, name, keep)
    for k in case["steps"]:
        ses.run(k)
        g.verify("run_optimizer")
    rec.label(case["kind"], "real acquisition" if case["real"] is not None else "scripted")
    rec.nontrivial(ses.iterations > 0)


LAWS = [
    Law("samplers", sampler_cases, law_samplers, 400, shards=2, rule="both kinds of samplers are used"),
    Law("problems", problem_cases, law_problems, 500, shards=2),
    Law("models", model_cases, law_models, 500, shards=3, rule="objects are reused for another training"),
    Law("acquisitions", acq_cases, law_acqs, 500, shards=2),
    Law("optimizers", ea_cases, law_ea, 400, shards=2, rule="several evaluations"),
    Law("optimization", bo_cases, law_bo, 60, thorough=1200, shards=6, rule="at least one iteration"),
]
ASSUMPTIONS = ["Arrays may be C-ordered, Fortran-ordered or strided views; a modification is any change of values, type, shape, order or length.",
               "Model and kernel objects handed over (not arrays, lists or bounds) may be trained."]
