"""P06 saved data round-trips."""
import os
import pickle

import numpy as np
from hypothesis import strategies as st

from vlib import ea, gen
from vlib.core import Law, arr, check, sut
from vlib.doe import make_mf, make_sf, mf_case, sf_case, space_array

names = st.sampled_from(["a", "b", "data", "my run", "x.y", "sub/z"])


@st.composite
def saving(draw):
    kind = draw(st.sampled_from(["sf", "mf"]))
    case = draw(sf_case()) if kind == "sf" else draw(mf_case(max_n=20))
    if kind == "sf" and draw(gen.rare(10)):  # large designs
        case["draws"] = [(n + 6000, seed) for n, seed in case["draws"]]
    script = draw(st.lists(st.one_of(
        st.tuples(st.just("draw"), st.integers(0, 2)),
        st.tuples(st.just("save"), st.one_of(st.none(), names))),
        min_size=1, max_size=8))
    if draw(st.booleans()):                 # draws that differ in one respect only
        req, seed = case["draws"][0]
        other = draw(st.lists(st.sampled_from(["seed", "first", "last", "all"]), min_size=1, max_size=2))
        case["draws"] = [(req, seed)]
        for o in other:
            if o == "seed":
                case["draws"].append((req, seed + draw(st.sampled_from([1, 17, 1000]))))
                continue
            k = draw(st.integers(1, 5))
            if kind == "sf":
                case["draws"].append((req + k, seed))
                continue
            new = list(req)
            for i in {"first": [0], "last": [len(new) - 1], "all": range(len(new))}[o]:
                new[i] = max(1, new[i] - k) if o == "first" else new[i] + k
            case["draws"].append((sorted(new), seed))
        # always saved under the same name
        name = draw(st.one_of(st.none(), names))
        script = [[op, a] if op == "draw" else [op, name] for op, a in script]
        n = len(case["draws"])
        script = [["save", name]] + script + [["draw", n - 1], ["save", name]]
    return {"kind": kind, "case": case, "script": [["draw", 0]] + script + [["save", "last"]]}


def read(path):
    check(os.path.exists(path), f"no file {path!r} was written", present=sorted(os.listdir(".")))
    with open(path, "rb") as f:
        try:
            return pickle.load(f)
        except Exception as e:
            check(False, f"the file {path!r} can not be read back: {e}")


def same(got, want, what):
    if isinstance(want, list):
        check(isinstance(got, (list, tuple)) and len(got) == len(want),
              f"{what} holds another number of fidelities")
        for k, w in enumerate(want):
            same(got[k], w, f"{what}, fidelity {k}")
    else:
        check(isinstance(got, np.ndarray) and got.shape == want.shape and
              np.array_equal(got, want), f"{what} differs from the drawn samples")


def law_save(case, rec):
    c = case["case"]
    os.makedirs("sub", exist_ok=True)
    smp = sut(make_sf, c["kind"], space_array(c), c) if case["kind"] == "sf" else sut(make_mf, c)
    want, expect, saves, draws = None, {}, 0, 0
    for op, a in case["script"]:
        if op == "draw":
            req, seed = c["draws"][a % len(c["draws"])]
            out = sut(smp.get_samples, num_samples=req if case["kind"] == "sf" else list(req),
                      seed=seed)
            want = np.array(out) if case["kind"] == "sf" else [np.array(x) for x in out]
            draws += 1
            continue
        if a is None:
            sut(smp.save_data)
            name = "data" if case["kind"] == "sf" else "mf_data"
        else:
            name = a
            sut(smp.save_data, a)
        expect[name] = want
        saves += 1
        # every file written so far still holds the draw it was saved from
        for n, w in expect.items():
            same(read(n + ".pickle"), w, f"file {n}.pickle")
    rec.label(case["kind"], c["kind"], f"saves={min(saves, 4)}")
    rec.nontrivial(draws >= 2 and saves >= 2)


def steps():
    return ea.run_spec(max_gen=6, max_pop=6)


def law_steps(case, rec):
    opt = sut(ea.make, case)

    def verify(run, n, when):
        d = read("step_results.pickle")
        check(isinstance(d, dict), "the step results are not a record")
        xs, ys = run.survivors(case)
        X = arr(d["all_samples"], (case["gen"] + 1, case["pop"], case["d"]), "saved samples")
        Y = arr(d["all_responses"], (case["gen"] + 1, case["pop"], 1), "saved responses", finite=False)
        for g in range(n):
            check(np.array_equal(X[g], xs[g]), f"{when}: saved population {g} is not the one of the run")
            check(np.array_equal(Y[g, :, 0], ys[g]), f"{when}: saved responses {g} are not those of the run")
        check(np.array_equal(np.asarray(d["design_space"]), run.space), "saved design space differs")
        b = float(np.asarray(d["best_y_historical"]).reshape(-1)[n - 1])
        check(b == min(y.min() for y in ys[:n]), f"{when}: the saved best is not the best so far")

    seen = [0]

    def on_call(run, x):
        n = len(run.calls)
        if n >= 2:                          # saved after every finished generation
            verify(run, n, "during the run")
            seen[0] += 1

    run = ea.Run(opt, case, save_step_results=True, on_call=on_call)
    verify(run, len(run.calls), "after the run")
    rec.label(case["algo"], "stopped early" if len(run.calls) <= case["gen"] else "full run")
    rec.nontrivial(seen[0] >= 1)


LAWS = [
    Law("samplers", saving, law_save, 700, shards=2,
        rule="at least two draws and two saves in the script"),
    Law("optimizer_steps", steps, law_steps, 500, shards=2,
        rule="the step file is read at least once during the run"),
]
ASSUMPTIONS = ["Files are pickle files named <file_name>.pickle and, for the optimizers, step_results.pickle in the working directory (each case runs in its own scratch directory)."]
