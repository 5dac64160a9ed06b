"""Developer tool: turn a bug description into seeded/<id>/ and confirm it.

    python3 tools/plant.py SPEC.py [ID ...]     (re)build and confirm
    python3 tools/plant.py --catch [ID ...]     run this property's check
                                                against each planted bug

SPEC.py defines BUGS = {id: dict(property=, file=, edits=[(old, new), ...],
needs=, breaks=, demo=)}.  Everything is done in scratch copies below
/tmp/plant; /repo itself is never touched.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"
BASE = "12ca262"
ENV = dict(os.environ, MPLBACKEND="Agg", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
DEMO_SH = """#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken
here="$(cd "$(dirname "$0")" && pwd)"
export MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
scratch="$(mktemp -d)"
trap 'rm -rf -- "$scratch"' EXIT
cd "$scratch" || exit 3
/opt/venv/bin/python "$here/demo.py"
"""


def sh(cmd, cwd=None, env=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, text=True,
                          capture_output=True, timeout=timeout)


def scratch_copy():
    os.makedirs("/tmp/plant", exist_ok=True)
    d = tempfile.mkdtemp(dir="/tmp/plant")
    sh(["bash", "-c", f"cp -a /repo/. {d}/repo"])
    return d, os.path.join(d, "repo")


def build(bid, spec):
    out = os.path.join(SEEDED, bid)
    d, wt = scratch_copy()
    try:
        edits = spec["edits"]
        if isinstance(edits, list):
            edits = {spec["file"]: edits}
        for rel, eds in edits.items():
            path = os.path.join(wt, "src/mfpml", rel)
            text = open(path).read()
            for old, new in eds:
                n = text.count(old)
                if n != 1:
                    return f"{bid}: edit matches {n} times: {old[:60]!r}"
                text = text.replace(old, new)
            open(path, "w").write(text)
        diff = sh(["git", "diff"], cwd=wt).stdout
        if not diff:
            return f"{bid}: empty"
        # the removed lines come from the original repository
        own = 0
        for rel in edits:
            p = "src/mfpml/" + rel
            bl = sh(["git", "blame", "-s", "HEAD", "--", p],
                    cwd=wt).stdout.splitlines()
            removed = [l[1:] for l in diff.splitlines()
                       if l.startswith("-") and not l.startswith("---")]
            for line in bl:
                sha, rest = line.split(" ", 1)
                code = rest.split(") ", 1)[1] if ") " in rest else ""
                if code in removed and code.strip() and \
                        not sha.lstrip("^").startswith(BASE[:6]) \
                        and not sha.startswith("^"):
                    own += 1
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w").write(
            spec["demo"].lstrip("\n"))
        json.dump({"property": spec["property"], "needs": spec["needs"],
                   "what_it_breaks": spec["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        clean = sh(["bash", os.path.join(out, "demo.sh")], cwd="/repo",
                   timeout=300)
        bad = sh(["bash", os.path.join(out, "demo.sh")], cwd=wt, timeout=300)
        env = dict(ENV, PYTHONPATH=os.path.join(wt, "src"))
        t = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
                "-o", "addopts=", "--timeout=300", "tests"], cwd=wt, env=env,
               timeout=900)
        tests = (t.stdout.strip().splitlines() or ["?"])[-1]
        ok = clean.returncode == 0 and bad.returncode != 0 \
            and t.returncode == 0 and not own
        msg = f"{bid}: {'OK ' if ok else 'BAD'} clean={clean.returncode} " \
              f"patched={bad.returncode} tests={tests} ownlines={own}"
        if not ok:
            msg += "\n   clean: " + clean.stderr[-600:] + \
                   "\n   bad: " + (bad.stdout + bad.stderr)[-600:]
            if t.returncode:
                msg += "\n   tests: " + t.stdout[-900:]
        else:
            msg += "   | " + (bad.stderr.strip().splitlines() or ["-"])[-1]
        return msg
    finally:
        shutil.rmtree(d)


def catch(bid):
    meta = json.load(open(os.path.join(SEEDED, bid, "meta.json")))
    pid = meta["property"]
    d, wt = scratch_copy()
    try:
        vf = os.path.join(d, "verif")
        sh(["bash", "-c",
            f"mkdir {vf}; cd {ROOT}; tar cf - --exclude=.git "
            f"--exclude=seeded --exclude=replays . | tar xf - -C {vf}"])
        r = sh(["git", "apply", os.path.join(SEEDED, bid, "patch.diff")],
               cwd=wt)
        if r.returncode:
            return f"{bid}: patch does not apply {r.stderr}"
        env = dict(ENV, VERIF_SEED=os.environ.get("VERIF_SEED", "1"),
                   VERIF_TIER="quick", VERIF_FIRST="1", VERIF_SHRINK="5",
                   VERIF_REPO_SRC=os.path.join(wt, "src"),
                   VERIF_JOBS=os.environ.get("VERIF_JOBS", "4"))
        import time
        t0 = time.time()
        r = sh(["bash", "-c", f"./check {pid} quick"], cwd=vf, env=env,
               timeout=1500)
        lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        return f"{bid}: {pid} rc={r.returncode} {time.time() - t0:.0f}s " \
               f"{'CAUGHT' if r.returncode == 1 and lines else 'MISSED'} " \
               f"{lines[:1]}" + ("" if r.returncode in (0, 1)
                                 else r.stderr[-500:])
    finally:
        shutil.rmtree(d)


def main():
    args = sys.argv[1:]
    if args[0] == "--catch":
        ids = args[1:] or sorted(os.listdir(SEEDED))
        with ThreadPoolExecutor(int(os.environ.get("PLANT_W", "2"))) as ex:
            for m in ex.map(catch, ids):
                print(m, flush=True)
        return
    bugs = runpy.run_path(args[0])["BUGS"]
    ids = args[1:] or [b for b in bugs
                       if not os.path.exists(os.path.join(SEEDED, b))]
    with ThreadPoolExecutor(int(os.environ.get("PLANT_W", "4"))) as ex:
        for m in ex.map(lambda b: build(b, bugs[b]), ids):
            print(m, flush=True)


if __name__ == "__main__":
    main()
