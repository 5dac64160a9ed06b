import json
import multiprocessing as mp
import os
import resource
import sys
import time
import traceback
import zlib

from vlib import env
from vlib.core import Rec, run_case, search, case_key

EVID = os.path.join(env.VERIF, "evidence")
REPL = os.path.join(env.VERIF, "replays")
MEM = 6 << 30


def load(pid):
    import importlib
    return importlib.import_module("props." + pid.lower())


def known_findings(pid):
    path = os.path.join(env.VERIF, "known_findings.json")
    with open(path) as f:
        d = json.load(f)
    return {k["key"]: k for k in d["findings"] if k["property"] == pid}


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _worker(pid, idx, seed, n, deadline, out_path, prog_path, conn):
    _limits()
    state = [0.0]

    def progress(name, s):
        with open(prog_path, "w") as f:
            f.write(json.dumps({"law": name}) + "\n" + s)

    try:
        law = load(pid).LAWS[idx]
        res = search(law, seed, n, deadline, progress=progress,
                     shrink_s=float(os.environ.get("VERIF_SHRINK", "60")))
        res["nontrivial"] = sorted(res["nontrivial"])
        res["distinct"] = sorted(res["distinct"])
        with open(out_path, "w") as f:
            json.dump(res, f, default=str)
    except BaseException:
        with open(out_path, "w") as f:
            json.dump(dict(law=str(idx), errors=[dict(case=None, error=traceback.format_exc())]), f)
    sys.stdout.flush()
    os._exit(0)


def write_replay(pid, law, case, msg, detail):
    os.makedirs(REPL, exist_ok=True)
    key, _ = case_key(case)
    path = os.path.join(REPL, f"{pid}-{law}-{key}.json")
    with open(path, "w") as f:
        json.dump(dict(property=pid, law=law, case=case, message=msg,
                       detail=detail), f, indent=1, default=str)
        f.write("\n")
    return path


def corpus(pid):
    d = os.path.join(env.VERIF, "corpus", pid)
    if os.path.isdir(d):
        for n in sorted(os.listdir(d)):
            if n.endswith(".json"):
                with open(os.path.join(d, n)) as f:
                    yield n, json.load(f)


def run(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = load(pid)
    known = known_findings(pid)
    os.makedirs(EVID, exist_ok=True)
    ev_path = os.path.join(EVID, pid + ".json")
    if os.path.exists(ev_path):
        os.remove(ev_path)
    scratch = os.environ["VERIF_SCRATCH"]
    budget = 240.0 if tier == "quick" else 3000.0
    budget = float(os.environ.get("VERIF_BUDGET", budget))
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    only = os.environ.get("VERIF_LAW")
    jobs = []
    for i, law in enumerate(mod.LAWS):
        if only and law.name not in only.split(","):
            continue
        total = law.quick if tier == "quick" else law.thorough
        total = max(1, int(total * scale))
        shards = law.shards if tier == "quick" else max(law.shards, 4)
        shards = max(1, min(shards, total))
        for s in range(shards):
            n = total // shards + (1 if s < total % shards else 0)
            sd = zlib.crc32(f"{pid}/{law.name}/{s}/{seed}".encode())
            jobs.append((i, s, sd, n))
    # saved regression cases first, in this process's child as well
    violations, errors, known_hit = [], [], {}
    laws = {}
    for law in mod.LAWS:
        laws[law.name] = dict(evaluations=0, inconclusive=0, corpus_cases=0,
                              nontrivial=set(), distinct=set(), labels={},
                              stats={}, samples=[], budget_hit=False, cpu_s=0.0)
    by_name = {law.name: law for law in mod.LAWS}
    for name, item in corpus(pid):
        law = by_name.get(item["law"])
        if law is None:
            errors.append(f"corpus {name}: unknown law {item['law']}")
            continue
        rec = Rec()
        status, v = run_case(law, item["case"], rec)
        L = laws[law.name]
        L["corpus_cases"] += 1
        L["evaluations"] += 1
        if status == "violation":
            violations.append((law.name, item["case"], v.msg, v.detail, "corpus"))
        elif status == "error":
            errors.append(rec.error)
        for k in rec.known:
            known_hit[k] = True
    # generated cases
    ctx = mp.get_context("fork")
    ncpu = max(1, min(8, os.cpu_count() or 1, int(os.environ.get("VERIF_JOBS", "8"))))
    deadline = t0 + budget
    running, queue, results = [], list(jobs), []
    while queue or running:
        while queue and len(running) < ncpu:
            i, s, sd, n = queue.pop(0)
            base = os.path.join(scratch, f"job-{i}-{s}")
            p = ctx.Process(target=_worker, args=(
                pid, i, sd, n, deadline, base + ".out", base + ".prog", None))
            p.start()
            running.append((p, i, s, base, time.time()))
        still = []
        for r in running:
            p, i, s, base, ts = r
            if p.is_alive():
                if time.time() > deadline + 400:
                    p.kill()
                still.append(r)
                continue
            p.join()
            law = mod.LAWS[i]
            laws[law.name]["cpu_s"] += time.time() - ts
            if os.path.exists(base + ".out"):
                with open(base + ".out") as f:
                    results.append((i, json.load(f)))
                if os.environ.get("VERIF_FIRST") and results[-1][1].get("failures"):
                    queue.clear()           # development: the first alarm is enough
            elif os.path.exists(base + ".prog"):
                with open(base + ".prog") as f:
                    txt = f.read().split("\n", 1)
                if p.exitcode is not None and p.exitcode < 0 and time.time() <= deadline + 390:
                    violations.append((law.name, json.loads(txt[1]),
                                       f"the process died (signal {-p.exitcode}) in this case",
                                       {}, "crash"))
                else:
                    errors.append(f"worker of {law.name} gave no result ({p.exitcode})")
            else:
                errors.append(f"worker of {law.name} did not start ({p.exitcode})")
        running = still
        if running:
            time.sleep(0.02)
    for i, r in results:
        law = mod.LAWS[i]
        for e in r.get("errors", []):
            errors.append(f"{law.name}: {json.dumps(e.get('case'))[:2000]}\n{e['error']}")
        if "evaluations" not in r:
            continue
        L = laws[law.name]
        L["evaluations"] += r["evaluations"]
        L["inconclusive"] += r["inconclusive"]
        L["nontrivial"].update(r["nontrivial"])
        L["distinct"].update(r["distinct"])
        L["budget_hit"] |= r["budget_hit"]
        for k, v in r["labels"].items():
            L["labels"][k] = L["labels"].get(k, 0) + v
        for k, v in r["stats"].items():
            L["stats"][k] = max(L["stats"].get(k, -1e300), v)
        L["samples"].extend(r["samples"][:2])
        for k in r["known"]:
            known_hit[k] = True
        for f in r["failures"][:1]:
            violations.append((law.name, f["case"], f["msg"], f["detail"], "generated"))
    # report
    seen = set()
    for name, case, msg, detail, src in violations:
        if name in seen:
            continue
        seen.add(name)
        path = write_replay(pid, name, case, msg, detail)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  law {name} ({src}): {msg}")
        c = json.dumps(case)
        print(f"  case: {c if len(c) < 1500 else c[:1500] + '...'}")
        for k, v in detail.items():
            print(f"  {k}: {v}" if k != "traceback" else "  " + str(v).replace("\n", "\n  "))
    for k in sorted(known_hit):
        if k in known:
            print(f"KNOWN-FINDING: property={pid} {known[k]['what']}")
    for e in errors:
        print("HARNESS-ERROR", e, file=sys.stderr)
    samples = []
    for L in laws.values():
        for s in L["samples"][:2]:
            if len(json.dumps(s)) < 1500 and len(json.dumps(samples)) < 24000:
                samples.append(s)
    cov = dict(
        evaluations=sum(L["evaluations"] for L in laws.values()),
        distinct_nontrivial=sum(len(L["nontrivial"]) for L in laws.values()),
        rule="Cases are drawn by Hypothesis from the strategy of each law; per law, a case is non-trivial when: "
             + " | ".join(f"{law.name}: {law.rule or 'every judged case'}" for law in mod.LAWS),
        samples=samples,
        laws={n: dict(evaluations=L["evaluations"], distinct=len(L["distinct"]),
                      distinct_nontrivial=len(L["nontrivial"]),
                      inconclusive=L["inconclusive"], corpus_cases=L["corpus_cases"],
                      budget_hit=L["budget_hit"], worker_s=round(L["cpu_s"], 1),
                      labels=dict(sorted(L["labels"].items(), key=lambda kv: -kv[1])[:40]),
                      worst={k: v for k, v in L["stats"].items()})
              for n, L in laws.items()},
    )
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(time.time() - t0, 2), violations=len(seen))
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    print(f"{pid} {tier} seed={seed}: {cov['evaluations']} cases, "
          f"{cov['distinct_nontrivial']} distinct non-trivial, "
          f"{len(seen)} violated laws, {time.time() - t0:.1f} s")
    if seen:
        return 1
    if errors:
        return 2
    if cov["distinct_nontrivial"] == 0:
        print("HARNESS-ERROR nothing was explored", file=sys.stderr)
        return 2
    return 0


def replay(path):
    with open(path) as f:
        item = json.load(f)
    law = {x.name: x for x in load(item["property"]).LAWS}[item["law"]]
    rec = Rec()
    status, v = run_case(law, item["case"], rec)
    if status == "violation":
        print(f"VIOLATION property={item['property']} replay={path}")
        print(f"  law {law.name}: {v.msg}")
        for k, d in v.detail.items():
            print(f"  {k}: {d}")
        return 1
    if status == "error":
        print(rec.error)
        return 2
    print(f"{item['property']}/{law.name}: {status}")
    return 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "replay":
        sys.exit(replay(os.path.abspath(a[1])))
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(run(a[0].upper(), tier))
