"""Mutation sweep (development only): which small changes of the package do the
checks not notice?

    python3 tools/mutate.py OUT.jsonl [--per-file N] [--files a.py,b.py] [--seed S]

Works on copies of /repo/src and of /verif under /tmp; nothing here is used by
the registered checks.
"""
import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

SRC = "/repo/src/mfpml/"
MAP = {
    "design_of_experiment/sf_samplers.py": "P01 P02 P03 P05 P06 P35",
    "design_of_experiment/mf_samplers.py": "P01 P04 P02 P03 P05 P06 P35",
    "problems/functions.py": "P10 P07 P08",
    "problems/sf_functions.py": "P08 P10 P09 P07 P35",
    "problems/sf_cons_functions.py": "P08 P10 P09 P07 P35",
    "problems/mf_functions.py": "P08 P10 P09 P07 P35",
    "models/basis_functions.py": "P11 P14",
    "models/kernels.py": "P12 P14 P13",
    "models/gaussian_process.py": "P14 P13 P15 P16 P19 P20 P35",
    "models/mf_gaussian_process.py": "P17 P13 P18 P19 P20 P24",
    "models/hierarchical_kriging.py": "P17 P13 P18 P19 P20 P35",
    "models/scale_kriging.py": "P21 P17 P13 P18 P19 P20 P35",
    "models/co_kriging.py": "P17 P13 P18 P19 P20 P35",
    "optimization/sf_uncons_acqusitions.py": "P22 P25 P29",
    "optimization/sf_cons_acqusitions.py": "P23 P25 P31",
    "optimization/mf_acqusitions.py": "P24 P25 P30",
    "optimization/evolutionary_algorithms.py": "P27 P26 P28 P36 P06 P35",
    "optimization/sf_uncons_bo.py": "P29 P32 P35",
    "optimization/mf_uncons_bo.py": "P30 P32 P35",
    "optimization/sf_cons_bo.py": "P31 P32 P35",
    "visualization/samplers_visualization.py": "P33",
    "core/data.py": "P34",
}
SKIP_FN = {"print_info", "_print_info", "__print_info", "plot_optimization_history"}


class Site(ast.NodeVisitor):
    """Collects (description, function applying the change to a fresh tree)."""

    def __init__(self):
        self.path, self.sites = [], []

    def walk(self, node, where=()):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)) and node.name in SKIP_FN:
            return
        if isinstance(node, ast.If) and "__main__" in ast.dump(node.test):
            return
        for change in mutations(node):
            self.sites.append((where, change, getattr(node, "lineno", 0)))
        for field, value in ast.iter_fields(node):
            if field in ("annotation", "returns", "decorator_list"):
                continue
            if isinstance(value, list):
                for i, v in enumerate(value):
                    if isinstance(v, ast.AST):
                        self.walk(v, where + ((field, i),))
            elif isinstance(value, ast.AST):
                self.walk(value, where + ((field, None),))


CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt],
       ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.Div: [ast.Mult],
       ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Div]}
NAMES = {"min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "minimum": "maximum",
         "maximum": "minimum", "hstack": "vstack", "vstack": "hstack", "mean": "sum", "sum": "mean",
         "std": "var", "sin": "cos", "cos": "sin", "cdf": "pdf", "pdf": "cdf", "zeros": "ones", "ones": "zeros",
         "floor": "ceil", "ceil": "floor", "all": "any", "any": "all", "sample_xh": "sample_xl", "low_bound": "high_bound"}


def mutations(node):
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for new in CMP.get(type(node.ops[0]), []):
            yield f"{type(node.ops[0]).__name__}->{new.__name__}", lambda n, new=new: n.ops.__setitem__(0, new())
    if isinstance(node, ast.BinOp):
        for new in BIN.get(type(node.op), []):
            yield f"{type(node.op).__name__}->{new.__name__}", lambda n, new=new: setattr(n, "op", new())
    if isinstance(node, ast.BoolOp):
        new = ast.Or if isinstance(node.op, ast.And) else ast.And
        yield "and<->or", lambda n, new=new: setattr(n, "op", new())
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        yield "drop minus", lambda n: setattr(n, "op", ast.UAdd())
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield "drop not", lambda n: (setattr(n, "operand", ast.UnaryOp(ast.Not(), n.operand)))
    if isinstance(node, ast.Constant):
        v = node.value
        if v is True or v is False:
            yield f"{v}->{not v}", lambda n: setattr(n, "value", not n.value)
        elif isinstance(v, (int, float)):
            yield f"{v}->{v + 1}", lambda n: setattr(n, "value", n.value + 1)
            if v not in (0, 1):
                yield f"{v}->{v * 1.01}", lambda n: setattr(n, "value", n.value * 1.01 if isinstance(n.value, float) else n.value - 1)
            if v == 1:
                yield f"{v}->0", lambda n: setattr(n, "value", 0)
    if isinstance(node, ast.Attribute) and node.attr in NAMES:
        yield f"{node.attr}->{NAMES[node.attr]}", lambda n: setattr(n, "attr", NAMES[n.attr])
    if isinstance(node, ast.Name) and node.id in ("min", "max") and isinstance(node.ctx, ast.Load):
        yield f"{node.id}->{NAMES[node.id]}", lambda n: setattr(n, "id", NAMES[n.id])
    if isinstance(node, ast.Attribute) and node.attr == "T":
        yield "drop .T", lambda n: setattr(n, "attr", "real")
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "copy" and not node.args:
        yield "drop copy", lambda n: (n.func.__setattr__("attr", "view"))
    if isinstance(node, (ast.If, ast.While)) :
        yield "negate if", lambda n: setattr(n, "test", ast.UnaryOp(ast.Not(), n.test))
    body = getattr(node, "body", None)
    if isinstance(body, list) and not isinstance(node, (ast.Module, ast.ClassDef)):
        for fld in ("body", "orelse"):
            for i, s in enumerate(getattr(node, fld, []) or []):
                if isinstance(s, (ast.Assign, ast.AugAssign)) or \
                        (isinstance(s, ast.Expr) and not isinstance(s.value, ast.Constant)):
                    yield f"delete: {ast.unparse(s)[:60]}", \
                        lambda n, i=i, fld=fld: getattr(n, fld).__setitem__(i, ast.Pass())
    if isinstance(node, ast.Call) and len(node.args) == 2 and not any(isinstance(a, ast.Starred) for a in node.args):
        yield f"swap args of {ast.unparse(node)[:50]}", lambda n: n.args.reverse()
    if isinstance(node, ast.Call) and node.keywords:
        for i, k in enumerate(node.keywords):
            if k.arg in ("seed", "axis", "args", "replace", "return_std", "fidelity", "cost_ratio"):
                yield f"drop keyword {k.arg}", lambda n, i=i: n.keywords.pop(i)
    if isinstance(node, ast.BinOp) and not isinstance(node.op, ast.Mod):
        yield "left operand only", lambda n: (setattr(n, "right", copy.deepcopy(n.right)), n.__setattr__("op", n.op), setattr(n, "_only", 1))


class Only(ast.NodeTransformer):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        return node.left if getattr(node, "_only", 0) else node


def sites(path):
    tree = ast.parse(open(path).read())
    s = Site()
    s.walk(tree)
    return s.sites


def apply(path, where, change):
    tree = ast.parse(open(path).read())
    n = tree
    for field, i in where:
        n = getattr(n, field) if i is None else getattr(n, field)[i]
    before = ast.unparse(n)[:160]
    change[1](n)
    tree = ast.fix_missing_locations(Only().visit(tree))
    after = ast.unparse(n)[:160] if not getattr(n, "_only", 0) else ast.unparse(n.left)[:160]
    return ast.unparse(tree), before, after


def judge(w, rel, text, props, scale):
    src = f"{w}/src"
    shutil.rmtree(src, ignore_errors=True)
    shutil.copytree("/repo/src", src, ignore=shutil.ignore_patterns("__pycache__"))
    with open(f"{src}/mfpml/{rel}", "w") as f:
        f.write(text)
    env = dict(os.environ, VERIF_REPO_SRC=src, VERIF_JOBS="1", VERIF_SHRINK="0", VERIF_FIRST="1",
               VERIF_SCALE=str(scale), VERIF_BUDGET="150", VERIF_SEED="1")
    codes = {}
    for p in props:
        try:
            r = subprocess.run([f"{w}/verif/check", p, "quick"], env=env, capture_output=True, text=True, timeout=700)
        except subprocess.TimeoutExpired:
            codes[p] = "timeout"
            continue
        if r.returncode == 1 and "VIOLATION" in r.stdout:
            line = [x for x in r.stdout.splitlines() if x.strip().startswith("law ")][:1]
            return p, line[0].strip()[:200] if line else "", codes
        if r.returncode:
            codes[p] = f"rc {r.returncode}: {r.stderr[-300:]}"
    return None, "", codes


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--per-file", type=int, default=40)
    ap.add_argument("--files")
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--scale", type=float, default=0.5)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--lines", help="file:line list to redo")
    a = ap.parse_args()
    rng = random.Random(a.seed)
    todo = []
    for rel, props in MAP.items():
        if a.files and rel not in a.files.split(",") and os.path.basename(rel) not in a.files.split(","):
            continue
        ss = sites(SRC + rel)
        rng.shuffle(ss)
        for where, change, line in ss[:a.per_file]:
            todo.append((rel, props.split(), where, change, line))
    rng.shuffle(todo)
    print(len(todo), "mutants", flush=True)
    pool = Queue()
    root = f"/tmp/mut/{os.getpid()}"
    for k in range(a.workers):
        w = f"{root}/w{k}"
        os.makedirs(w)
        shutil.copytree("/verif", w + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence"))
        pool.put(w)
    out = open(a.out, "a")

    def one(t):
        rel, props, where, change, line = t
        w = pool.get()
        t0 = time.time()
        try:
            text, before, after = apply(SRC + rel, where, change)
            kill, law, codes = judge(w, rel, text, props, a.scale)
            rec = dict(file=rel, line=line, change=change[0], before=before, after=after, killed=kill, law=law,
                       codes=codes, s=round(time.time() - t0))
        except Exception as e:
            rec = dict(file=rel, line=line, change=change[0], error=repr(e))
        finally:
            pool.put(w)
        out.write(json.dumps(rec) + "\n")
        out.flush()

    with ThreadPoolExecutor(a.workers) as ex:
        list(ex.map(one, todo))
    shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    main()
