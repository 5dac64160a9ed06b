"""Laws, recorders and the generated-input search.

A *law* is one executable statement of a property: a Hypothesis strategy of
plain-JSON cases plus a function ``fn(case, rec)`` that runs the code under
test on the case and raises ``Violation`` when the statement is false.
"""
import contextlib
import hashlib
import io
import json
import os
import signal
import sys
import time
import traceback

from vlib import env

import numpy as np


class Violation(AssertionError):
    """The code under test breaks the law on this case."""

    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class Hang(BaseException):
    pass


class StopSearch(KeyboardInterrupt):
    """Leaves Hypothesis (which lets KeyboardInterrupt through)."""


class Inconclusive(Exception):
    """The case cannot be judged (outside the stated numerical domain)."""


def check(cond, msg, **detail):
    if not cond:
        raise Violation(msg, **detail)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def sut(fn, *a, **k):
    """Call the code under test: any exception on a valid input is a violation."""
    with quiet():
        try:
            return fn(*a, **k)
        except (Violation, Inconclusive):
            raise
        except Exception as e:
            tb = "".join(traceback.format_exc().splitlines(True)[-8:])
            raise Violation(f"unexpected {type(e).__name__}: {e}", traceback=tb)


def rejects(fn, *a, **k):
    """True when the code under test refuses the call with an exception."""
    with quiet():
        try:
            fn(*a, **k)
        except (Violation, Inconclusive):
            raise
        except Exception:
            return True
    return False


def arr(x, shape=None, what="result", finite=True):
    """Validate a numeric array coming from the code under test."""
    try:
        a = np.asarray(x, dtype=float)
    except Exception:
        raise Violation(f"{what} is not a numeric array: {type(x).__name__}")
    if shape is not None:
        ok = len(shape) == a.ndim and all(
            s is None or s == t for s, t in zip(shape, a.shape))
        check(ok, f"{what} has shape {a.shape}, expected {tuple(shape)}")
    if finite:
        check(bool(np.all(np.isfinite(a))), f"{what} contains non-finite values",
              value=short(a))
    return a


def short(x, n=12):
    if isinstance(x, np.ndarray):
        f = x.ravel()
        s = [float(v) for v in f[:n]] if x.dtype.kind in "fiub" else [str(v) for v in f[:n]]
        return {"shape": list(x.shape), "head": s}
    return x


def close(a, b, rtol, atol, what, **detail):
    """Violation unless |a-b| <= atol + rtol*|b| everywhere (same shape)."""
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    check(a.shape == b.shape, f"{what}: shapes differ {a.shape} vs {b.shape}", **detail)
    if a.size == 0:
        return 0.0
    same = (a == b) | (np.isnan(a) & np.isnan(b))
    err = np.where(same, 0.0, np.abs(a - b) - (atol + rtol * np.abs(b)))
    bad = ~(err <= 0)
    if bad.any():
        i = int(np.argmax(np.where(np.isfinite(err), err, np.inf)))
        raise Violation(f"{what}: got {a.ravel()[i]!r}, expected {b.ravel()[i]!r} "
                        f"(element {i} of {a.shape})", got=short(a), want=short(b),
                        **detail)


class Rec:
    """What one case did, for the evidence."""

    def __init__(self):
        self.labels = []
        self.stats = {}
        self.is_nontrivial = True
        self.known = []

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def stat(self, name, value):
        v = float(value)
        if v == v:
            self.stats[name] = max(self.stats.get(name, -np.inf), v)

    def nontrivial(self, cond):
        self.is_nontrivial = bool(cond)


class Law:
    def __init__(self, name, strategy, fn, quick, thorough=None, rule="",
                 shards=1, case_cpu=90.0):
        self.name = name
        self.strategy = strategy        # callable -> hypothesis strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough or quick * 20
        self.rule = rule
        self.shards = shards
        self.case_cpu = case_cpu


def case_key(case):
    s = json.dumps(case, sort_keys=True, separators=(",", ":"))
    return hashlib.sha1(s.encode()).hexdigest()[:16], s


class _Scratch:
    """Every case runs in its own empty directory."""

    n = 0

    def __enter__(self):
        base = os.environ.get("VERIF_SCRATCH") or "/tmp"
        _Scratch.n += 1
        self.dir = os.path.join(base, f"case-{os.getpid()}-{_Scratch.n}")
        os.makedirs(self.dir, exist_ok=True)
        self.old = os.getcwd()
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *a):
        os.chdir(self.old)
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)


def _on_prof(signum, frame):
    raise Hang()


def run_case(law, case, rec=None):
    """Returns (status, violation) with status ok|inconclusive|violation|error."""
    rec = rec or Rec()
    np.random.seed(12345)       # the code under test uses the global generator
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, law.case_cpu)
    try:
        with _Scratch():
            with np.errstate(all="ignore"):
                law.fn(case, rec)
        if isinstance(case, dict) and "large" in case:
            rec.label("large data set")
        return "ok", None
    except Inconclusive:
        return "inconclusive", None
    except Violation as v:
        return "violation", v
    except Hang:
        return "violation", Violation(
            f"did not terminate within {law.case_cpu:.0f} s of CPU time")
    except MemoryError as e:
        return "violation", Violation(f"exhausted the memory limit: {e}")
    except Exception as e:
        # an exception that passed through the code under test is its failure
        frames = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(env.SUT_DIR) for f in frames):
            return "violation", Violation(
                f"unexpected {type(e).__name__}: {e}",
                traceback="".join(traceback.format_exc().splitlines(True)[-8:]))
        rec.error = traceback.format_exc()
        return "error", None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def search(law, seed, max_examples, deadline, shrink_s=60.0, progress=None):
    """Run one generated-input search. Returns a plain dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    out = dict(law=law.name, evaluations=0, inconclusive=0, nontrivial=set(),
               distinct=set(), labels={}, stats={}, samples=[], failures=[],
               errors=[], budget_hit=False, known=[])
    t_fail = [None]

    def body(case):
        now = time.time()
        if now > deadline and not out["failures"]:
            out["budget_hit"] = True
            raise StopSearch()
        if t_fail[0] is not None and now - t_fail[0] > shrink_s:
            raise StopSearch()
        rec = Rec()
        key, s = case_key(case)
        if progress is not None:
            progress(law.name, s)
        status, viol = run_case(law, json.loads(s), rec)
        if status == "error":
            out["errors"].append(dict(case=case, error=rec.error))
            raise StopSearch()
        out["evaluations"] += 1
        if status == "inconclusive":
            out["inconclusive"] += 1
            return
        for k in rec.known:
            if k not in out["known"]:
                out["known"].append(k)
        out["distinct"].add(key)
        for lab in rec.labels:
            out["labels"][lab] = out["labels"].get(lab, 0) + 1
        for k, v in rec.stats.items():
            out["stats"][k] = max(out["stats"].get(k, -np.inf), v)
        if rec.is_nontrivial and status == "ok":
            out["nontrivial"].add(key)
            if len(out["samples"]) < 3 and len(s) < 1500 and \
                    out["evaluations"] >= (1, 17, 53)[len(out["samples"])]:
                out["samples"].append(case)
        if status == "violation":
            out["failures"].append(dict(size=len(s), case=case, msg=viol.msg,
                                        detail=viol.detail))
            if len(out["failures"]) > 400:
                out["failures"].sort(key=lambda f: f["size"])
                del out["failures"][50:]
            if t_fail[0] is None:
                t_fail[0] = now
            raise viol

    test = hypothesis.given(law.strategy())(body)
    test = settings(max_examples=max_examples, database=None, deadline=None,
                    suppress_health_check=list(HealthCheck),
                    phases=[Phase.generate, Phase.shrink],
                    report_multiple_bugs=False, print_blob=False,
                    verbosity=hypothesis.Verbosity.quiet)(test)
    test = hypothesis.seed(seed)(test)
    try:
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            test()
    except StopSearch:
        pass
    except Violation:
        pass
    except BaseException as e:          # flaky, unsatisfiable, ...
        if not out["failures"]:
            out["errors"].append(dict(case=None, error=traceback.format_exc()))
    out["failures"].sort(key=lambda f: (f["size"], json.dumps(f["case"])))
    out["failures"] = out["failures"][:5]
    return out
