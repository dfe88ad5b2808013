"""Monitor core: observation recording, tolerance margins, verdicts, case runner.

A *check module* (vmon/checks/cXX.py) defines

  PROPERTY   'C04'
  RULE       text for the evidence file
  REQUIRED   clauses that must have been observed at least once (else: inconclusive)
  cases(rng, tier) -> list of JSON-able dicts ("kind" names the workload)
  run(case, mon)   -> drives the real code and feeds the monitor

The monitor only ever sees values returned by public API calls of the code under test.
"""
from __future__ import annotations

import contextlib
import hashlib
import json
import os
import signal
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VMON_REPO", "/repo")
MAXVIOL = 40


class CaseTimeout(BaseException):
    pass


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist()) if x.size <= 12 else f"array{x.shape} head={x.ravel()[:4].tolist()}"
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, type):
        return x.__name__
    return repr(x)[:200]


def sig(*parts):
    return hashlib.md5(json.dumps(jsonable(parts), sort_keys=True).encode()).hexdigest()[:12]


class Monitor:
    """Records observations and decides clauses online."""

    def __init__(self, case=None):
        self.case = case or {}
        self.n = {}
        self.distinct = {}
        self.margin = {}
        self.viol = []
        self.notes = {}

    # -- bookkeeping -----------------------------------------------------------
    def observe(self, clause, key="", n=1):
        self.n[clause] = self.n.get(clause, 0) + n
        self.distinct.setdefault(clause, set()).add(sig(clause, key, self.case.get("id")))

    def note(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    def violation(self, clause, key, msg, **detail):
        """`key` names the mechanism (class, branch), never random values."""
        if len(self.viol) < MAXVIOL:
            self.viol.append(dict(clause=clause, key=f"{clause}|{key}", msg=str(msg)[:600], detail=jsonable(detail)))

    # -- deciding steps ----------------------------------------------------------
    def check(self, clause, ok, key="", msg="", **detail):
        self.observe(clause, key)
        if not bool(ok):
            self.violation(clause, key, msg or "condition false", **detail)
            return False
        return True

    def close(self, clause, got, want, rtol=0.0, atol=0.0, key="", msg="", scale=None, **detail):
        """got == want within rtol*|want| (or rtol*scale) + atol, elementwise, finite, same shape."""
        self.observe(clause, key)
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            if not (g.size == 1 and w.size == 1):
                self.violation(clause, key, f"{msg} shape {g.shape} != {w.shape}", **detail)
                return False
            g = g.reshape(())
            w = w.reshape(())
        if g.size == 0:
            self.note("empty:" + clause)
            return True
        nf = ~np.isfinite(w)
        if nf.any():
            # the reference itself is not finite: only accept exact agreement
            same = (g == w) | (np.isnan(g) & np.isnan(w))
            if not same[nf].all():
                self.violation(clause, key, f"{msg} non-finite mismatch", got=g, want=w, **detail)
                return False
            g = g[~nf]
            w = w[~nf]
            if g.size == 0:
                return True
            if np.ndim(scale):
                scale = np.broadcast_to(scale, nf.shape)[~nf]
        tol = rtol * (np.abs(w) if scale is None else np.abs(scale)) + atol
        with np.errstate(all="ignore"):
            err = np.abs(g - w)
            bad = ~(err <= tol)
            ratio = np.where(err == 0, 0.0, err / np.where(tol > 0, tol, 1e-300))
        r = float(np.nanmax(np.where(np.isfinite(ratio), ratio, 1e9)))
        self.margin[clause] = max(self.margin.get(clause, 0.0), r)
        if bad.any():
            i = int(np.argmax(np.where(np.isfinite(ratio), ratio, np.inf)))
            idx = tuple(int(q) for q in np.unravel_index(i, ratio.shape)) if ratio.ndim else ()
            self.violation(
                clause, key,
                f"{msg} got {g.ravel()[i]:.10g} want {w.ravel()[i]:.10g} at {idx}: err/tol={r:.3g} "
                f"({int(bad.sum())}/{bad.size} points)", **detail)
            return False
        return True

    def equal(self, clause, got, want, key="", msg="", **detail):
        """Bit-for-bit equality (NaN==NaN)."""
        self.observe(clause, key)
        ok, why = same(got, want)
        if not ok:
            self.violation(clause, key, f"{msg} {why}", **detail)
        return ok

    @contextlib.contextmanager
    def guard(self, clause, key="", **detail):
        """Run code that the property says must work: an exception is a violation."""
        try:
            yield
        except CaseTimeout:
            raise
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:  # noqa: BLE001
            self.observe(clause, key)
            tb = traceback.extract_tb(e.__traceback__)
            self.violation(clause, f"{key}|raised {type(e).__name__}",
                           f"{type(e).__name__}: {e} at {tb[-1].filename}:{tb[-1].lineno}",
                           tb=[f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb[-6:]], **detail)

    def raises(self, clause, fn, key="", exc=Exception, msg=""):
        """fn must raise; returns the exception (or None, recording a violation)."""
        self.observe(clause, key)
        try:
            fn()
        except CaseTimeout:
            raise
        except exc as e:
            return e
        self.violation(clause, key, msg or "no exception raised")
        return None

    def result(self):
        return dict(n=self.n, distinct={k: list(v) for k, v in self.distinct.items()},
                    margin=self.margin, viol=self.viol, notes=self.notes)


def same(a, b, rtol=0.0, atol=0.0):
    """Structural equality; returns (ok, why)."""
    if a is None or b is None:
        return (a is None and b is None), f"{type(a).__name__} vs {type(b).__name__}"
    if isinstance(a, dict) and isinstance(b, dict):
        if a.keys() != b.keys():
            return False, f"keys {sorted(map(str, a))} vs {sorted(map(str, b))}"
        for k in a:
            ok, why = same(a[k], b[k], rtol, atol)
            if not ok:
                return False, f"[{k}] {why}"
        return True, ""
    try:
        x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
            for p, q in zip(a, b):
                ok, why = same(p, q, rtol, atol)
                if not ok:
                    return ok, why
            return True, ""
        try:
            ok = bool(a == b)
        except Exception:  # noqa: BLE001
            ok = False
        if not ok and type(a) is type(b) and hasattr(a, "__dict__") and not isinstance(a, type):
            return True, ""
        return ok, f"{a!r:.80} vs {b!r:.80}"
    if x.shape != y.shape:
        return False, f"shape {x.shape} vs {y.shape}"
    with np.errstate(all="ignore"):
        eq = (x == y) | (np.isnan(x) & np.isnan(y))
        if rtol or atol:
            eq |= np.abs(x - y) <= rtol * np.abs(y) + atol
    if eq.all():
        return True, ""
    with np.errstate(all="ignore"):
        d = np.abs(x - y) / np.where(y == 0, 1, np.abs(y))
    i = int(np.argmax(np.where(eq, -1, np.nan_to_num(d, nan=np.inf)).ravel()))
    return False, f"differs at {i}: {x.ravel()[i]!r} vs {y.ravel()[i]!r} ({int((~eq).sum())}/{eq.size})"


def rng_for(*parts):
    return np.random.default_rng(int(hashlib.sha256(repr(parts).encode()).hexdigest()[:15], 16))


# ---------------------------------------------------------------------------------
def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, case, timeout):
    mon = Monitor(case)
    t0 = time.time()
    status = "ok"
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        with np.errstate(all="ignore"):
            mod.run(case, mon)
    except CaseTimeout:
        status = "timeout"
    except MemoryError:
        status = "memory"
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        repo_frames = [f for f in tb if "/src/halomod/" in f.filename]
        where = repo_frames[-1] if repo_frames else tb[-1]
        mon.observe("no-unexpected-exception", case.get("kind", ""))
        mon.violation("no-unexpected-exception", f"{case.get('kind', '')}|{type(e).__name__}|{where.name}",
                      f"{type(e).__name__}: {e}", where=f"{where.filename}:{where.lineno}",
                      tb=[f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb[-8:]])
        status = "exception"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    r = mon.result()
    r.update(status=status, wall=time.time() - t0, id=case["id"])
    return r


def setup_process():
    import warnings

    warnings.simplefilter("ignore")
    sys.path.insert(0, os.path.join(REPO, "src"))
    import colossus.settings as cs

    cs.PERSISTENCE = ""
    import halomod

    got = os.path.realpath(os.path.dirname(halomod.__file__))
    want = os.path.realpath(os.path.join(REPO, "src", "halomod"))
    if got != want:
        print(f"INCONCLUSIVE: imported {got}, expected {want}")
        sys.exit(3)
    return halomod
