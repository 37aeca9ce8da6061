"""Property-based check harness.

A check module (checks/cNN.py) defines

    RULE   : str, what makes a case non-trivial
    TESTS  : list of Test(name, strategy, fn, quick=N, thorough=M)

`strategy` draws a JSON-serialisable case, `fn(case, ctx)` runs the code under test and the
oracle on it and raises Violation (or any exception out of the code under test).  Hypothesis
generates and shrinks; the smallest failing case is written as the replay file.
"""
import contextlib
import hashlib
import io
import json
import os
import signal
import sys
import time
import traceback
import warnings

import hypothesis
from hypothesis import strategies as st  # noqa: F401 (re-export)
from hypothesis import HealthCheck, Phase, given, settings


class Violation(AssertionError):
    pass


class HarnessError(Exception):
    """Something wrong with the check itself or the machine (exit 2)."""


class _Abort(BaseException):
    pass


class _CaseTimeout(BaseException):
    pass


class Test:
    def __init__(self, name, strategy, fn, quick=50, thorough=None, case_timeout=150):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.case_timeout = case_timeout


def canon(case):
    return json.dumps(case, sort_keys=True, default=str)


def short(case, limit=1500):
    s = canon(case)
    if len(s) <= limit:
        return case
    return {"truncated_case": s[:limit] + "..."}


class Ctx:
    """Per-worker bookkeeping handed to the test functions."""

    def __init__(self, prop, known_ids):
        self.prop = prop
        self.known_ids = known_ids
        self.known_hits = {}
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.per_test = {}
        self._nt = False
        self._counting = True

    # ---- used by tests
    def label(self, name, n=1):
        if self._counting:
            self.labels[name] = self.labels.get(name, 0) + n

    def nt(self, cond=True):
        """Declare the current case non-trivial."""
        if cond:
            self._nt = True

    def known(self, fid, msg):
        """A failure that is exactly known finding `fid`: recorded if listed, else a violation."""
        if fid in self.known_ids:
            self.known_hits[fid] = self.known_hits.get(fid, 0) + 1
            return
        raise Violation(msg)

    # ---- used by the runner
    def begin(self):
        self._nt = False

    def end(self, test, case):
        if not self._counting:
            return
        self.evaluations += 1
        pt = self.per_test.setdefault(test.name, {"evaluations": 0, "nontrivial": 0})
        pt["evaluations"] += 1
        if self._nt:
            h = hashlib.sha1((test.name + canon(case)).encode()).hexdigest()[:16]
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                pt["nontrivial"] += 1
                if pt["nontrivial"] <= 2:
                    self.samples.append({"test": test.name, "case": short(case)})


@contextlib.contextmanager
def quiet():
    with open(os.devnull, "w") as dn, contextlib.redirect_stdout(dn), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def _alarm(signum, frame):
    raise _CaseTimeout()


def run_case(test, case, ctx):
    """Runs one case; returns None or a failure message."""
    ctx.begin()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(test.case_timeout)
    try:
        with quiet():
            test.fn(case, ctx)
        return None
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def describe(e):
    if isinstance(e, Violation):
        return str(e)
    tb = traceback.extract_tb(e.__traceback__)
    inside = [f for f in tb if "/aspsim/" in f.filename]
    where = inside[-1] if inside else tb[-1]
    return (f"exception on a valid input: {type(e).__name__}: {str(e)[:300]} "
            f"(at {os.path.basename(where.filename)}:{where.lineno} in {where.name})")


def run_test(test, ctx, seed, n, deadline, shrink_seconds=60):
    """Returns None or dict(case, message)."""
    best = {}
    state = {"first_fail": None, "skipped": 0}

    def body(case):
        if state["first_fail"] is None and time.time() > deadline:
            state["skipped"] += 1
            return
        if state["first_fail"] is not None and time.time() - state["first_fail"] > shrink_seconds:
            raise _Abort()
        case = json.loads(canon(case))
        try:
            run_case(test, case, ctx)
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except _CaseTimeout:
            best["case"], best["msg"] = case, f"did not finish within {test.case_timeout} s"
            raise _Abort()
        except (MemoryError, HarnessError):
            raise
        except OSError as e:
            if e.errno in (28, 12, 24):   # no space / memory / fds: machine trouble
                raise HarnessError(repr(e))
            _fail(case, e)
        except Exception as e:
            _fail(case, e)
        else:
            ctx.end(test, case)

    def _fail(case, e):
        best["case"], best["msg"] = case, describe(e)
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        if state["first_fail"] is None:
            state["first_fail"] = time.time()
            ctx._counting = False
        raise Violation(best["msg"]) from None

    wrapped = hypothesis.seed(seed)(settings(
        max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
        print_blob=False, phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck))(given(test.strategy)(body)))
    wrapped.__name__ = body.__name__
    try:
        with contextlib.redirect_stderr(io.StringIO()) if not os.environ.get("VERIF_DEBUG") else contextlib.nullcontext():
            wrapped()
    except _Abort:
        pass
    except (MemoryError, HarnessError):
        raise
    except hypothesis.errors.Unsatisfiable as e:
        raise HarnessError(f"{test.name}: generator produced nothing: {e}")
    except Exception as e:
        if not best:
            raise HarnessError(f"{test.name}: {type(e).__name__}: {e}\n{traceback.format_exc()}")
    finally:
        ctx._counting = True
    if state["skipped"]:
        ctx.label(f"skipped_by_time_budget:{test.name}", state["skipped"])
    if best:
        return {"test": test.name, "case": best["case"], "message": best["msg"]}
    return None
