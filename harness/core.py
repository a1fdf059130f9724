"""Building blocks every check uses: sub-checks, violations, case execution."""
import hashlib
import json
import os
import signal
import sys
import traceback

from .env import REPO_PYTHON


class Violation(Exception):
    """The oracle rejected what the code under test did."""


class Invalid(Exception):
    """The generated case is outside the property's domain (counted, never a violation)."""


class Hang(BaseException):
    """The code under test did not answer (not an Exception, so that no handler swallows it)."""


CASE_S = 150


class Info:
    """What one evaluation reported about itself."""

    def __init__(self, nontrivial=True, classes=(), note=None):
        self.nontrivial = bool(nontrivial)
        self.classes = list(classes)
        self.note = note


class Sub:
    """One generated sub-check of a property.

    strategy : zero-argument callable returning a Hypothesis strategy of JSON-able cases
    run      : case -> Info; raises Violation when the property is broken
    quick / thorough : number of cases over all shards
    rule     : what makes a case of this sub-check non-trivial
    """

    def __init__(self, name, strategy, run, quick, thorough, rule):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.rule = quick, thorough, rule


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def digest(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:16]


def _frames_in_repo(tb):
    root = os.path.realpath(REPO_PYTHON) + os.sep
    for f in traceback.extract_tb(tb):
        if os.path.realpath(f.filename).startswith(root):
            return True
    return False


def evaluate(sub, case):
    """Run one case.  Returns ('ok', Info) | ('violation', text) | ('invalid', text).

    An exception that passes through the code under test is a violation: every
    generated case is inside the domain the property names, where the code must
    answer.  Any other exception is an error of the harness and propagates.
    """
    def late(*_):
        raise Hang()

    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(CASE_S)
    try:
        info = sub.run(case)
        return "ok", info
    except Hang:
        return "violation", "no answer within %d s (cases take milliseconds to seconds)" % CASE_S
    except Violation as e:
        return "violation", str(e)
    except Invalid as e:
        return "invalid", str(e)
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        if _frames_in_repo(sys.exc_info()[2]):
            last = [f for f in traceback.extract_tb(sys.exc_info()[2])]
            root = os.path.realpath(REPO_PYTHON) + os.sep
            where = [f for f in last if os.path.realpath(f.filename).startswith(root)][-1]
            return "violation", "unexpected %s: %s (raised under %s, %s)" % (
                type(e).__name__, str(e)[:200], os.path.basename(where.filename), where.name)
        raise
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


# ---------------------------------------------------------------- numeric oracles

def need(cond, msg):
    if not cond:
        raise Violation(msg)


def close(a, b, what, rtol=1e-9, scale=None, atol=0.0):
    """|a-b| <= rtol*scale+atol elementwise, where scale defaults to max(|a|,|b|) over all entries."""
    import numpy as np
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation("%s: shape %s, expected %s" % (what, a.shape, b.shape))
    if a.size == 0:
        return
    if not np.all(np.isfinite(a)):
        raise Violation("%s: non-finite value in the result" % what)
    if scale is None:
        scale = max(np.max(np.abs(a)), np.max(np.abs(b)))
    err = np.abs(a - b)
    tol = rtol * scale + atol
    k = int(np.argmax(err - tol))
    idx = np.unravel_index(k, a.shape)
    tolk = tol if np.ndim(tol) == 0 else np.broadcast_to(tol, a.shape)[idx]
    if not err[idx] <= tolk:
        raise Violation("%s: got %.12g, expected %.12g at index %s (error %.3g, tolerance %.3g)" % (
            what, a[idx], b[idx], tuple(int(i) for i in idx), err[idx], tolk))
