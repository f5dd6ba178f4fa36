"""Comparison of packs with expected tables, and calling into the library."""
import datetime
import os
import sys

import numpy as np

from .core import Violation, HarnessError, Exhausted
from . import vio


class HangTimeout(BaseException):
    pass


class BudgetExceeded(BaseException):
    pass


def set_budget(n):
    """Deterministic stand-in for a timeout: a bound on executed lines."""
    if n is None:
        sys.settrace(None)
        return
    left = [n]

    def tr(frame, event, arg):
        left[0] -= 1
        if left[0] < 0:
            left[0] = 1000
            raise BudgetExceeded()
        return tr
    sys.settrace(tr)


class Sink(object):
    """Stands in for sys.stdout while the library runs (xlrd logs, textpack debug)."""
    encoding = 'utf-8'

    def __init__(self):
        self.parts = []

    def write(self, s):
        if len(self.parts) < 200:
            self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def clear(self):
        del self.parts[:]

    def text(self):
        return ''.join(self.parts)


class Outcome(object):
    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        if self.ok:
            return 'returned'
        return 'raised %s: %s' % (type(self.exc).__name__, str(self.exc)[:200])


def call(world, fn, *a, **k):
    """Call into the library with the simulated world active."""
    world.active = True
    try:
        v = fn(*a, **k)
        return Outcome(value=v)
    except (HangTimeout, BudgetExceeded, HarnessError, Exhausted, Violation):
        raise
    except BaseException as e:
        return Outcome(exc=e)
    finally:
        world.active = False


def chain(exc, limit=50):
    """The exception and everything in its cause/context chain."""
    seen, todo = [], [exc]
    while todo and len(seen) < limit:
        e = todo.pop()
        if e is None or any(e is s for s in seen):
            continue
        seen.append(e)
        todo.append(e.__cause__)
        todo.append(e.__context__)
    return seen


def norm(v):
    """One element as a comparable, printable Python value."""
    if isinstance(v, (np.datetime64, np.timedelta64)):
        return ('date', str(v))
    if isinstance(v, (float, np.floating)):
        f = float(v)
        if f != f:
            return 'NaN'
        return 0.0 if f == 0 else f
    if isinstance(v, (bool, np.bool_)):
        return ('bool', bool(v))
    if isinstance(v, (int, np.integer)):
        return ('int', int(v))
    if isinstance(v, (complex, np.complexfloating)):
        return ('complex', repr(complex(v)))
    if isinstance(v, str):
        return ('str', str(v))
    if isinstance(v, bytes):
        return ('bytes', bytes(v))
    if isinstance(v, (datetime.date, datetime.time, np.datetime64, np.timedelta64)):
        return ('date', repr(v))
    if v is None:
        return None
    return (type(v).__name__, repr(v))


def normarr(a):
    if not isinstance(a, np.ndarray):
        raise Violation('not-an-array', 'expected an ndarray, got %r' % (a,))
    if a.ndim != 1:
        raise Violation('not-flat', 'expected a 1-d array, got shape %r' % (a.shape,))
    return (a.dtype.kind, [norm(v) for v in a])


def expected_array(values):
    return np.array(tuple(values))


def canon_data(d):
    out = {}
    for k in d:
        out[k] = normarr(d[k])
    return out


def canon_expected(cols):
    return {k: normarr(expected_array(v)) for k, v in cols.items()}


def brief(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


def diff_tables(got, exp):
    """A short description of the difference of two canon_data results, or None."""
    if set(got) != set(exp):
        return 'columns %r instead of %r' % (sorted(got), sorted(exp))
    for k in sorted(exp):
        gk, gv = got[k]
        ek, ev = exp[k]
        if len(gv) != len(ev):
            return 'column %r has %d rows instead of %d; got %s, expected %s' % (
                k, len(gv), len(ev), brief(gv, 300), brief(ev, 300))
        for i, (g, e) in enumerate(zip(gv, ev)):
            if g != e:
                return 'column %r row %d is %r instead of %r' % (k, i, g, e)
        if gk != ek:
            return 'column %r has array kind %r instead of %r' % (k, gk, ek)
    return None


def diff_names(got, exp):
    g = {k: got[k] for k in got}
    if g != exp or any(type(g[k]) is not type(exp[k]) for k in exp):
        return 'names %s instead of %s' % (brief(g, 400), brief(exp, 400))
    return None


def pack_diff(pack, exp_cols, exp_names, exp_fn=None):
    """Compare a pack fresh from a reader with the expected table."""
    d = diff_tables(canon_data(pack.data), exp_cols)
    if d:
        return d
    d = diff_names(pack.names, exp_names)
    if d:
        return d
    if exp_fn is not None and pack.fn != exp_fn:
        return 'fn %r instead of %r' % (os.path.basename(str(pack.fn)), os.path.basename(exp_fn))
    if exp_fn is not None and list(pack.filenames) != [exp_fn]:
        return 'filenames %r instead of [fn]' % ([os.path.basename(str(f)) for f in pack.filenames],)
    n = len(pack.data[min(pack.data)]) if pack.data else 0
    m = pack.mask
    if len(m) != n or not all(bool(x) for x in m):
        return 'initial mask is %s for %d rows' % (brief(list(m), 200), n)
    return None
