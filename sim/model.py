"""An executable model of ChannelPack, observation of a real pack, and operations.

The model keeps plain Python/numpy values and recomputes everything from them;
it shares no code with the library.  An Op knows how to make the real call
(arguments are built beforehand, so that allocation faults and budgets hit the
library only) and what the documented semantics make of it.
"""
import collections
import datetime

import numpy as np

from .core import Violation, HarnessError
from .util import norm, normarr, brief


class Reject(Exception):
    """The model says: this operation must raise and change nothing."""

    def __init__(self, *types):
        Exception.__init__(self, types)
        self.types = types or (Exception,)


class Injected(Exception):
    """Raised by an iterable of the harness."""


# ------------------------------------------------------------------ the model
def runs(mask):
    out, start = [], None
    for i, b in enumerate(list(mask) + [False]):
        if b and start is None:
            start = i
        elif not b and start is not None:
            out.append((start, i))
            start = None
    return out


def keep_min(mask, req):
    mask = list(mask)
    for a, b in runs(mask):
        if b - a < req:
            mask[a:b] = [False] * (b - a)
    return mask


def keep_max(mask, req):
    mask = list(mask)
    for a, b in runs(mask):
        if b - a > req:
            mask[a:b] = [False] * (b - a)
    return mask


class Model(object):
    def __init__(self):
        self.data = {}
        self.names = {}
        self.mask = []
        self.mindur = None
        self.nof = None
        self.fn = ''
        self.filenames = ['']
        self.prefix = 'ch'

    def copy(self):
        m = Model()
        m.__dict__.update(self.__dict__)
        m.data = dict(self.data)
        m.names = dict(self.names)
        m.mask = list(self.mask)
        m.filenames = list(self.filenames)
        return m

    def n(self):
        return len(self.data[min(self.data)]) if self.data else 0

    def set_mask(self, mask):
        mask = [bool(b) for b in mask]
        self.mask = mask if self.mindur is None else keep_min(mask, self.mindur)

    def set_data(self, data):
        self.data = {int(k): np.array(v) for k, v in data.items()}
        self.set_mask([True] * self.n())

    def append(self, other):
        od, on, of = dict(other.data), dict(other.names), list(other.filenames)
        data = self.data
        if not data:
            data = od
        elif od:
            if set(data) != set(od):
                raise Reject(ValueError)
            try:
                data = {k: np.concatenate((data[k], od[k])) for k in data}
            except TypeError:            # dates and numbers have no common type
                raise Reject(TypeError)
        names = self.names
        if not names:
            names = on
        elif on and set(names) != set(on):
            raise Reject(ValueError)
        self.set_data(data)
        self.names = dict(names)
        self.filenames = self.filenames + of

    # ---- what a call returns, as (kind, [elements])
    def column(self, key, part=None, nof=None):
        a = self.data[key]
        kind = a.dtype.kind
        if part is not None:
            r = runs(self.mask)
            if not 0 <= part < len(r):
                raise Reject(IndexError)
            return (kind, [norm(v) for v in list(a)[r[part][0]:r[part][1]]])
        how = nof if nof is not None else (self.nof or 'ignore')
        if how == 'ignore':
            return (kind, [norm(v) for v in a])
        if how == 'filter':
            return (kind, [norm(v) for v, b in zip(a, self.mask) if b])
        if kind in 'iufc':
            if kind == 'c':
                return ('c', [norm(complex(v)) if b else norm(complex(float('nan')))
                              for v, b in zip(a, self.mask)])
            return ('f', [norm(float(v)) if b else 'NaN' for v, b in zip(a, self.mask)])
        if kind in 'Mm':
            a = a.astype(object)
        return ('O', [norm(v) if b else None for v, b in zip(a, self.mask)])

    def key(self, ch):
        if isinstance(ch, int) or ch in self.data:
            if ch in self.data:
                return ch
            raise Reject(KeyError)
        for k, name in self.names.items():
            if name == ch:
                if k in self.data:
                    return k
                raise Reject(KeyError)
        p = self.prefix
        if ch.startswith(p) and ch[len(p):].isdigit() and ch.isascii():
            k = int(ch[len(p):])
            if k in self.data:
                return k
        raise Reject(KeyError)

    def records(self, part=None, nof=None, fallback=False):
        """(field names, rows) or Reject."""
        import keyword
        if fallback:
            keys = sorted(self.data)
            fields = [self.prefix + str(k) for k in keys]
        else:
            keys = sorted(self.names)
            fields = [self.names[k] for k in keys]
        for f in fields:
            if not f.isidentifier() or keyword.iskeyword(f) or f.startswith('_'):
                raise Reject(ValueError, LookupError)
        if len(set(fields)) != len(fields):
            raise Reject(ValueError, LookupError)
        for k in keys:
            if k not in self.data:
                raise Reject(LookupError)
        cols = [self.column(k, part, nof)[1] for k in keys]
        return tuple(fields), [tuple(r) for r in zip(*cols)]


# ------------------------------------------------------------------ observing
def attempt(fn):
    """('ok', value) or ('raised', type name)."""
    try:
        return fn()
    except KeyError:
        return 'KeyError'
    except IndexError:
        return 'IndexError'


def observe(pack, deep=True):
    o = {}
    data = pack.data
    o['data'] = {}
    for k in list(data):
        if not isinstance(k, int):
            raise Violation('non-int-key', 'data has the key %r' % (k,))
        o['data'][k] = normarr(data[k])
    o['names'] = {k: pack.names[k] for k in pack.names}
    for k in o['names']:
        if not isinstance(k, int):
            raise Violation('non-int-key', 'names has the key %r' % (k,))
    o['mask'] = normarr(pack.mask)
    o['parts'] = list(pack.parts())
    o['nof'] = pack.nof
    o['mindur'] = pack.mindur
    o['fn'] = pack.fn
    o['filenames'] = list(pack.filenames)
    o['prefix'] = pack.FALLBACK_PREFIX
    if deep:
        for k in sorted(o['data']):
            if len(o['data'][k][1]) != len(o['mask'][1]):
                o['call', k, 'ignore'] = normarr(pack(k, nof='ignore'))
                continue
            o['call', k] = normarr(pack(k))
            for nof in ('ignore', 'filter', 'nan'):
                o['call', k, nof] = normarr(pack(k, nof=nof))
            for p in o['parts']:
                o['call', k, p] = normarr(pack(k, part=p))
                # a part overrides nof
                o['call', k, p, 'nof'] = normarr(pack(k, part=p, nof=('ignore', 'filter', 'nan')[(p + k) % 3]))
            o['call', k, 'past'] = attempt(lambda: normarr(pack(k, part=len(o['parts']))))
            # parts are counted from 0: a negative one is refused or counted from the end
            n = len(o['parts'])
            got = attempt(lambda: normarr(pack(k, part=-1)))
            o['call', k, 'negative'] = 'fine' if got == 'IndexError' or (n and got == o['call', k, n - 1]) else got
            o['call', k, 'far'] = attempt(lambda: normarr(pack(k, part=n + 7)))
    return o


def expected(m, deep=True):
    o = {'data': {k: normarr(a) for k, a in m.data.items()}, 'names': dict(m.names),
         'mask': ('b', [('bool', b) for b in m.mask]), 'parts': list(range(len(runs(m.mask)))),
         'nof': m.nof, 'mindur': m.mindur, 'fn': m.fn, 'filenames': list(m.filenames), 'prefix': m.prefix}
    if deep:
        for k in sorted(m.data):
            if len(m.data[k]) != len(m.mask):
                o['call', k, 'ignore'] = m.column(k, nof='ignore')
                continue
            o['call', k] = m.column(k)
            for nof in ('ignore', 'filter', 'nan'):
                o['call', k, nof] = m.column(k, nof=nof)
            for p in o['parts']:
                o['call', k, p] = o['call', k, p, 'nof'] = m.column(k, part=p)
            o['call', k, 'past'] = o['call', k, 'far'] = 'IndexError'
            o['call', k, 'negative'] = 'fine'
    return o


def diff_obs(got, exp):
    for k in exp:
        if k not in got:
            return '%s missing' % (k,)
        g, e = got[k], exp[k]
        if g != e:
            if k == 'mask':
                g, e = show_mask(g), show_mask(e)
            return '%s is %s instead of %s' % (k if isinstance(k, str) else 'pack%r' % (k[1:],), brief(g, 250), brief(e, 250))
    if len(got) != len(exp):
        return 'extra %r' % (sorted(map(repr, set(got) - set(exp))),)
    return None


def show_mask(m):
    if isinstance(m, tuple) and all(isinstance(x, tuple) for x in m[1]):
        return m[0] + ':' + ''.join('T' if x[1] else 'F' for x in m[1])
    return m


# ------------------------------------------------------------------ generating
NAMES = ['a', 'b', 'speed', 'RPM', 'x1', 'x2', 'ch0', 'ch1', 'ch2', 'time', 'a b', 'VBox long name', 'class', '_u', 'åäö', '2nd', '']
KEYS = [0, 1, 2, 3, 5, 10, -1, -7]


def gen_size(src, hi=14):
    if src.chance(1, 40):
        return src.pick([33, 65, 129, 257, 1025, 300])
    return src.size(0, hi)


def gen_column(src, n):
    k = src.draw(12)
    if n > 40:
        # long columns: few decisions, values that tell where they come from
        base, stride = src.draw(50), 1 + src.draw(3)
        v = [base + stride * i for i in range(n)]
        if k % 4 == 1:
            return np.array([str(x) for x in v])
        if k % 4 == 2:
            return np.array(v, dtype=int)
        return np.array([float('nan') if x % 7 == 0 else float(x) for x in v])
    if k <= 1:
        return np.array([float(src.draw(20)) - 5 for _ in range(n)], dtype=float)
    if k == 2:
        return np.array([src.draw(100) - 50 for _ in range(n)], dtype=int)
    if k == 3:
        pool = [float('nan'), 0.0, 1.5, -2.0, float('inf'), float('nan')]
        return np.array([src.pick(pool) for _ in range(n)], dtype=float)
    if k == 4:
        pool = ['', 'a', 'bc', 'def', 'nan', '0']
        if src.chance(1, 3):
            return np.array([src.pick(pool + ['longer text', 'åäö∑']) for _ in range(n)], dtype='U11')
        return np.array([src.pick(pool) for _ in range(n)], dtype='U3')
    if k == 5:
        pool = [None, 'x', 1, 2.5, float('nan'), datetime.date(2020, 1, 31), datetime.datetime(1999, 12, 31, 23, 59), True]
        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = src.pick(pool)
        return a
    if k == 6:
        return np.array([bool(src.draw(2)) for _ in range(n)], dtype=bool)
    if k == 7:
        dt = src.pick(['u1', 'i2', 'f4', 'i8', 'i1'])
        mul = {'u1': 1, 'i2': 150, 'f4': 1000, 'i8': 2 ** 40, 'i1': 0.5}[dt]
        return np.array([int(src.draw(200) * mul) for _ in range(n)], dtype=dt)
    if k == 9:
        return np.array([1000000 * src.draw(2000) for _ in range(n)], dtype='M8[s]')
    if k == 10:
        pool = [b'', b'a', b'bc', b'0']
        return np.array([src.pick(pool) for _ in range(n)], dtype='S2')
    if k == 11:
        return np.array([60 * src.draw(2000) for _ in range(n)], dtype='m8[s]')
    return np.array([complex(src.draw(5), src.draw(3)) for _ in range(n)], dtype=complex)


def gen_keys(src, lo=0, hi=3):
    n = src.between(lo, hi)
    return src.shuffle(KEYS)[:n]


def gen_data(src, n=None, keys=None, lo=1):
    if keys is None:
        keys = gen_keys(src, lo)
    if n is None:
        n = gen_size(src)
    return {k: gen_column(src, n) for k in keys}


def gen_names(src, keys):
    pool = src.shuffle(NAMES)
    return {k: pool[i % len(pool)] for i, k in enumerate(keys)}


def gen_mask(src, n):
    k = src.draw(5)
    if k == 0:
        return [True] * n
    if k == 1 and n <= 40:
        return [bool(src.draw(2)) for _ in range(n)]
    if k == 2:
        return [False] * n
    # runs
    out, v = [], bool(src.draw(2))
    while len(out) < n:
        out += [v] * (1 + src.draw(4) + (src.draw(n // 6) if n > 40 else 0))
        v = not v
    return out[:n]


def as_form(src, arr):
    """A column handed in as array, list, tuple or read-only array."""
    k = src.draw(4)
    if k == 0 or arr.dtype.kind in 'Oc' or arr.dtype.itemsize < 8 or len(arr) == 0:
        return arr.copy()
    if k == 1:
        return arr.tolist()
    if k == 2:
        return tuple(arr.tolist())
    b = arr.copy()
    b.setflags(write=False)
    return b


def model_array(v):
    return np.array(v)


class Op(object):
    """name: what; make(): build arguments, return fn(pack); step(model): apply."""
    lenient = False       # invalid, but nobody promised that it is rejected
    gives = None          # 'mask', 'array' or None: what the call returns

    def __init__(self, name, make, step, detail='', invalid=False):
        self.name = name
        self.make = make
        self.step = step
        self.detail = detail
        self.invalid = invalid

    def __repr__(self):
        return '%s(%s)' % (self.name, self.detail)


def raising(items, at, exc=Injected):
    def g():
        for i, it in enumerate(items):
            if i == at:
                raise exc('injected')
            yield it
        if at >= len(items):
            raise exc('injected')
    return g()


class BadMapping(object):
    """A mapping that fails while it is read."""

    def __init__(self, d, at):
        self.d = d
        self.at = at
        self.i = 0

    def keys(self):
        return list(self.d)

    def __getitem__(self, k):
        if self.i == self.at:
            raise Injected('injected')
        self.i += 1
        return self.d[k]


def mapping_form(src, d):
    """make-function for a valid mapping argument, in one of several forms."""
    k = src.draw(8)
    items = list(d.items())
    if k == 6 and all(isinstance(key, int) for key in d):
        # the kind of dict that names is
        from channelpack.pack import IntKeyDict
        return lambda: IntKeyDict(items)
    if k == 7:
        return lambda: collections.OrderedDict(items)
    if k == 1:
        return lambda: list(items)
    if k == 2:
        return lambda: iter(items)
    if k == 3:
        return lambda: (x for x in items)
    if k == 4:
        return lambda: BadMapping(d, -1)
    if k == 5:
        return lambda: zip([a for a, _ in items], [b for _, b in items])
    return lambda: dict(items)


def bad_key(src):
    return src.pick(['a', '1', 44.0, None, (1,), np.int64(44), b'1', 0.5])


def bad_value(src):
    return src.pick([[[1, 2], [3, 4]], 5, 'abc', None, [[1], [2]], 3.5, {'a': 1}, np.zeros((2, 2)), np.array(3), np.zeros((1, 1, 1))])


def insert_at(src, items, x):
    p = src.draw(len(items) + 1)
    return items[:p] + [x] + items[p:]


# ---- operations.  Each takes (src, m) and returns an Op; m is only looked at.
def op_mask(src, m):
    v = gen_mask(src, len(m.mask))
    k = src.draw(4)

    def make():
        a = np.array(v, dtype=bool)
        if k == 1:
            a.setflags(write=False)
        elif k == 2:                      # a view with a stride
            b = np.zeros(2 * len(v), dtype=bool)
            b[::2] = a
            a = b[::2]
        return lambda p: setattr(p, 'mask', a)
    return Op('mask=', make, lambda m: m.set_mask(v), ''.join('FT'[x] for x in v))


def op_mask_bad(src, m):
    k = src.draw(4)
    n = len(m.mask)
    v = [list(gen_mask(src, n)), None, 'TF', 1][k]
    if k == 3 and n:
        v = np.zeros((n, 2), dtype=bool)
    op = Op('mask=', lambda: lambda p: setattr(p, 'mask', v), reject(), 'invalid %s' % type(v).__name__, True)
    op.lenient = isinstance(v, np.ndarray)
    return op


def reject(*types):
    def step(m):
        raise Reject(*types)
    return step


def op_mask_reset(src, m):
    return Op('mask_reset', lambda: lambda p: p.mask_reset(), lambda m: m.set_mask([True] * m.n()))


def triggers(start, stop):
    out, on = [], False
    for a, b in zip(start, stop):
        on = (on or bool(a)) and not b
        out.append(on)
    return out


def seq_form(src, v):
    k = src.draw(4)
    if k == 0:
        return lambda: np.array(v, dtype=bool)
    if k == 1:
        return lambda: list(v)
    if k == 2:
        return lambda: iter(v)
    return lambda: np.array([3 if x else 0 for x in v])


def op_startstop(src, m):
    n = len(m.mask)
    den = src.pick([3, 2, 6])
    a, b = ([src.chance(1, den) for _ in range(n)] if n <= 40 else gen_mask(src, n) for _ in range(2))
    apply = not src.chance(1, 4)
    fa, fb = seq_form(src, a), seq_form(src, b)
    res = triggers(a, b)

    def make():
        x, y = fa(), fb()
        if apply and n % 2:
            return lambda p: p.startstop(x, y)
        return lambda p: p.startstop(x, y, apply=apply)

    def step(m):
        if apply:
            m.set_mask([p and q for p, q in zip(m.mask, res)])
        return ('b', [('bool', x) for x in res])
    op = Op('startstop', make, step, 'start=%s stop=%s apply=%s' % (tf(a), tf(b), apply))
    op.gives = 'array'
    return op


def tf(v):
    return ''.join('T' if x else 'F' for x in v)


def op_startstop_bad(src, m):
    n = len(m.mask)
    k = src.draw(3)
    v = [src.chance(1, 3) for _ in range(n)]
    if k == 0:
        ln = n + 1 + src.draw(3) if (n < 3 or src.chance(1, 2)) else 2 + src.draw(n - 2)
        ln = max(ln, 2)
        w = [src.chance(1, 3) for _ in range(ln)]
        op = Op('startstop', lambda: lambda p: p.startstop(list(w), list(w[::-1])), reject(), 'length %d' % ln, True)
        op.lenient = n == 1                # a mask of one element may be spread over the others
        return op
    if k == 1:
        at = src.draw(n + 1)

        def make():
            it = raising(v, at)
            return lambda p: p.startstop(it, list(v) + [False])
        return Op('startstop', make, reject(Injected), 'start raises at %d' % at, True)
    return Op('startstop', lambda: lambda p: p.startstop(5, list(v)), reject(), 'start is 5', True)


def op_duration(src, m):
    k = src.draw(4)
    if k == 0:
        d, sr = src.draw(6), 1
    elif k == 1:
        d, sr = src.draw(12) / 4.0, src.pick([1, 2, 10, 0.5])
    elif k == 2:
        d, sr = 1 + src.draw(3), src.pick([1, 2, 0.5])
    else:
        d, sr = src.pick([0, -1, 100]), 1
    mn = not src.chance(1, 3)
    req = int(d * sr)

    def make():
        if sr == 1 and mn:
            return lambda p: p.duration(d)
        return lambda p: p.duration(d, samplerate=sr, mindur=mn)

    def step(m):
        m.mask = keep_min(m.mask, req) if mn else keep_max(m.mask, req)
        return ('b', [('bool', x) for x in m.mask])
    op = Op('duration', make, step, '%r, %r, mindur=%s' % (d, sr, mn))
    op.gives = 'array'
    return op


def op_duration_bad(src, m):
    d = src.pick(['x', None, [1], float('nan'), float('inf')])
    return Op('duration', lambda: lambda p: p.duration(d), reject(), repr(d), True)


def op_mindur(src, m):
    v = src.pick([None, 2, 3, 1, 5, 0, -1, 100, 4])

    def step(m):
        m.mindur = v
        if v is not None:
            m.mask = keep_min(m.mask, v)
    return Op('mindur=', lambda: lambda p: setattr(p, 'mindur', v), step, repr(v))


def op_mindur_bad(src, m):
    v = src.pick([1.5, '3', [2], 2.0, np.float64(1)])
    return Op('mindur=', lambda: lambda p: setattr(p, 'mindur', v), reject(), repr(v), True)


def op_nof(src, m):
    v = src.pick([None, 'nan', 'filter'])
    return Op('nof=', lambda: lambda p: setattr(p, 'nof', v), lambda m: setattr(m, 'nof', v), repr(v))


def op_nof_bad(src, m):
    v = src.pick(['ignore', 'x', 5, True, '', 'Nan'])
    return Op('nof=', lambda: lambda p: setattr(p, 'nof', v), reject(), repr(v), True)


def op_fn(src, m):
    v = src.pick(['f.txt', '', 'dir/g.xls', 'h'])

    def step(m):
        m.fn = v
        m.filenames = [v] + m.filenames[1:]
    return Op('fn=', lambda: lambda p: setattr(p, 'fn', v), step, repr(v))


def op_fn_bad(src, m):
    v = src.pick([None, 5, b'x', ['f']])
    return Op('fn=', lambda: lambda p: setattr(p, 'fn', v), reject(), repr(v), True)


def op_prefix(src, m):
    v = src.pick(['ch', 'col', 'x', 'channel_'])
    return Op('FALLBACK_PREFIX=', lambda: lambda p: setattr(p, 'FALLBACK_PREFIX', v),
              lambda m: setattr(m, 'prefix', v), repr(v))


def op_prefix_bad(src, m):
    v = src.pick([None, 5, b'x'])
    return Op('FALLBACK_PREFIX=', lambda: lambda p: setattr(p, 'FALLBACK_PREFIX', v), reject(), repr(v), True)


def op_ragged(src, m):
    return op_data(src, m, ragged=True)


def op_data(src, m, ragged=False):
    lo = 0 if src.chance(1, 8) else 1
    keys = sorted(m.data) if m.data and src.chance(1, 2) else None
    n = m.n() if src.chance(1, 3) else None
    d = gen_data(src, n=n, keys=keys, lo=lo)
    if ragged:
        # columns of different length: the one with the lowest key decides the size of the mask
        for k in sorted(d)[1:]:
            d[k] = gen_column(src, src.size(0, 8))
    fd = {k: as_form(src, v) for k, v in d.items()}
    form = mapping_form(src, fd)

    def make():
        x = form()
        return lambda p: setattr(p, 'data', x)
    return Op('data=', make, lambda m: m.set_data(fd), 'keys %r n %s' % (list(d), len(d[min(d)]) if d else 0))


def bad_items(src, items):
    """Items of which one is invalid, or that raise while read: (make, types)."""
    k = src.draw(4)
    if k == 0:
        xs = insert_at(src, items, (bad_key(src), [1.0] * (len(items[0][1]) if items else 2)))
        return mapping_form(src, dict(xs)), (TypeError,), 'bad key'
    if k == 1:
        xs = insert_at(src, items, (src.pick([77, 0, 1]), bad_value(src)))
        d = {}
        for a, b in xs:                  # the bad one must survive if keys collide
            if a in d and is_bad(d[a]):
                continue
            d[a] = b
        return mapping_form(src, d), (Exception,), 'bad value'
    at = src.draw(len(items) + 1)
    if k == 2:
        return (lambda: raising(items, at)), (Injected,), 'iterator raises at %d' % at
    at = min(at, max(0, len(items) - 1))
    if not items:
        return (lambda: raising(items, 0)), (Injected,), 'iterator raises'
    return (lambda: BadMapping(dict(items), at)), (Injected,), 'mapping raises at %d' % at


def is_bad(v):
    return not (isinstance(v, (list, tuple, np.ndarray)) and np.ndim(np.array(v, dtype=object)) == 1)


def op_data_bad(src, m):
    items = list(gen_data(src).items())
    make_arg, types, why = bad_items(src, items)

    def make():
        x = make_arg()
        return lambda p: setattr(p, 'data', x)
    return Op('data=', make, reject(*types), why, True)


def op_names(src, m):
    keys = sorted(m.data) if m.data and src.chance(3, 4) else gen_keys(src)
    d = gen_names(src, keys)
    form = mapping_form(src, d)

    def make():
        x = form()
        return lambda p: setattr(p, 'names', x)
    return Op('names=', make, lambda m: setattr(m, 'names', dict(d)), repr(d))


def op_names_bad(src, m):
    k = src.draw(4)
    if k == 0:
        return Op('names=', lambda: lambda p: setattr(p, 'names', None), reject(), 'None', True)
    items = list(gen_names(src, gen_keys(src, 1)).items())
    at = src.draw(len(items) + 1)
    if k == 1:
        return Op('names=', lambda: (lambda it: lambda p: setattr(p, 'names', it))(raising(items, at)), reject(Injected), 'raises', True)
    xs = insert_at(src, items, (bad_key(src), 'z'))
    form = mapping_form(src, dict(xs))

    def make():
        x = form()
        return lambda p: setattr(p, 'names', x)
    return Op('names=', make, reject(TypeError), 'bad key', True)


def op_item(src, m):
    """Item assignment, update, |= or setdefault on data; same length as the rest."""
    n = len(m.mask)
    k = src.draw(4)
    if not m.data or m.n() != n:
        return op_data(src, m)
    if k == 0:
        key, v = src.pick(KEYS), as_form(src, gen_column(src, n))

        def step(m):
            m.data[key] = model_array(v)
        return Op('data[]=', lambda: lambda p: p.data.__setitem__(key, v), step, repr(key))
    d = {kk: as_form(src, v) for kk, v in gen_data(src, n=n).items()}
    form = mapping_form(src, d)
    if k == 3:
        key, v = src.pick(KEYS), as_form(src, gen_column(src, n))

        def step(m):
            m.data.setdefault(key, model_array(v))
        return Op('data.setdefault', lambda: lambda p: none(p.data.setdefault(key, v)), step, repr(key))

    def make():
        x = form()
        if k == 1:
            return lambda p: p.data.update(x)
        return lambda p: none(p.data.__ior__(x))

    def step(m):
        for kk, v in d.items():
            m.data[kk] = model_array(v)
    return Op('data.update' if k == 1 else 'data|=', make, step, 'keys %r' % (list(d),))


def none(x):
    return None


def op_item_bad(src, m):
    n = len(m.mask)
    k = src.draw(6)
    if k == 4:
        key = bad_key(src)
        return Op('data.setdefault', lambda: lambda p: none(p.data.setdefault(key, [1.0] * n)), reject(TypeError), 'key %r' % (key,), True)
    if k == 5:
        v, key = bad_value(src), src.pick(KEYS)
        return Op('data.setdefault', lambda: lambda p: none(p.data.setdefault(key, v)), reject(), 'value %s' % brief(v, 40), True)
    if k == 0:
        key = bad_key(src)
        return Op('data[]=', lambda: lambda p: p.data.__setitem__(key, [1.0] * n), reject(TypeError), 'key %r' % (key,), True)
    if k == 1:
        v = bad_value(src)
        return Op('data[]=', lambda: lambda p: p.data.__setitem__(1, v), reject(), 'value %s' % brief(v, 40), True)
    make_arg, types, why = bad_items(src, list(gen_data(src, n=n).items()))

    def make():
        x = make_arg()
        if k == 2:
            return lambda p: p.data.update(x)
        return lambda p: none(p.data.__ior__(x))
    return Op('data.update' if k == 2 else 'data|=', make, reject(*types), why, True)


def op_nameitem(src, m):
    k = src.draw(5)
    if k == 0:
        key, v = src.pick(KEYS), src.pick(NAMES)
        return Op('names[]=', lambda: lambda p: p.names.__setitem__(key, v), lambda m: m.names.__setitem__(key, v), '%r: %r' % (key, v))
    if k == 1:
        key, v = src.pick(KEYS), src.pick(NAMES)
        return Op('names.setdefault', lambda: lambda p: none(p.names.setdefault(key, v)), lambda m: none(m.names.setdefault(key, v)), '%r: %r' % (key, v))
    if k == 4 and m.names:
        key = src.pick(sorted(m.names))
        return Op('del names[]', lambda: lambda p: p.names.__delitem__(key), lambda m: m.names.__delitem__(key), repr(key))
    d = gen_names(src, gen_keys(src, 0, 3))
    form = mapping_form(src, d)

    def make():
        x = form()
        if k == 2:
            return lambda p: p.names.update(x)
        return lambda p: none(p.names.__ior__(x))
    return Op('names.update' if k == 2 else 'names|=', make, lambda m: m.names.update(d), repr(d))


def op_nameitem_bad(src, m):
    k = src.draw(4)
    if k == 3:
        key = bad_key(src)
        return Op('names.setdefault', lambda: lambda p: none(p.names.setdefault(key, 'z')), reject(TypeError), 'key %r' % (key,), True)
    if k == 0:
        key = bad_key(src)
        return Op('names[]=', lambda: lambda p: p.names.__setitem__(key, 'z'), reject(TypeError), 'key %r' % (key,), True)
    items = list(gen_names(src, gen_keys(src, 1)).items())
    if src.chance(1, 2):
        at = src.draw(len(items) + 1)
        arg, types = (lambda: raising(items, at)), (Injected,)
    else:
        xs = insert_at(src, items, (bad_key(src), 'z'))
        arg, types = mapping_form(src, dict(xs)), (TypeError,)

    def make():
        x = arg()
        if k == 1:
            return lambda p: p.names.update(x)
        return lambda p: none(p.names.__ior__(x))
    return Op('names.update' if k == 1 else 'names|=', make, reject(*types), 'bad', True)


def op_call(src, m):
    """A call of the pack; returns an array."""
    keys = [k for k in sorted(m.data) if len(m.data[k]) == len(m.mask)]
    if not keys:
        return op_mask_reset(src, m)
    key = src.pick(keys)
    ch = channel_ref(src, m, key)
    try:
        if m.key(ch) not in keys:
            ch = key
    except Reject:
        pass
    k = src.draw(3)
    parts = len(runs(m.mask))
    if k == 0:
        nof = src.pick([None, 'nan', 'filter', 'ignore'])
        op = Op('call', lambda: (lambda p: p(ch, nof=nof)) if nof else (lambda p: p(ch)),
                lambda m: m.column(m.key(ch), nof=nof), '%r nof=%r' % (ch, nof))
    else:
        part = src.draw(parts + 1)
        nof = src.pick([None, 'nan', 'filter', 'ignore'])
        op = Op('call', lambda: lambda p: p(ch, part=part, nof=nof),
                lambda m: m.column(m.key(ch), part=part), '%r part=%r' % (ch, part))
    op.gives = 'array'
    return op


def channel_ref(src, m, key):
    """Some way to refer to the column key; resolved by the model itself."""
    k = src.draw(4)
    if k == 1 and m.names.get(key):
        return m.names[key]
    if k == 2 and key >= 0:
        return m.prefix + str(key)
    return key


def op_call_bad(src, m):
    ch = src.pick([99, 'nosuch', -99, 'ch99', 'CH0', ''])
    if ch in m.names.values() or ch in m.data:
        ch = 'never a name'
    return Op('call', lambda: lambda p: p(ch), reject(KeyError), repr(ch), True)


def op_del_bad(src, m):
    a = src.pick(['data', 'names', 'nof', 'mindur', 'fn', 'filenames', 'FALLBACK_PREFIX'])
    return Op('delattr', lambda: lambda p: delattr(p, a), reject(AttributeError), a, True)


def other_pack(src, m, misfit=False):
    """(model of another pack, maker of a real one)."""
    from .cases import lib
    o = Model()
    keys = sorted(m.data)
    nk = sorted(m.names)
    if misfit:
        k = src.draw(3)
        bad = lambda ks: sorted(set(ks) ^ {src.pick(KEYS)}) or [0 if ks != [0] else 1]
        if k != 1:
            keys = bad(keys)
        if k != 0:
            nk = bad(nk)
    else:
        k = src.draw(6)
        if k == 4:
            keys = []
        elif not keys:
            keys = gen_keys(src, 0, 3)
        if k == 5:
            nk = []
        elif not nk:
            nk = keys if src.chance(1, 2) else gen_keys(src, 0, 3)
    d = gen_data(src, keys=keys) if keys else {}
    names = gen_names(src, nk)
    o.set_data(d)
    o.names = dict(names)
    fns = [src.pick(['o1', 'o2', ''])] + [src.pick(['e1', 'e2']) for _ in range(src.draw(3) if src.chance(1, 3) else 0)]
    o.fn, o.filenames = fns[0], fns

    def make():
        C = lib().ChannelPack
        q = C(dict(d), dict(names))
        q.fn = fns[0]
        for f in fns[1:]:
            e = C()
            e.fn = f
            q.append_pack(e)
        return q
    return o, make


def op_append(src, m, misfit=False):
    o, mk = other_pack(src, m, misfit)
    holder = {}

    def make():
        q = mk()
        holder['q'] = q
        return lambda p: p.append_pack(q)
    op = Op('append_pack', make, lambda m: m.append(o), 'keys %r names %r n %d' % (sorted(o.data), sorted(o.names), o.n()),
            misfit)
    op.other = (o, holder)
    return op


def op_append_bad(src, m):
    if not m.data and not m.names:
        return op_nof_bad(src, m)
    if src.chance(1, 8):
        return Op('append_pack', lambda: lambda p: p.append_pack(5), reject(), 'not a pack', True)
    op = op_append(src, m, misfit=True)
    probe = m.copy()
    try:
        probe.append(op.other[0])
        op.invalid = False             # it fits after all (one side empty)
    except Reject:
        pass
    return op


SELECT = [(op_mask, 6), (op_startstop, 5), (op_duration, 5), (op_mindur, 4), (op_mask_reset, 3), (op_nof, 2),
          (op_data, 2), (op_append, 2), (op_call, 2), (op_item, 1), (op_names, 1), (op_nameitem, 1), (op_fn, 1), (op_prefix, 1)]
BAD = [(op_mask_bad, 3), (op_startstop_bad, 4), (op_duration_bad, 2), (op_mindur_bad, 2), (op_nof_bad, 2), (op_data_bad, 4),
       (op_append_bad, 4), (op_call_bad, 1), (op_item_bad, 3), (op_names_bad, 2), (op_nameitem_bad, 2), (op_fn_bad, 2),
       (op_prefix_bad, 1), (op_del_bad, 1)]

RAGGED = SELECT + [(op_ragged, 1)]


def gen_op(src, m, table):
    return src.weighted(table)(src, m)


# ------------------------------------------------------------------ running one operation
class Ran(object):
    __slots__ = ('ok', 'exc', 'value')


def execute(fn, pack):
    """Run the prepared operation; harness exceptions pass, library ones are recorded."""
    from .util import HangTimeout, BudgetExceeded
    from .core import Exhausted
    r = Ran()
    r.ok, r.exc, r.value = True, None, None
    try:
        r.value = fn(pack)
    except (HangTimeout, BudgetExceeded, HarnessError, Exhausted, Violation):
        raise
    except BaseException as e:
        r.ok, r.exc = False, e
    return r


def check_step(ctx, pack, m, op, fn=None):
    """Run op on pack and model without allocation faults; returns the new model."""
    if fn is None:
        fn = op.make()
    m2 = m.copy()
    rej, ret = None, None
    try:
        ret = op.step(m2)
    except Reject as r:
        rej, m2 = r, m
    r = execute(fn, pack)
    ctx.steps += 1
    ctx.log('op', op, 'ok' if r.ok else type(r.exc).__name__)
    if rej is not None and r.ok and op.lenient:
        return accepted(pack, m)
    judge(op, r, rej, ret)
    if rej is not None:
        ctx.fault('rejected:' + op.name)
    return m2


def accepted(pack, m):
    """A mask without meaning was set; go on from a reset mask."""
    pack.mask_reset()
    m = m.copy()
    m.set_mask([True] * m.n())
    return m


def judge(op, r, rej, ret):
    if rej is not None:
        if r.ok:
            raise Violation('accepted', '%r was accepted, it has to be rejected' % op)
        if not isinstance(r.exc, rej.types):
            raise Violation('wrong-exception', '%r raised %s: %s' % (op, type(r.exc).__name__, str(r.exc)[:200]))
        return
    if not r.ok:
        raise Violation('raised', '%r raised %s: %s' % (op, type(r.exc).__name__, str(r.exc)[:200]))
    if op.gives:
        got = normarr(r.value)
        if got != ret:
            raise Violation('wrong-return', '%r returned %s instead of %s' % (op, brief(show_mask(got), 250), brief(show_mask(ret), 250)))


def compare(pack, m, what, deep=True, cls='state'):
    d = diff_obs(observe(pack, deep), expected(m, deep))
    if d is not None:
        raise Violation(cls, '%s: %s' % (what, d))


def new_pack(src, lo=0):
    """(pack, model) built by the constructor and a few attributes."""
    from .cases import lib
    m = Model()
    d = gen_data(src, lo=lo) if not src.chance(1, 10) or lo else {}
    names = gen_names(src, sorted(d)) if src.chance(3, 4) else {}
    fd = {k: as_form(src, v) for k, v in d.items()}
    p = lib().ChannelPack(fd, dict(names))
    m.set_data(fd)
    m.names = dict(names)
    if src.chance(1, 3):
        p.fn = 'first'
        m.fn, m.filenames = 'first', ['first']
    return p, m


def alloc_step(ctx, pack, m, op, others=()):
    """Run op while the n-th numpy allocation fails; then again with memory.

    Raised: everything as before.  Returned: everything as after."""
    from . import alloc
    src = ctx.src
    fn = op.make()
    at = 1 + src.draw(8)
    sticky = src.chance(1, 4)
    alloc.arm(at, sticky)
    try:
        r = execute(fn, pack)
    finally:
        seen, fired = alloc.disarm()
    ctx.steps += 1
    ctx.log('alloc-op', op, 'at', at, 'seen', seen, 'fired', fired, 'ok' if r.ok else type(r.exc).__name__)
    m2 = m.copy()
    rej, ret = None, None
    try:
        ret = op.step(m2)
    except Reject as e:
        rej, m2 = e, m
    if fired:
        ctx.fault('alloc-fails:' + op.name, fired)
        ctx.sched('alloc', op.name, at, seen)
        what = 'allocation %d failed during %r' % (at, op)
        if not r.ok:
            compare(pack, m, what + ', which raised %s' % type(r.exc).__name__, cls='changed-by-failure')
            for q, mq, w in others:
                compare(q, mq, what + ', which raised; ' + w, cls='other-changed')
            return check_step(ctx, pack, m, op), True
    if rej is not None and r.ok and op.lenient:
        return accepted(pack, m), bool(fired)
    judge(op, r, rej, ret)
    if rej is not None:
        ctx.fault('rejected:' + op.name)
    return m2, bool(fired)
