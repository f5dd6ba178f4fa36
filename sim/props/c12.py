"""C12: no operation on one pack changes another pack or the caller's objects."""
import numpy as np

from .. import model
from ..core import Violation
from ..model import (Model, Op, Reject, check_step, compare, gen_op, gen_data, gen_names, gen_column, gen_mask, gen_keys,
                     as_form, runs, tf, triggers, alloc_step, SELECT, BAD, KEYS, NAMES)
from ..cases import Loaded, close_quietly, lib, make_case
from ..util import normarr, brief
from . import common

ALLOC = True
RUNS = {'quick': 50000, 'thorough': 800000}
RULE = ('A run draws 2-4 packs built from a pool of caller objects (arrays, views, dicts, lists, masks) and from one another, in a quarter of the runs also from files and streams read again and again, and a history of 2-16 '
        'operations on them (assignments of data, names, mask, fn from the pool or from another pack, appends, items, masking, durations, failing '
        'operations, allocation failures). After every operation every pack is compared with its own model and every caller object and every array '
        'a call has returned with its snapshot. Non-trivial: an object is shared, or an operation failed; distinct by the hash of the history.')
REAL = common.REAL_PACK
STUB = common.STUB_PACK
ASSUME = common.ASSUME_PACK


class Pool(object):
    def __init__(self):
        self.objs = []                # (label, object, snapshot)
        self.arrays, self.dicts, self.masks, self.namedicts = [], [], [], []

    def add(self, label, obj):
        self.objs.append((label, obj, snap(obj)))
        return obj

    def check(self, what):
        for label, obj, s in self.objs:
            now = snap(obj)
            if now != s:
                raise Violation('caller-object-changed', '%s: %s is %s instead of %s' % (what, label, brief(now, 200), brief(s, 200)))


def snap(o):
    if isinstance(o, np.ndarray):
        return ('array', o.dtype.str, o.flags.writeable, normarr(o))
    if isinstance(o, dict):
        return ('dict', type(o).__name__, [(k, type(v).__name__, snap(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [model.norm(v) for v in o])
    return o


def make_pool(src, n):
    P = Pool()
    for i in range(2 + src.draw(2)):
        a = gen_column(src, n)
        k = src.draw(3)
        if k == 1:
            b = np.repeat(a, 2)
            a = b[::2]
            P.add('base of array %d' % i, b)
        P.arrays.append(P.add('array %d' % i, a))
    # columns that can serve as masks too
    b = np.array(gen_mask(src, n), dtype=bool)
    P.arrays.append(P.add('bool array', b))
    P.masks.append(b)
    m = np.array(gen_mask(src, n), dtype=bool)
    P.masks.append(P.add('mask', m))
    for i in range(2):
        keys = gen_keys(src, 1)
        d = {k: (src.pick(P.arrays) if src.chance(2, 3) else as_form(src, gen_column(src, n))) for k in keys}
        for k, v in d.items():
            if isinstance(v, list):
                P.add('list in dict %d' % i, v)
        P.dicts.append(P.add('dict %d' % i, d))
        P.namedicts.append(P.add('names dict %d' % i, gen_names(src, keys)))
    return P


def op_new(src, P, packs):
    """A further pack from a dict of the pool or from another pack."""
    C = lib().ChannelPack
    if packs and src.chance(1, 2):
        q, mq = src.pick(packs)
        d, nm = q.data, q.names
        md, mn = dict(mq.data), dict(mq.names)
    else:
        i = src.draw(len(P.dicts))
        d, nm = P.dicts[i], P.namedicts[i] if src.chance(2, 3) else {}
        md, mn = {k: np.array(v) for k, v in d.items()}, dict(nm)
    m = Model()
    p = C(d, nm)
    m.set_data(md)
    m.names = dict(mn)
    return p, m


def make_sources(ctx):
    """Files and streams that are read, and read again, into packs during the history."""
    src, out = ctx.src, []
    if not src.chance(1, 4):
        return out
    for i in range(1 + src.draw(2)):
        case = make_case(src)
        L = Loaded(ctx.world, case, 'src%d' % i)
        rows = max([len(v) for v in L.exp_cols.values()] + [0])
        if getattr(case, 'pass_encoding', True) is False:
            continue                # bytes and strings do not append
        if rows <= 40 and all(isinstance(x, str) for x in L.exp_names.values()):
            out.append(L)
    return out


def op_read(ctx, P, L):
    """A further pack, read from a source."""
    stream, fn = L.make_stream()
    o = L.read(stream)
    if not o.ok:
        raise Violation('read-raised', 'reading %s %r' % (L.case.factory, o))
    p = o.value
    d = L.diff(p, fn)
    if d:
        raise Violation('read-changed', 'reading %s again: %s' % (L.case.factory, d))
    close_quietly(stream)
    for k in ('names', 'usecols', 'converters'):
        v = L.last_kw.get(k)
        if isinstance(v, (dict, list)):
            P.add('argument %s of a read' % k, v if k != 'converters' else sorted(v))
    m = Model()
    m.set_data({k: np.array(v) for k, v in p.data.items()})
    m.names = dict(p.names)
    m.fn, m.filenames = fn, [fn]
    return p, m


def op_shared(src, P, packs, i):
    """An operation on pack i whose argument is shared with somebody else."""
    p, m = packs[i]
    j = src.draw(len(packs))
    q, mq = packs[j]
    n = len(m.mask)
    k = src.draw(10)
    if k == 0:
        md = dict(mq.data)
        return Op('data=', lambda: lambda p: setattr(p, 'data', q.data), lambda m: m.set_data(md), 'pack %d.data' % j)
    if k == 1:
        d = src.pick(P.dicts)
        return Op('data=', lambda: lambda p: setattr(p, 'data', d), lambda m: m.set_data(d), 'dict of the caller')
    if k == 2:
        mn = dict(mq.names)
        return Op('names=', lambda: lambda p: setattr(p, 'names', q.names), lambda m: setattr(m, 'names', dict(mn)), 'pack %d.names' % j)
    if k == 3:
        d = src.pick(P.namedicts)
        return Op('names=', lambda: lambda p: setattr(p, 'names', d), lambda m: setattr(m, 'names', dict(d)), 'dict of the caller')
    if k == 4 and len(mq.mask) == n:
        mm = list(mq.mask)
        return Op('mask=', lambda: lambda p: setattr(p, 'mask', q.mask), lambda m: m.set_mask(mm), 'pack %d.mask' % j)
    if k in (4, 5):
        c = [a for a in P.masks if len(a) == n]
        if c:
            a = src.pick(c)
            v = [bool(x) for x in a]
            return Op('mask=', lambda: lambda p: setattr(p, 'mask', a), lambda m: m.set_mask(v), 'mask of the caller')
    if k in (4, 5, 6):
        # a boolean column as mask
        c = [(kk, mq) for kk in sorted(mq.data) if mq.data[kk].dtype.kind == 'b' and len(mq.data[kk]) == n]
        if c:
            kk, _ = src.pick(c)
            v = [bool(x) for x in mq.data[kk]]
            return Op('mask=', lambda: lambda p: setattr(p, 'mask', q(kk, nof='ignore')), lambda m: m.set_mask(v), 'pack %d(%d)' % (j, kk))
    if k == 7 and m.data and m.n() == n:
        c = [a for a in P.arrays if len(a) == n]
        if c:
            a, key = src.pick(c), src.pick(KEYS)
            return Op('data[]=', lambda: lambda p: p.data.__setitem__(key, a), lambda m: m.data.__setitem__(key, np.array(a)), 'array of the caller')
    if k == 8 and m.data and m.n() == n and mq.data and mq.n() == n:
        kk, key = src.pick(sorted(mq.data)), src.pick(KEYS)
        a = np.array(mq.data[kk])
        return Op('data[]=', lambda: lambda p: p.data.__setitem__(key, q(kk, nof='ignore')), lambda m: m.data.__setitem__(key, a), 'column of pack %d' % j)
    if k == 6 and len(mq.mask) == n:
        mm = list(mq.mask)
        res = triggers(mm, [not x for x in mm])

        def step(m):
            m.set_mask([a and b for a, b in zip(m.mask, res)])
        return Op('startstop', lambda: lambda p: model.none(p.startstop(q.mask, ~q.mask)), step, 'mask of pack %d as trigger' % j)
    if k == 9 and n and src.chance(1, 2):
        # the caller goes on using the array it set as mask
        v = gen_mask(src, n)
        inv = np.array([not x for x in v], dtype=bool)
        view = src.draw(4)

        def make():
            a = np.array(v, dtype=bool)
            if view == 1:
                a = np.array([True] + v + [False], dtype=bool)[1:-1]
            elif view == 2:
                a = np.array(v[::-1], dtype=bool)[::-1]
            elif view == 3:
                a = np.array(v, dtype=bool).view()

            def do(p):
                p.mask = a
                a[:] = inv
            return do
        return Op('mask=', make, lambda m: m.set_mask(list(v)), 'array the caller alters afterwards')
    mo = mq.copy()
    if len(m.mask) + len(mo.mask) > 150:
        return gen_op(src, m, SELECT)
    return Op('append_pack', lambda: lambda p: p.append_pack(q), lambda m: m.append(mo), 'pack %d' % j)


def run(ctx):
    src = ctx.src
    n = src.size(0, 12)
    P = make_pool(src, n)
    packs = []
    for _ in range(2 + src.draw(2)):
        packs.append(op_new(src, P, packs))
    S = make_sources(ctx)
    for L in S:
        packs.append(op_read(ctx, P, L))
    hist = ['%s' % L.case.factory for L in S]
    for i, (p, m) in enumerate(packs):
        compare(p, m, 'new pack %d' % i)
    for step in range(2 + src.draw(14)):
        i = src.draw(len(packs))
        p, m = packs[i]
        k = src.weighted([('shared', 8), ('plain', 6), ('bad', 3), ('alloc', 3), ('new', 1), ('call', 2), ('read', 2 if S else 0)])
        if k == 'new' and len(packs) < 5:
            packs.append(op_new(src, P, packs))
            hist.append('new pack')
            ctx.log('new', len(packs))
        elif k in ('new', 'read') and S and len(packs) < 7:
            packs.append(op_read(ctx, P, src.pick(S)))
            hist.append('read again')
            ctx.log('read', len(packs))
            ctx.nontrivial = True
        elif k == 'call' and src.chance(1, 3):
            # triggers of the caller; the array returned is the caller's as well
            c = [a for a in P.masks if len(a) == len(m.mask)]
            if c:
                a, b, ap = src.pick(c), src.pick(c), src.chance(1, 2)
                r = p.startstop(a, b, apply=ap)
                res = triggers(a, b)
                if normarr(r) != ('b', [('bool', x) for x in res]):
                    raise Violation('wrong-return', 'startstop returned %s' % brief(r, 200))
                P.add('array returned by startstop', r)
                if ap:
                    m = m.copy()
                    m.set_mask([x and y for x, y in zip(m.mask, res)])
                    packs[i] = (p, m)
                hist.append('pack %d: startstop(arrays of the caller, apply=%s)' % (i, ap))
        elif k == 'call':
            if m.data:
                key = src.pick(sorted(m.data))
                nof = src.pick([None, 'ignore', 'filter', 'nan'])
                parts = len(runs(m.mask))
                a = p(key, part=src.draw(parts)) if parts and src.chance(1, 3) else p(key, nof=nof)
                P.add('array returned by a call', a)
                hist.append('call')
        else:
            if k == 'bad':
                op = gen_op(src, m, BAD)
            elif k == 'plain':
                op = gen_op(src, m, SELECT)
            else:
                op = op_shared(src, P, packs, i)
                ctx.nontrivial = True
            hist.append('pack %d: %r' % (i, op))
            if k == 'alloc':
                m, _ = alloc_step(ctx, p, m, op)
            else:
                m = check_step(ctx, p, m, op)
            packs[i] = (p, m)
        what = 'after %s' % ' ; '.join(hist[-3:])
        deep = src.draw(4) == 3
        for j, (q, mq) in enumerate(packs):
            compare(q, mq, '%s, pack %d' % (what, j), deep=deep, cls='own-state' if j == i else 'other-pack-changed')
        P.check(what)
    for j, (q, mq) in enumerate(packs):
        compare(q, mq, 'at the end, pack %d' % j, cls='state')
    ctx.sample = {'history': hist}
    ctx.sched(*hist)
