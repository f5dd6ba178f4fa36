"""C15: records() iterates one snapshot whatever happens to the pack meanwhile."""
from .. import model, threads
from ..core import Violation, HarnessError
from ..model import (check_step, alloc_step, compare, gen_op, new_pack, runs, Reject, SELECT, BAD)
from ..util import norm, brief
from . import common

ALLOC = True
RUNS = {'quick': 100000, 'thorough': 900000}
RULE = ('A run draws a pack and a history that interleaves: starting an iterator of records (part, nof, fallback drawn), taking a few records from '
        'one of up to four live iterators, closing one, and operations on the pack (masking, durations, nof, names, data, items, appends; failing '
        'ones; failing allocations). In some runs the operations and the iterators run in two threads under a seeded schedule. Every iterator must '
        'hand out exactly the records of its moment of start. Non-trivial: the pack changed while an iterator was live; distinct by the hash of '
        'the history.')
REAL = common.REAL_PACK
STUB = common.STUB_PACK + ['the thread scheduler, in the runs with two threads']
ASSUME = common.ASSUME_PACK + ['the moment of start is the first next()']


class Iter(object):
    def __init__(self, src, m, p):
        parts = len(runs(m.mask))
        self.kw = {}
        if src.chance(1, 3):
            self.kw['part'] = src.draw(parts + 1)
        if src.chance(1, 2):
            self.kw['nof'] = src.pick(['nan', 'filter', 'ignore'])
        if src.chance(1, 2):
            self.kw['fallback'] = True
        self.pos = 0
        self.done = False
        try:
            self.fields, self.rows = m.records(**self.kw)
            self.rej = None
        except Reject as r:
            self.rej = r
        self.it = p.records(**self.kw)

    def take(self, label):
        """One next(); compares with the snapshot."""
        try:
            r = next(self.it)
        except StopIteration:
            if self.rej is not None:
                raise Violation('accepted', '%s: records(%r) ended instead of raising' % (label, self.kw))
            if self.pos != len(self.rows):
                raise Violation('records-missing', '%s: records(%r) ended after %d of %d records' % (label, self.kw, self.pos, len(self.rows)))
            self.done = True
            return
        except (Violation, HarnessError, threads.Killed):
            raise
        except Exception as e:
            if self.rej is not None and self.pos == 0 and isinstance(e, self.rej.types):
                self.done = True
                return
            raise Violation('raised', '%s: records(%r) raised %s: %s at record %d' % (label, self.kw, type(e).__name__, str(e)[:150], self.pos))
        if self.rej is not None:
            raise Violation('accepted', '%s: records(%r) yielded a record instead of raising' % (label, self.kw))
        if self.pos >= len(self.rows):
            raise Violation('records-extra', '%s: records(%r) yields record %d of %d: %s' % (label, self.kw, self.pos + 1, len(self.rows), brief(r, 200)))
        if tuple(r._fields) != self.fields:
            raise Violation('wrong-fields', '%s: fields %r instead of %r' % (label, r._fields, self.fields))
        got = tuple(norm(v) for v in r)
        if got != self.rows[self.pos]:
            raise Violation('wrong-record', '%s: records(%r) record %d is %s instead of %s' % (
                label, self.kw, self.pos, brief(got, 200), brief(self.rows[self.pos], 200)))
        for f, v in zip(self.fields, r):
            if getattr(r, f) is not v and norm(getattr(r, f)) != norm(v):
                raise Violation('wrong-record', '%s: field %s' % (label, f))
        self.pos += 1


def simple_names(src, m):
    """Valid distinct names most of the time, so that records come out."""
    pool = src.shuffle(['a', 'b', 'speed', 'x1', 'ch0', 'ch1', 'ch2', 'ch3', 'RPM', 'ch10'])
    keys = sorted(m.data)
    if src.chance(1, 2):
        keys = src.shuffle(keys)
    return {k: pool[i] for i, k in enumerate(keys)}


def run(ctx):
    src, w = ctx.src, ctx.world
    p, m = new_pack(src, lo=1)
    if src.chance(3, 4):
        d = simple_names(src, m)
        p.names = d
        m.names = dict(d)
    hist = []
    for _ in range(src.draw(3)):
        op = gen_op(src, m, SELECT)
        hist.append(repr(op))
        m = check_step(ctx, p, m, op)
    threaded = src.chance(1, 8)
    iters = []

    def start():
        it = Iter(src, m, p)
        hist.append('records(%r)' % (it.kw,))
        it.take('first record')
        ctx.log('start', it.kw, it.pos, it.done)
        ctx.steps += 1
        if not it.done:
            iters.append(it)

    start()
    if threaded:
        for _ in range(src.draw(3)):
            start()
        ops = 1 + src.draw(5)
        state = {'m': m}

        def mutate():
            for _ in range(ops):
                op = gen_op(src, state['m'], SELECT if src.chance(3, 4) else BAD)
                hist.append(repr(op))
                state['m'] = check_step(ctx, p, state['m'], op)
            compare(p, state['m'], 'after the operations beside the iterators')

        def consume():
            k = 0
            while any(not it.done for it in iters):
                live = [it for it in iters if not it.done]
                live[src.draw(len(live))].take('beside a thread that changes the pack')
                k += 1
        sch = threads.Sched(ctx, opcodes=src.chance(1, 2))
        sch.spawn('mutator', mutate)
        sch.spawn('reader', consume)
        sch.run()
        for t in sch.tasks:
            if t.exc is not None:
                raise t.exc
        ctx.probe('threaded')
    else:
        for _ in range(2 + src.draw(14)):
            k = src.weighted([('take', 6), ('op', 5), ('start', 2), ('bad', 1), ('alloc', 1), ('close', 1)])
            live = [it for it in iters if not it.done]
            if k == 'take' and live:
                it = src.pick(live)
                for _ in range(1 + src.draw(3)):
                    if not it.done:
                        it.take('after %s' % ' ; '.join(hist[-3:]))
                        ctx.steps += 1
                ctx.log('take', it.pos)
            elif k == 'start' and len(live) < 4:
                start()
            elif k == 'close' and live:
                it = src.pick(live)
                it.it.close()
                it.done = True
                hist.append('close')
            else:
                if len(m.mask) > 150:
                    continue
                op = gen_op(src, m, BAD if k == 'bad' else SELECT)
                hist.append(repr(op))
                if k == 'alloc':
                    m, _ = alloc_step(ctx, p, m, op)
                else:
                    m = check_step(ctx, p, m, op)
                if live:
                    ctx.fault('changed-under-iterator')
        for it in iters:
            while not it.done:
                it.take('draining after %s' % ' ; '.join(hist[-3:]))
        compare(p, m, 'at the end', deep=False)
    ctx.sample = {'history': hist}
    ctx.sched(*hist)
