"""C09: reads and packs in separate threads do not affect each other."""
from .. import model, threads, vio
from ..core import Violation, HarnessError, expect
from ..cases import Loaded, delivery_knobs, make_case, close_quietly, lib
from ..gentext import TextCase, LazyCase
from ..gendbf import DbfCase
from ..genxl import SheetCase
from ..model import check_step, compare, gen_op, new_pack, SELECT, BAD
from ..util import chain, canon_data, brief
from ..vio import Fault, IO_KINDS, OPEN_KINDS
from . import common

RUNS = {'quick': 8000, 'thorough': 150000}
RULE = ('A run draws 2-4 threads, each reading its own source (delimited text, lazy text, dbf, xls, xlsx; sometimes two threads the same file or a '
        'cut source) or running a history of operations on its own pack. The seed decides delivery, short reads, a fault in at most one thread, and '
        'at which lines, bytecodes or I/O calls of the library the threads are preempted. Results are compared with what each thread gets alone; '
        'afterwards everything is read once more, one after another. Non-trivial: at least one preemption; distinct by the hash of the trace.')
REAL = common.REAL_IO + ['CPython threads, of which exactly one runs at a time']
STUB = common.STUB_IO + ['the thread scheduler: the seed decides after how many lines, bytecodes or I/O calls who runs next', 'threading.Lock and RLock']
ASSUME = ['preemption happens between lines or bytecodes of channelpack and at I/O calls; a call into numpy, zlib or expat is atomic']

READFN = {'textpack': 'textpack', 'lazy_textpack': 'lazy_textpack', 'dbfpack': 'dbfpack', 'sheetpack': 'sheetpack'}


class Reader(object):
    """A thread that reads one source."""

    def __init__(self, src, w, i, theme, share=None, datemodes=False):
        self.name = 'reader%d' % i
        self.fault = None
        self.solo = None
        if share is not None:
            self.case, self.L = share.case, share.L
            self.odd = share.odd
        else:
            k = theme or src.weighted([('text', 4), ('lazy', 3), ('dbf', 3), ('sheet', 5)])
            if k == 'text':
                c = TextCase(src)
            elif k == 'lazy':
                c = LazyCase(src)
            elif k == 'dbf':
                c = DbfCase(src)
            else:
                # dates of the other date system than the neighbour's
                c = SheetCase(src, small=True, maxsheets=2, datemode=i % 2 if datemodes else None)
            self.odd = False
            if src.chance(1, 10):
                self.odd = True
                keep = len(c.prefix) if isinstance(c.prefix, bytes) else 0
                c.content = c.content[:keep + src.draw(max(1, len(c.content) - keep))]
                c.delivery = 'path'
                if not isinstance(c.prefix, bytes):
                    c.prefix = []
            self.case = c
            self.L = Loaded(w, c, tag='src%d' % i)
        self.fname = self.L.path.rsplit('/', 1)[1]
        self.out = None

    def prepare(self, w, alone=False):
        self.stream, self.fn = self.L.make_stream()

    def work(self):
        f = getattr(lib(), self.case.factory)
        kw = self.case.kwargs(None)
        try:
            p = f(self.stream, **kw)
            self.out = ('ok', p)
        except (Violation, HarnessError, threads.Killed):
            raise
        except BaseException as e:
            self.out = ('raised', e)

    def finish(self):
        close_quietly(self.stream)

    def canon(self):
        if self.out is None:
            return None
        if self.out[0] == 'raised':
            return ('raised', type(self.out[1]).__name__)
        p = self.out[1]
        return ('ok', canon_data(p.data), dict(p.names), p.fn)

    def judge(self, label):
        if self.out is None:
            raise Violation('thread-died', '%s %s: no result' % (label, self.name))
        fired = self.fault is not None and self.fault.fired
        if self.odd:
            if fired:
                return
            if self.canon() != self.solo:
                raise Violation('differs-from-alone', '%s, %s of a cut source: %s, alone %s' % (
                    label, self.case.factory, brief(self.canon(), 300), brief(self.solo, 300)))
            return
        if self.out[0] == 'raised':
            e = self.out[1]
            if fired:
                if any(x is self.fault.exc for x in chain(e)) or (
                        getattr(self.case, 'fmt', None) == 'xlsx' and any(type(x).__name__ == 'BadZipFile' for x in chain(e))):
                    return
                raise Violation('fault-masked', '%s, %s: %s: %s' % (label, self.case.factory, type(e).__name__, str(e)[:200]))
            raise Violation('differs-from-alone', '%s, %s %s raised %s: %s, alone it returns' % (
                label, self.case.factory, self.fname, type(e).__name__, str(e)[:200]))
        d = self.L.diff(self.out[1], self.fn)
        if d is not None:
            raise Violation('differs-from-alone', '%s, %s %s: %s' % (label, self.case.factory, self.fname, d))

    def describe(self):
        return '%s %s %s%s' % (self.name, self.case.factory, self.case.delivery, ' cut' if self.odd else '')


class Worker(object):
    """A thread that works on its own pack."""

    def __init__(self, ctx, i, big):
        self.ctx = ctx
        self.name = 'pack%d' % i
        self.src = ctx.src
        self.p, self.m = new_pack(ctx.src)
        self.ops = 2 + ctx.src.draw(7)
        self.fault = None
        self.fname = None
        self.odd = False
        self.done = False

    def prepare(self, w, alone=False):
        pass

    def work(self):
        ctx, src = self.ctx, self.src
        for _ in range(self.ops):
            if len(self.m.mask) > 100:
                break
            op = gen_op(src, self.m, BAD if src.chance(1, 5) else SELECT)
            self.m = check_step(ctx, self.p, self.m, op)
            compare(self.p, self.m, 'thread %s after %r' % (self.name, op), deep=src.chance(1, 3))
        self.done = True

    def finish(self):
        pass

    def judge(self, label):
        if not self.done:
            raise Violation('thread-died', '%s %s' % (label, self.name))
        compare(self.p, self.m, '%s, %s at the end' % (label, self.name))

    def describe(self):
        return self.name


def run(ctx):
    src, w = ctx.src, ctx.world
    delivery_knobs(src, w)
    w.perfile = True
    parts = []
    n = 2 + src.draw(3)
    # often all of them read the same kind of source
    theme = src.weighted([('sheet', 5), ('text', 3), ('lazy', 2), ('dbf', 2)]) if src.chance(1, 2) else None
    datemodes = src.chance(1, 4)
    for i in range(n):
        if src.chance(1, 4):
            parts.append(Worker(ctx, i, False))
        else:
            rd = [p for p in parts if isinstance(p, Reader)]
            share = src.pick(rd) if rd and src.chance(1, 5) else None
            parts.append(Reader(src, w, i, theme, share, datemodes))
    ctx.sample = {'threads': [p.describe() for p in parts]}
    ctx.log('threads', ctx.sample)
    # alone, to know what the cut sources give
    if any(p.odd for p in parts):
        w.short = 0
    for p in parts:
        if isinstance(p, Reader) and p.odd:
            p.prepare(w)
            w.active = True
            try:
                p.work()
            finally:
                w.active = False
            p.solo = p.canon()
            p.finish()
            p.out = None
    # a fault in one of them
    victim = None
    rd = [p for p in parts if isinstance(p, Reader)]
    if rd and src.chance(1, 2):
        victim = src.pick(rd)
        if all(q is victim or q.fname != victim.fname for q in rd):
            g = src.pick(['read', 'read', 'open', 'seek', 'tell'])
            at = src.draw(2) if g == 'open' else src.draw(12)
            victim.fault = Fault(g, at, src.pick(OPEN_KINDS if g == 'open' else IO_KINDS), what=victim.fname)
            w.faults = [victim.fault]
    for p in parts:
        p.prepare(w)
    w.counts = {}
    w.handles = []
    sch = threads.Sched(ctx, opcodes=src.chance(1, 6))
    for p in parts:
        sch.spawn(p.name, p.work)
    w.active = True
    try:
        sch.run()
    finally:
        w.active = False
        w.faults = []
    for t in sch.tasks:
        if t.exc is not None:
            raise t.exc
    ctx.log('switches', sch.switches)
    for p in parts:
        p.judge('beside %d other threads' % (len(parts) - 1))
        p.finish()
    left = [what for what, obj in w.handles if vio.is_open(obj)]
    expect(not left, 'left-open', lambda: 'handles left open after all threads ended: %r' % left)
    # once more, one after another
    w.handles = []
    for p in parts:
        if not isinstance(p, Reader):
            continue
        p.fault = None
        p.out = None
        p.prepare(w)
        w.active = True
        try:
            p.work()
        finally:
            w.active = False
        p.judge('afterwards, alone')
        p.finish()
    for p in parts:
        if isinstance(p, Worker):
            compare(p.p, p.m, 'after later reads, %s' % p.name)
