"""C14: concurrent readers of one pack get exactly the sequential answers."""
import numpy as np

from .. import model, threads
from ..core import Violation, HarnessError
from ..model import (check_step, compare, gen_op, new_pack, observe, diff_obs, runs, channel_ref, SELECT)
from ..util import norm, normarr, brief
from . import common

RUNS = {'quick': 50000, 'thorough': 200000}
RULE = ('A run draws a pack with a short history and 2-4 reader threads, each with a list of reads (calls by key, name and fallback string with part '
        'and nof, records, parts, name, repr, attribute reads). The reads are first answered one after another, then by the threads under a seeded '
        'schedule that preempts at lines or bytecodes of the library, then once more one after another. Non-trivial: at least one preemption; distinct by the hash of the '
        'interleaving and answers.')
REAL = common.REAL_PACK + ['CPython threads, of which exactly one runs at a time']
STUB = ['the thread scheduler: the seed decides after how many lines or bytecodes of channelpack who runs next', 'threading.Lock and RLock']
ASSUME = ['preemption happens between lines or bytecodes of channelpack; a numpy call is atomic', 'no thread writes to the pack']


def gen_read(src, m, k=None):
    """(label, function of the pack giving a comparable answer)"""
    keys = sorted(m.data)
    k = src.draw(9) if k is None else k
    if not keys and k < 4:
        k = 5
    if k <= 1:
        ch = channel_ref(src, m, src.pick(keys))
        nof = src.pick([None, 'nan', 'filter', 'ignore'])
        return 'call %r nof=%r' % (ch, nof), lambda p: normarr(p(ch, nof=nof))
    if k == 2:
        ch = channel_ref(src, m, src.pick(keys))
        part = src.draw(len(runs(m.mask)) + 1)
        return 'call %r part=%r' % (ch, part), lambda p: normarr(p(ch, part=part))
    if k == 3:
        ch = channel_ref(src, m, src.pick(keys))
        fb = src.chance(1, 2)
        fw = src.pick([False, True, r'\w+'])
        return 'name %r' % (ch,), lambda p: p.name(ch, firstwordonly=fw, fallback=fb)
    if k == 4:
        return 'parts', lambda p: list(p.parts())
    if k == 5:
        part = src.draw(len(runs(m.mask)) + 1) if src.chance(1, 3) else None
        nof = src.pick([None, 'nan', 'filter', 'ignore'])
        fb = not src.chance(1, 3)
        return ('records part=%r nof=%r fallback=%r' % (part, nof, fb),
                lambda p: [(r._fields, tuple(norm(v) for v in r)) for r in p.records(part=part, nof=nof, fallback=fb)])
    if k == 6:
        return 'repr', lambda p: repr(p)
    if k == 7:
        return 'attributes', lambda p: (p.nof, p.mindur, p.fn, list(p.filenames), p.FALLBACK_PREFIX, normarr(p.mask),
                                        sorted(p.names.items()), sorted(p.data))
    ch = src.pick([99, 'nosuch', 'ch77'])
    return 'call %r' % (ch,), lambda p: normarr(p(ch))


def answer(f, p):
    try:
        return ('ok', f(p))
    except (Violation, HarnessError, threads.Killed):
        raise
    except Exception as e:
        return ('raised', type(e).__name__)


def run(ctx):
    src, w = ctx.src, ctx.world
    p, m = new_pack(src, lo=1)
    for _ in range(src.draw(5)):
        m = check_step(ctx, p, m, gen_op(src, m, SELECT))
    before = observe(p)
    work = []
    for i in range(2 + src.draw(3)):
        work.append([gen_read(src, m) for _ in range(1 + src.draw(4))])
    if src.chance(1, 12):
        # everyone prints
        work = [[gen_read(src, m, 6)] + r[:1] for r in work]
    opts = np.get_printoptions()
    exp = [[answer(f, p) for _, f in reads] for reads in work]
    sch = threads.Sched(ctx, opcodes=src.chance(1, 2))
    got = [[] for _ in work]

    def body(i):
        def f():
            for _, rd in work[i]:
                got[i].append(answer(rd, p))
        return f
    for i in range(len(work)):
        sch.spawn('t%d' % i, body(i))
    sch.run()
    ctx.log('switches', sch.switches, 'points', sch.points)
    for i, reads in enumerate(work):
        for (label, _), g, e in zip(reads, got[i], exp[i]):
            ctx.log(i, label, g[0])
            if g != e:
                raise Violation('answer-differs', 'thread %d of %d, %s: %s instead of %s' % (i, len(work), label, brief(g, 250), brief(e, 250)))
        if len(got[i]) != len(exp[i]):
            raise Violation('thread-died', 'thread %d: %r' % (i, sch.tasks[i].exc))
    try:
        for i, reads in enumerate(work):
            for (label, f), e in zip(reads, exp[i]):
                g = answer(f, p)
                if g != e:
                    raise Violation('later-answer-differs', 'once %d concurrent readers are done, %s: %s instead of %s' % (
                        len(work), label, brief(g, 250), brief(e, 250)))
    finally:
        np.set_printoptions(**opts)
    d = diff_obs(observe(p), before)
    if d is not None:
        raise Violation('changed-by-reading', 'after %d concurrent readers: %s' % (len(work), d))
    ctx.sample = {'threads': [[l for l, _ in r] for r in work], 'switches': sch.switches}
