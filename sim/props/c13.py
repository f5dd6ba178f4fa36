"""C13: an operation that fails leaves the pack exactly as it was."""
from .. import model
from ..core import Violation
from ..model import (check_step, alloc_step, compare, gen_op, new_pack, observe, diff_obs, execute, RAGGED, BAD)
from ..cases import lib
from . import common

ALLOC = True
RUNS = {'quick': 100000, 'thorough': 1500000}
RULE = ('A run draws a pack and a history of 1-12 (at times 30) operations. Operations fail by invalid arguments, by iterables and mappings that raise half way, '
        'or because the n-th numpy allocation made during them fails (once, or every one from there on). The observable state is compared before '
        'and after each failure, and with the model after each success; the failed operation is repeated with good arguments or memory. '
        'Non-trivial: at least one failure was delivered; distinct by the hash of the history.')
REAL = common.REAL_PACK
STUB = common.STUB_PACK
ASSUME = common.ASSUME_PACK + ['exhausted memory is met by numpy array allocations; CPython object allocations do not fail']


def run(ctx):
    src = ctx.src
    p, m = new_pack(src)
    hist = []
    n = 30 if src.chance(1, 100) else src.between(1, 12)
    for i in range(n):
        k = src.weighted([('alloc', 5), ('bad', 5), ('good', 3)])
        if k == 'bad':
            op = gen_op(src, m, BAD)
            hist.append(repr(op))
            before = observe(p)
            fn = op.make()
            r = execute(fn, p)
            ctx.steps += 1
            ctx.log('bad', op, 'ok' if r.ok else type(r.exc).__name__)
            if r.ok:
                # not rejected: then it has to have its normal effect
                m2 = m.copy()
                try:
                    op.step(m2)
                except model.Reject:
                    if op.lenient:
                        m = model.accepted(p, m)
                        continue
                    raise Violation('accepted', '%r was accepted' % op)
                m = m2
            else:
                ctx.fault('rejected:' + op.name)
                d = diff_obs(observe(p), before)
                if d is not None:
                    raise Violation('changed-by-failure', 'after %r, which raised %s: %s' % (op, type(r.exc).__name__, d))
        elif k == 'alloc':
            op = gen_op(src, m, RAGGED)
            hist.append('alloc ' + repr(op))
            m, fired = alloc_step(ctx, p, m, op)
        else:
            op = gen_op(src, m, RAGGED)
            hist.append(repr(op))
            m = check_step(ctx, p, m, op)
        compare(p, m, 'after %s' % ' ; '.join(hist[-3:]), deep=i == n - 1)
    ctx.sample = {'history': hist}
    ctx.sched(*hist)
