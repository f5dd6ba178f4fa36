"""C11: append_pack concatenates in order, and all or nothing."""
from .. import model
from ..core import Violation
from ..model import check_step, alloc_step, compare, gen_op, new_pack, op_append, op_append_bad, RAGGED
from . import common

ALLOC = True
RUNS = {'quick': 60000, 'thorough': 1000000}
RULE = ('A run draws a pack, gives it a short selection history (mask, mindur, nof, fn), and appends 1-5 other packs: fitting, misfitting in data '
        'or names keys, empty on either side, itself, or while the n-th numpy allocation fails (once or from then on). After every append both '
        'packs are compared with the model. Non-trivial: an append was rejected or an allocation failed; distinct by the hash of the history.')
REAL = common.REAL_PACK
STUB = common.STUB_PACK
ASSUME = common.ASSUME_PACK

PRE = [(f, w) for f, w in RAGGED if f.__name__ in
       ('op_mask', 'op_mindur', 'op_nof', 'op_fn', 'op_duration', 'op_startstop', 'op_names', 'op_nameitem', 'op_ragged')]


def op_self(src, m):
    def step(mm):
        mm.append(mm.copy())
    op = model.Op('append_pack', lambda: lambda p: p.append_pack(p), step, 'itself')
    op.other = None
    return op


def run(ctx):
    src = ctx.src
    p, m = new_pack(src)
    hist = []
    for _ in range(src.draw(4)):
        op = gen_op(src, m, PRE)
        hist.append(repr(op))
        m = check_step(ctx, p, m, op)
    for i in range(1 + src.draw(4)):
        if len(m.mask) > 200:
            break
        k = src.weighted([('fit', 4), ('misfit', 3), ('alloc', 5), ('self', 1), ('alloc-misfit', 1), ('alloc-self', 1)])
        if k.endswith('misfit'):
            op = op_append_bad(src, m)
        elif k.endswith('self'):
            op = op_self(src, m)
        else:
            op = op_append(src, m)
        hist.append(k + ' ' + repr(op))
        other = getattr(op, 'other', None)
        what = 'after %s' % ' ; '.join(hist[-3:])
        if k.startswith('alloc'):
            m, _ = alloc_step(ctx, p, m, op)
        else:
            m = check_step(ctx, p, m, op)
        compare(p, m, what)
        if other:
            # the pack appended is as it was, and stays so when the first one changes
            o, holder = other
            compare(holder['q'], o, what + ', the other pack', cls='other-changed')
            if src.chance(1, 2):
                op2 = gen_op(src, m, PRE)
                hist.append(repr(op2))
                m = check_step(ctx, p, m, op2)
                compare(holder['q'], o, what + ' and %r, the other pack' % op2, cls='other-changed')
        ctx.probe('append-' + k)
    ctx.sample = {'history': hist}
    ctx.sched(*hist)
