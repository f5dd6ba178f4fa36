"""C10: mask, parts and selected data follow the selection history exactly."""
from .. import model
from ..model import check_step, compare, gen_op, new_pack, RAGGED, BAD
from ..cases import lib
from . import common

RUNS = {'quick': 100000, 'thorough': 1500000}
RULE = ('A run draws a pack and a history of 1-14 (at times 40) operations (mask, startstop, duration, mindur, mask_reset, nof, data, append_pack, calls, items; '
        'about a quarter of them with invalid arguments or iterables that raise half way) and compares the whole observable state with the model '
        'after every operation. Non-trivial: at least one operation failed on the way (a fault) or the history has three or more operations; '
        'distinct by the hash of the history.')
REAL = common.REAL_PACK
STUB = common.STUB_PACK[1:]
ASSUME = common.ASSUME_PACK


def run(ctx):
    src = ctx.src
    p, m = new_pack(src)
    compare(p, m, 'new pack')
    n = 40 if src.chance(1, 100) else src.between(1, 14)
    badness = src.pick([2, 0, 4])
    hist = []
    for i in range(n):
        table = BAD if src.chance(badness, 8) else RAGGED
        op = gen_op(src, m, table)
        hist.append(repr(op))
        m = check_step(ctx, p, m, op)
        compare(p, m, 'after %s' % ' ; '.join(hist[-4:]), deep=src.draw(3) == 0 or i == n - 1)
        for k, v in (('has-parts', len(model.runs(m.mask)) > 1), ('mindur-active', m.mindur is not None),
                     ('appended', len(m.filenames) > 1)):
            if v:
                ctx.probe(k)
    ctx.sample = {'history': hist}
    ctx.sched(*hist)
    if n >= 3:
        ctx.nontrivial = True
