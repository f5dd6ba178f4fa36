"""Read one generated source under several deliveries; every read must be exact."""
from .. import vio
from ..core import Violation, expect
from ..cases import Loaded, delivery_knobs, close_quietly
from . import common


def run(ctx, case, reads=None):
    src, w = ctx.src, ctx.world
    L = Loaded(w, case)
    ctx.sample = case.describe()
    ctx.log('case', case.factory, case.delivery, len(case.content))
    ctx.probe('delivery-' + case.delivery)
    n = reads or 2 + src.draw(2)
    for i in range(n):
        delivery_knobs(src, w, len(case.content))
        stream, fn = L.make_stream()
        kw_before = repr(case.kwargs())
        o = L.read(stream)
        ctx.steps += 1
        ctx.log('read', i, w.bufsize, w.chunk, w.short, type(o.exc).__name__)
        if w.bufsize or w.chunk or w.short or not isinstance(stream, str):
            ctx.nontrivial = True
            ctx.sched('read', w.bufsize, w.chunk, w.short, case.delivery)
        if not o.ok:
            raise Violation('raised', 'read %d %r' % (i, o))
        d = L.diff(o.value, fn)
        expect(d is None, 'wrong-table', lambda: 'read %d (buffer %s, chunk %s, short reads %d/16): %s' % (
            i, w.bufsize, w.chunk, w.short, d))
        if repr(strip(L.last_kw)) != repr(strip(case.kwargs())):
            raise Violation('argument-modified', 'the caller\'s arguments became %r' % (strip(L.last_kw),))
        close_quietly(stream)
    return L


def strip(kw):
    return {k: v if k != 'converters' else sorted((c, f.__name__) for c, f in v.items()) for k, v in kw.items()}
