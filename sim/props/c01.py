"""C01: a disturbed read raises or returns exactly the healthy result."""
import os
from .. import vio
from ..core import Violation, expect
from ..cases import Loaded, delivery_knobs, make_case, close_quietly
from ..util import chain
from ..vio import Fault, IO_KINDS, OPEN_KINDS, CONV_KINDS
from . import common

RUNS = {'quick': 40000, 'thorough': 600000}
RULE = ('A run draws a source (delimited text, lazy numeric text, dbf, xlsx, xls of BIFF 2, 3, 4, 4W, 5, 7, 8), options, delivery '
        '(path or stream kind, buffer and chunk sizes, short reads), reads it undisturbed, then again with one or two faults '
        'at drawn I/O or converter calls, then again undisturbed. Non-trivial: at least one fault or short read was delivered; '
        'distinct by the hash of the I/O trace.')
REAL = common.REAL_IO
STUB = common.STUB_IO
ASSUME = common.ASSUME_IO

# errors of the handling of an error
ACCIDENTS = (KeyError, IndexError, NameError, AttributeError, TypeError)


def run(ctx):
    src, w = ctx.src, ctx.world
    delivery_knobs(src, w)
    case = make_case(src)
    L = Loaded(w, case)
    ctx.sample = case.describe()
    ctx.log('case', case.factory, case.delivery, len(case.content))
    wrap = common.conv_wrapper(w)
    # healthy
    stream, fn = L.make_stream()
    w.counts = {}
    o = L.read(stream, wrap)
    healthy = dict(w.counts)
    empties = list(w.empties)
    close_quietly(stream)
    if not o.ok:
        raise Violation('healthy-read-raised', '%r without any fault' % o)
    d = L.diff(o.value, fn)
    expect(d is None, 'healthy-read-wrong', lambda: 'undisturbed read: %s' % d)
    # disturbed
    groups = [g for g in ('read', 'open', 'seek', 'tell', 'mmap', 'conv', 'close') if healthy.get(g)]
    if not groups:
        ctx.probe('no-io')
        return
    nf = 1 + src.draw(2)
    faults = []
    for _ in range(nf):
        g = src.pick(groups)
        n = healthy[g]
        at = n - 1 if src.chance(1, 6) else src.draw(n)
        if g == 'close':
            continue
        if g == 'conv' and empties and src.chance(1, 3):
            at = src.pick(empties)
        kinds = CONV_KINDS if g == 'conv' else OPEN_KINDS if g == 'open' else IO_KINDS
        faults.append(Fault(g, at, src.pick(kinds)))
    stream, fn = L.make_stream()
    w.counts = {}
    w.faults = faults
    o = L.read(stream, wrap)
    w.faults = []
    fired = [f for f in faults if f.fired]
    if not fired:
        ctx.probe('fault-not-reached')
    for f in fired:
        ctx.log('fired', f)
    ctx.log('disturbed', type(o.exc).__name__)
    if o.ok:
        d = L.diff(o.value, fn)
        if d is not None:
            raise Violation('fault-swallowed', '%s, yet the call returned a different pack: %s' % (
                ', '.join('%s raised by %s call %d' % (f.kind, f.group, f.at) for f in fired) or 'no fault delivered', d))
        if fired:
            ctx.probe('fault-absorbed')
    else:
        if not fired:
            raise Violation('raised-without-fault', '%r though no fault was delivered' % o)
        ctx.probe('fault-raised')
        ch = chain(o.exc)
        if getattr(case, 'fmt', None) == 'xlsx' and any(type(e).__name__ == 'BadZipFile' for e in ch):
            ctx.probe('raised-by-zip-layer')
        else:
            if not any(f.exc is e for f in fired for e in ch):
                raise Violation('fault-masked', 'injected %s at %s call %d, but the caller sees only %r' % (
                    fired[0].kind, fired[0].group, fired[0].at, o))
            if isinstance(o.exc, ACCIDENTS) and not any(f.exc is o.exc for f in fired):
                raise Violation('fault-buried', 'injected %s at %s call %d, the caller gets an unrelated %r' % (
                    fired[0].kind, fired[0].group, fired[0].at, o))
    # the caller's stream is usable; start again where it began
    close_quietly(stream)
    stream, fn = L.make_stream()
    w.counts = {}
    o = L.read(stream, wrap)
    close_quietly(stream)
    if not o.ok:
        raise Violation('retry-failed', 'once the fault has passed the call still %r' % o)
    d = L.diff(o.value, fn)
    expect(d is None, 'retry-wrong', lambda: 'once the fault has passed: %s' % d)
