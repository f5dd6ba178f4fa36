"""C02: files the library opens are closed; streams the caller gives are not."""
import hashlib
import os
from .. import vio
from ..core import Violation, expect
from ..cases import Loaded, delivery_knobs, make_case, close_quietly
from ..vio import Fault, IO_KINDS, OPEN_KINDS, CONV_KINDS
from . import common

RUNS = {'quick': 36000, 'thorough': 500000}
RULE = ('A run draws a source, options, delivery and up to three faults at drawn I/O or converter calls (or a damaged source, or arguments that do not fit it), reads it, '
        'and inspects every handle the simulator handed out during the call, the descriptors and maps of the process, and the caller\'s '
        'stream. Non-trivial: a fault was delivered, the source was damaged or bytes were split; distinct by the hash of the I/O trace.')
REAL = common.REAL_IO
STUB = common.STUB_IO
ASSUME = common.ASSUME_IO + ['closing is judged when the call ends, while the exception (and its traceback) is still alive']


def check_handles(ctx, w, L, stream, label):
    left = [what for what, obj in w.handles if vio.is_open(obj)]
    if left:
        raise Violation('left-open', '%s: %d of %d opened by the call still open: %s' % (label, len(left), len(w.handles), ', '.join(left)))
    wr = [what for what, obj in w.handles if what.startswith('write-open')]
    if wr:
        raise Violation('opened-for-writing', '%s: the source was opened for writing' % label)
    mine = 0
    fds = common.open_fds(w.prefix)
    allowed = 0 if isinstance(stream, str) or L.case.delivery in ('stringio', 'bytesio') else 1
    if len(fds) > allowed:
        raise Violation('left-open', '%s: descriptors or maps left: %s' % (label, ', '.join(sorted(fds))))


def run(ctx):
    src, w = ctx.src, ctx.world
    delivery_knobs(src, w)
    case = make_case(src)
    damaged = None
    if src.chance(1, 6):
        # a source that cannot be read: cut, emptied, or garbage
        k = src.draw(5)
        c = case.content
        keep = len(case.prefix) if isinstance(case.prefix, bytes) else 0
        if k == 0:
            case.content = c[:keep + src.draw(max(1, len(c) - keep))]
        elif k == 1:
            case.content = c[:keep]
        elif k == 4:
            # text without any table
            case.content = c[:keep] + b''.join(src.pick([b'header', b'', b'alfa beta', b'***', b'a;b']) + b'\n'
                                               for _ in range(src.draw(6)))
        elif k == 2:
            case.content = c[:keep] + bytes(bytearray(src.draw(256) for _ in range(1 + src.draw(64))))
        else:
            p = keep + src.draw(max(1, len(c) - keep))
            case.content = c[:p] + bytes([(c[p] + 1 + src.draw(255)) % 256 if p < len(c) else 0]) + c[p + 1:]
        damaged = k
    L = Loaded(w, case)
    ctx.sample = case.describe()
    if damaged is None and src.chance(1, 6):
        L.override = bad_arguments(src, case)
        damaged = 'arguments'
        ctx.sample['arguments'] = repr(L.override)
    ctx.log('case', case.factory, case.delivery, len(case.content), damaged)
    wrap = common.conv_wrapper(w)
    try:
        stream, fn = L.make_stream()
    except UnicodeError:
        ctx.probe('prefix-unreadable')
        return
    w.counts = {}
    w.handles = []
    o = L.read(stream, wrap)
    healthy = dict(w.counts)
    if damaged is None:
        expect(o.ok, 'healthy-read-raised', lambda: '%r without any fault' % o)
    else:
        ctx.fault('bad-arguments' if damaged == 'arguments' else 'damaged-source')
        ctx.log('damaged', type(o.exc).__name__)
    check_stream(ctx, L, stream, 'after %s' % ('an undisturbed call' if damaged is None else 'unfit arguments' if damaged == 'arguments' else 'a damaged source'))
    check_handles(ctx, w, L, stream, repr(o))
    close_quietly(stream)
    o = None
    w.handles = []
    groups = [g for g in ('read', 'open', 'seek', 'tell', 'mmap', 'conv', 'close') if healthy.get(g)]
    if not groups:
        return
    faults = []
    for _ in range(1 + src.draw(3)):
        g = src.pick(groups)
        n = healthy[g]
        at = n - 1 if src.chance(1, 6) else src.draw(n)
        kinds = CONV_KINDS if g == 'conv' else OPEN_KINDS if g == 'open' else IO_KINDS
        faults.append(Fault(g, at, src.pick(kinds)))
    try:
        stream, fn = L.make_stream()
    except UnicodeError:
        return
    before = hashlib.sha256(case.content).hexdigest()
    w.counts = {}
    w.handles = []
    w.faults = faults
    o = L.read(stream, wrap)
    w.faults = []
    fired = [f for f in faults if f.fired]
    ctx.log('disturbed', type(o.exc).__name__, len(fired), len(w.handles))
    if fired and not o.ok:
        ctx.probe('fault-raised')
    label = '%s (%s)' % (o, ', '.join('%s at %s call %d' % (f.kind, f.group, f.at) for f in fired) or 'no fault delivered')
    check_stream(ctx, L, stream, label)
    check_handles(ctx, w, L, stream, label)
    with vio._real_open(L.path, 'rb') as f:
        expect(hashlib.sha256(f.read()).hexdigest() == before, 'source-modified', 'the source file was modified: %s' % label)
    if not isinstance(stream, str) and damaged is None:
        # the same stream object, from where the caller had it, once the fault has passed
        rewind(L, stream)
        w.handles = []
        o2 = L.read(stream, wrap)
        expect(o2.ok, 'stream-unusable', lambda: 'the caller\'s stream cannot be read again: %r' % o2)
        d = L.diff(o2.value, fn)
        expect(d is None, 'stream-unusable', lambda: 'the caller\'s stream gives something else when read again: %s' % d)
        check_stream(ctx, L, stream, 'reading again')
        ctx.probe('stream-reread')
    close_quietly(stream)


def boom(v):
    raise ArithmeticError('converter')


def bad_arguments(src, case):
    """Arguments that do not fit the source: the call may raise at any stage."""
    if case.factory == 'sheetpack':
        pool = [('sheet', [77, 'nosuchsheet', -9, None, 1.5, [0], '']), ('startcell', ['ZZ99999', '99Z', '', 'A0', 5, 'B70000', 'IV3']),
                ('stopcell', ['A1', '0', 'Q', -1, 'ZZZ1']), ('usecols', [99, 'ZZ', [0, 99], 'A B', '1', '', -1, 2.5]),
                ('header', [77, 'nope', 'IV1', -1, 0.5])]
    elif case.factory == 'dbfpack':
        pool = [('names', [['NOSUCH'], 7, [1], 'ID0', [None], {'V1': 1}])]
    elif case.factory == 'textpack':
        pool = [('skiprows', [999, -1, 'x', None]), ('delimiter', ['@@', '', 5, b'@']), ('usecols', [99, [0, 99], 'x', -1, []]),
                ('names', [{99: 'x'}, ['a'], 'abc', 5]), ('encoding', ['nope-8', 'utf-16', 'ascii', 5]),
                ('converters', [{99: boom}, {0: boom}, {0: None}, [boom]])]
    else:
        pool = [('parselines', [0, -1, 1, 'x']), ('usecols', [99, [0, 99], 'x', -1]), ('names', [['a'], {99: 'x'}, 5]),
                ('encoding', ['nope-8', 'utf-16', 'ascii', 5])]
    out = {}
    for _ in range(1 + src.draw(2)):
        k, vals = src.pick(pool)
        out[k] = src.pick(vals)
    return out


def rewind(L, s):
    s.seek(0)
    p = L.case.prefix
    if isinstance(p, bytes):
        s.seek(len(p))
    else:
        for _ in p:
            s.readline()


def check_stream(ctx, L, stream, label):
    if isinstance(stream, str):
        return
    expect(not stream.closed, 'stream-closed', lambda: 'the caller\'s stream was closed: %s' % label)
    try:
        stream.seek(0)
        stream.read(1)
        stream.seek(0)
    except UnicodeError:
        pass
    except Exception as e:
        raise Violation('stream-unusable', 'the caller\'s stream fails with %s: %s (%s)' % (type(e).__name__, e, label))
