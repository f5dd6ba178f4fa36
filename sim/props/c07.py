"""C07: a truncated or damaged source never yields invented or altered rows."""
from .. import vio
from ..core import Violation, expect
from ..cases import Loaded, delivery_knobs, close_quietly, lib
from ..gentext import TextCase
from ..gendbf import DbfCase
from ..genxl import SheetCase
from ..util import canon_data, brief, norm
from . import common

RUNS = {'quick': 60000, 'thorough': 400000}
RULE = ('A run draws a source and options, and several crash points: byte counts at which the copy of the file stopped (uniform, at structure '
        'boundaries, near the end), or, for xlsx, a stored byte of a member that changed. Each damaged file is read and compared with the '
        'intact table. Non-trivial: every run with a cut inside the file; distinct by the hash of the trace of cuts and outcomes.')
REAL = common.REAL_IO
STUB = common.STUB_IO
ASSUME = ['a crash leaves a prefix of the file (short or torn copy)', 'the text rule is judged on well-formed tables']


def run(ctx):
    src, w = ctx.src, ctx.world
    delivery_knobs(src, w)
    kind = src.weighted([('sheet', 5), ('dbf', 3), ('text', 4)])
    if kind == 'sheet':
        case = SheetCase(src, small=src.chance(1, 2))
    elif kind == 'dbf':
        case = DbfCase(src)
    else:
        case = TextCase(src, force_delivery=src.pick(['path', 'textfile', 'bytesfile', 'stringio']), maxrows=None)
    L = Loaded(w, case)
    ctx.sample = case.describe()
    full = case.content
    ctx.log('case', case.factory, case.delivery, len(full))
    stream, fn = L.make_stream()
    o = L.read(stream)
    close_quietly(stream)
    expect(o.ok, 'intact-raised', lambda: 'the intact file: %r' % o)
    d = L.diff(o.value, fn)
    expect(d is None, 'intact-wrong', lambda: 'the intact file: %s' % d)
    if kind == 'text':
        return text_cuts(ctx, case, L, full)
    keep = len(case.prefix)
    flips = getattr(case, 'member_spans', None)
    for _ in range(3 + src.draw(4)):
        if flips and src.chance(1, 2):
            name, a, b = src.pick(flips)
            if b <= a:
                continue
            p = a + src.draw(b - a)
            delta = 1 + src.draw(255)
            data = full[:p] + bytes([(full[p] ^ delta) or 0]) + full[p + 1:]
            what = 'byte %d of member %s changed' % (p - a, name)
            ctx.fault('flipped-byte')
            ctx.sched('flip', p, delta)
        else:
            cut = pick_cut(src, case, len(full), keep)
            data = full[:cut]
            what = 'cut at byte %d of %d' % (cut, len(full))
            ctx.fault('truncated')
            ctx.sched('cut', cut)
        with vio._real_open(L.path, 'wb') as f:
            f.write(data)
        case.content = data
        stream, fn = L.make_stream()
        o = L.read(stream)
        close_quietly(stream)
        ctx.steps += 1
        ctx.log(what, type(o.exc).__name__)
        if o.ok:
            d = L.diff(o.value, fn)
            if d is not None:
                raise Violation('altered', '%s (%s): the call returned a pack that differs from the intact file: %s' % (
                    what, getattr(case, 'fmt', case.factory), d))
            ctx.probe('damage-harmless')
        else:
            ctx.probe('damage-raised')


def pick_cut(src, case, n, keep):
    k = src.draw(4)
    if k == 0:
        return max(keep, n - 1 - src.draw(min(n, 40)))
    if k == 1:
        size = src.pick([512, 64, 4096, 128])
        m = 1 + src.draw(max(1, n // size))
        return min(n - 1, max(keep, m * size + src.pick([0, 0, -1, 1, 4])))
    return keep + src.draw(max(1, n - keep))


def text_cuts(ctx, case, L, full):
    src, w = ctx.src, ctx.world
    exp = L.exp_cols
    nrows = case.nrows
    # where each complete row ends, in bytes from the start of the file
    pre = ''.join(p + case.eol for p in case.prefix)
    lines = case.header + case.body
    ends = []
    pos = pre
    for i, line in enumerate(lines):
        pos += line
        content_end = len(pos.encode(case.encoding))
        pos += case.eol
        ends.append((content_end, len(pos.encode(case.encoding))))
    skip = len(case.header)
    rowends = [ends[skip + case.rowline[r]][0] for r in range(nrows)]
    # ... and where its line begins
    starts = [ends[skip + case.rowline[r] - 1][1] if skip + case.rowline[r] else len(pre.encode(case.encoding)) for r in range(nrows)]
    base = len(pre.encode(case.encoding))
    for _ in range(3 + src.draw(5)):
        cut = max(base, pick_cut(src, case, len(full), base))
        if src.chance(1, 5):
            # at the beginning of a line, the first row more often
            cut = max(base, min(len(full) - 1, src.pick(starts) if src.chance(1, 2) else starts[0]))
        data = full[:cut]
        if case.delivery == 'stringio':
            try:
                data.decode(case.encoding)
            except UnicodeError:
                continue
        complete = sum(1 for e in rowends if e <= cut)
        ctx.fault('truncated')
        ctx.sched('cut', cut)
        with vio._real_open(L.path, 'wb') as f:
            f.write(data)
        case.content = data
        try:
            stream, fn = L.make_stream()
        except UnicodeError:
            continue                     # the caller cannot even skip the lines before the table
        o = L.read(stream)
        close_quietly(stream)
        ctx.steps += 1
        ctx.log('cut', cut, complete, type(o.exc).__name__)
        if not o.ok:
            ctx.probe('damage-raised')
            continue
        ctx.probe('damage-prefix')
        got = canon_data(o.value.data)
        if len(set(len(v[1]) for v in got.values())) > 1:
            raise Violation('altered', 'cut at byte %d of %d: columns of different length: %s' % (
                cut, len(full), {c: len(got[c][1]) for c in got}))
        for c in got:
            vals = got[c][1]
            if c not in exp:
                raise Violation('altered', 'cut at byte %d: column %r appears from nowhere' % (cut, c))
            ev = exp[c][1][:complete]
            if complete and not (len(vals) in (complete, complete + 1)):
                raise Violation('altered', 'cut at byte %d of %d: column %r has %d rows, %d complete rows are in the file' % (
                    cut, len(full), c, len(vals), complete))
            if complete < nrows and cut <= starts[complete] and len(vals) != complete:
                raise Violation('altered', 'cut at byte %d of %d, where a row begins: column %r has %d rows, %d are in the file' % (
                    cut, len(full), c, len(vals), complete))
            if not complete and len(vals) > 1:
                raise Violation('altered', 'cut at byte %d of %d: column %r has %d rows, no complete row is in the file' % (
                    cut, len(full), c, len(vals)))
            for i, (g, e) in enumerate(zip(vals, ev)):
                if g != e:
                    raise Violation('altered', 'cut at byte %d of %d: column %r row %d is %r instead of %r' % (
                        cut, len(full), c, i, g, e))
