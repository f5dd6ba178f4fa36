"""C08: reading beside a live writer yields one consistent prefix or version."""
import copy
import os
import struct
from .. import vio
from ..core import Violation, expect
from ..cases import Loaded, delivery_knobs, close_quietly, lib
from ..gentext import TextCase, LazyCase
from ..gendbf import DbfCase
from ..genxl import SheetCase, SheetModel
from ..util import canon_expected, canon_data, pack_diff, diff_tables, diff_names
from . import common

RUNS = {'quick': 36000, 'thorough': 600000}
RULE = ('A run starts a reader on a file while a simulated writer acts between its I/O calls: appends whole lines, appends dbf records and then the '
        'header count, or atomically renames another version over the file. The seed decides at which I/O calls the writer acts and how the reads '
        'are split. Non-trivial: the writer acted during the call; distinct by the hash of the trace.')
REAL = common.REAL_IO
STUB = common.STUB_IO + ['the writer is a stub that runs between the reader\'s I/O calls']
ASSUME = ['a line, a record or a header count below 256 reaches the file in one piece; a replacement is an atomic rename',
          'the writer acts between I/O calls, not inside one']


def run(ctx):
    src, w = ctx.src, ctx.world
    k = src.weighted([('text', 4), ('lazy', 4), ('dbf', 4), ('replace', 5)])
    ctx.probe('writer-' + k)
    if k in ('text', 'lazy'):
        return grow_text(ctx, k)
    if k == 'dbf':
        return grow_dbf(ctx)
    return replace(ctx)


def small_buffers(src, w):
    """Buffers small enough that the reader goes back to the file while it works."""
    w.bufsize = src.pick([64, 1, 7, 16, 32, 100, 256, None])
    w.chunk = src.pick([None, 1, 8, 31, 64, 128])
    w.short = src.pick([0, 2, 8])


class Writer(object):
    """Acts at drawn I/O calls."""

    def __init__(self, ctx, steps, rate):
        self.ctx = ctx
        self.steps = steps              # list of callables
        self.rate = rate
        self.done = 0
        self.upto = []

    def __call__(self, group):
        src = self.ctx.src
        if self.done >= len(self.steps):
            return
        if not src.chance(self.rate, 8):
            return
        n = 1 + (src.draw(4) if src.chance(1, 2) else 0)
        for _ in range(n):
            if self.done < len(self.steps):
                self.steps[self.done]()
                self.done += 1
        self.ctx.fault('writer-acts')
        self.ctx.sched('w', self.ctx.world.counts.get('any'), self.done)
        self.ctx.log('writer', self.done)


def grow_text(ctx, kind):
    src, w = ctx.src, ctx.world
    deliv = src.pick(['path', 'textfile', 'bytesfile', 'path'])
    if kind == 'text':
        case = TextCase(src, force_delivery=deliv, converters=True)
    else:
        case = LazyCase(src, force_delivery=deliv)
        case.tail_blank = 0
        case.rowline = list(range(case.nrows))
    if case.encoding not in ('utf-8', 'latin-1', 'ascii', 'cp1252'):
        case.encoding = 'utf-8'
    if case.eol == '\r':
        case.eol = '\n'
    case.final_eol = True
    small_buffers(src, w)
    n = case.nrows
    # at least the first row is there when the reader comes
    k0 = 1 + src.draw(n)
    lines = list(case.header) + list(case.body)
    nl = len(case.header) + case.rowline[k0 - 1] + 1
    if k0 == n:
        nl = len(lines)
    enc = lambda ls: ''.join(l + case.eol for l in ls).encode(case.encoding)
    pre = ''.join(p + case.eol for p in case.prefix).encode(case.encoding)
    case.content = pre + enc(lines[:nl])
    L = Loaded(w, case)
    ctx.sample = dict(case.describe(), rows_at_start=k0)
    rest = lines[nl:]
    # nothing after the last row: the file keeps growing by more of the same rows
    cols, names = case.expected()
    wf = vio._real_open(L.path, 'ab', 0)

    def put(l):
        return lambda: wf.write(enc([l]))
    wr = Writer(ctx, [put(l) for l in rest], src.pick([2, 4, 1]))
    stream, fn = L.make_stream()
    w.counts = {}
    w.on_io = wr
    o = L.read(stream)
    w.on_io = None
    wf.close()
    close_quietly(stream)
    ctx.log('lines', nl, len(lines), 'k0', k0, type(o.exc).__name__)
    if not o.ok:
        raise Violation('raised', 'while whole lines were appended the call %r' % o)
    lens = {len(o.value.data[c]) for c in o.value.data}
    expect(len(lens) == 1, 'ragged', lambda: 'columns of lengths %r' % sorted(lens))
    got = lens.pop()
    inside = nl + wr.done
    present = sum(1 for r in case.rowline if len(case.header) + r < inside)
    expect(k0 <= got, 'lost-rows', lambda: '%d rows returned, %d were in the file when the call began' % (got, k0))
    expect(got <= present, 'invented-rows', lambda: '%d rows returned, only %d were ever in the file' % (got, present))
    exp = canon_expected({c: v[:got] for c, v in cols.items()})
    d = diff_tables(canon_data(o.value.data), exp) or diff_names(o.value.names, names)
    expect(d is None, 'not-a-prefix', lambda: 'the rows are not the first %d rows of the file: %s' % (got, d))
    if got > k0:
        ctx.probe('saw-growth')


def grow_dbf(ctx):
    src, w = ctx.src, ctx.world
    case = DbfCase(src, maxrows=40, force_delivery=src.pick(['path', 'bytesfile']))
    small_buffers(src, w)
    recs = case.records
    n0 = src.draw(len(recs) + 1)
    case.content = case.prefix + case.header(n0) + b''.join(case.record_bytes(r) for r in recs[:n0])
    L = Loaded(w, case)
    ctx.sample = dict(case.describe(), records_at_start=n0)
    wf = vio._real_open(L.path, 'r+b', 0)
    counts = [n0]

    def addrec(r):
        def f():
            wf.seek(0, 2)
            wf.write(case.record_bytes(r))
        return f

    def setcount(n):
        def f():
            wf.seek(len(case.prefix) + 4)
            wf.write(struct.pack('<L', n))
            counts.append(n)
        return f
    steps = []
    i = n0
    while i < len(recs):
        j = min(len(recs), i + 1 + (src.draw(3) if src.chance(1, 3) else 0))
        for r in recs[i:j]:
            steps.append(addrec(r))
        steps.append(setcount(j))
        i = j
    wr = Writer(ctx, steps, src.pick([2, 4, 1]))
    stream, fn = L.make_stream()
    w.counts = {}
    w.on_io = wr
    o = L.read(stream)
    w.on_io = None
    wf.close()
    close_quietly(stream)
    ctx.log('n0', n0, 'counts', counts, type(o.exc).__name__)
    if not o.ok:
        raise Violation('raised', 'while records were appended the call %r' % o)
    why = None
    for n in counts:
        cols, names = case.expected(n)
        d = pack_diff(o.value, canon_expected(cols), names, fn)
        if d is None:
            if n > n0:
                ctx.probe('saw-growth')
            return
        why = why or d
    raise Violation('not-a-prefix', 'the records are not the first n for any count the header held (%r): %s' % (counts, why))


def other_version(src, case):
    """Another version of the file that the same options fit."""
    if isinstance(case, TextCase):
        v = copy.copy(case)
        order = [0] + src.shuffle(range(1, case.nrows))
        if len(order) > 2 and src.chance(1, 2):
            order = order[:1 + src.draw(len(order) - 1)]
        v.rows = [case.rows[i] for i in order]
        v.fields = [case.fields[i] for i in order]
        v.body = [case.body[case.rowline[i]] for i in order]
        v.nrows = len(order)
        v.rowline = list(range(v.nrows))
        if src.chance(1, 2):
            # columns of the same type change places, the names change
            perm = list(range(v.ncols))
            for t in sorted(set(v.types)):
                at = [c for c in perm if v.types[c] == t]
                for c, d in zip(at, src.shuffle(at)):
                    perm[c] = d
            v.rows = [[r[c] for c in perm] for r in v.rows]
            v.fields = [[r[c] for c in perm] for r in v.fields]
            v.body = [(v.delim or ' ').join(r) for r in v.fields]
            if v.hasnames:
                v.colnames = ['w' + v.colnames[c] for c in perm]
                v.header = v.header[:-1] + [(v.delim or ' ').join(v.colnames)]
        v.content = v.encode()
        return v
    if isinstance(case, LazyCase):
        if src.chance(2, 3):
            # another layout altogether
            v = LazyCase(src, force_delivery='path', like=case)
            if v.fits():
                return v
        v = copy.copy(case)
        order = src.shuffle(range(case.nrows))
        v.rows = [case.rows[i] for i in order]
        v.body = [case.body[i] for i in order]
        v.content = v.encode()
        return v
    if isinstance(case, DbfCase):
        v = copy.copy(case)
        order = src.shuffle(range(len(case.records)))
        if order and src.chance(1, 2):
            order = order[:src.draw(len(order) + 1)]
        v.records = [(case.records[i][0] != src.chance(1, 4),) + tuple(case.records[i][1:]) for i in order]
        if v.ncols > 1 and src.chance(1, 2):
            # the fields in another order, perhaps fewer of them
            cols = src.shuffle(range(v.ncols))
            if src.chance(1, 3):
                cols = cols[:1 + src.draw(len(cols))]
            v.fields = [case.fields[c] for c in cols]
            v.ncols = len(cols)
            v.records = [(d, [raws[c] for c in cols], [vals[c] for c in cols]) for d, raws, vals in v.records]
        v.content = v.prefix + v.encode()
        return v
    v = copy.copy(case)
    v.sheets = []
    for sh in case.sheets:
        cells = {}
        for k, c in sh.cells.items():
            if c is not None and c[0] == 'n':
                c = ('n', c[1] + 1.0)
            elif c is not None and c[0] == 't' and len(c[1]) < 100:
                c = ('t', c[1] + 'v')
            cells[k] = c
        m = SheetModel(sh.name, cells)
        m.r0, m.c0 = sh.r0, sh.c0
        v.sheets.append(m)
    if case.fmt in ('xlsx', 'xls') and src.chance(1, 2):
        v.fmt = 'xls' if case.fmt == 'xlsx' else 'xlsx'
    v.encode(src)
    if v.names:
        sh = v.sheets[v.sheetno]
        hd = v.opts.get('header', True)
        # recompute the names from the new cells
        old = case.sheets[case.sheetno]
        hrow = case.hrow
        v.names = {c: v.rawvalue(sh.get(hrow, c)) for c in v.use}
    return v


def replace(ctx):
    src, w = ctx.src, ctx.world
    kind = src.pick(['sheet', 'text', 'dbf', 'lazy', 'sheet'])
    if kind == 'text':
        case = TextCase(src, force_delivery='path')
    elif kind == 'lazy':
        case = LazyCase(src, force_delivery='path')
    elif kind == 'dbf':
        case = DbfCase(src, force_delivery='path')
    else:
        case = SheetCase(src, small=True, maxsheets=2)
    small_buffers(src, w)
    case2 = other_version(src, case)
    L = Loaded(w, case)
    alt = L.path + '.new'
    ctx.sample = case.describe()
    cols2, names2 = case2.expected()
    exp2 = canon_expected(cols2)
    vers = [case.content, case2.content]
    # repeated replacement: a -> b -> a ...
    k = 1 + src.draw(3)
    state = {'i': 0}

    def swap():
        state['i'] += 1
        with vio._real_open(alt, 'wb') as f:
            f.write(vers[state['i'] % 2])
        os.rename(alt, L.path)
    wr = Writer(ctx, [swap] * k, src.pick([2, 4, 1]))
    w.counts = {}
    w.on_io = wr
    o = L.read(L.path)
    w.on_io = None
    ctx.log('replace', kind, wr.done, type(o.exc).__name__)
    if not o.ok:
        if not wr.done:
            raise Violation('raised', 'without a replacement the call %r' % o)
        ctx.probe('replaced-raised')
        return
    d1 = L.diff(o.value, L.path)
    if d1 is None:
        ctx.probe('old-version')
        return
    d2 = pack_diff(o.value, exp2, names2, L.path)
    if d2 is None and wr.done:
        ctx.probe('new-version')
        return
    raise Violation('mixed-versions', 'replaced %d times during the call; the pack is neither version: %s / %s' % (wr.done, d1, d2))
