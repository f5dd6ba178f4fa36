"""C22: every way of opening a workbook gives the cells stored in it."""
import os
import mmap

from .. import vio
from ..core import Violation, expect
from ..genxl import SheetCase
from ..cases import delivery_knobs
from ..util import call, chain, norm, brief
from ..vio import Fault, IO_KINDS, OPEN_KINDS
from . import common
from .c17 import xlrd

RUNS = {'quick': 30000, 'thorough': 400000}
RULE = ('A run draws a workbook (xlsx, or xls of BIFF 2, 3, 4, 4W, 5, 7 or 8, bare or in a compound document of drawn layout), opens it two to four times, '
        'each time in a drawn way (path with or without memory map, contents as bytes or as a map; eager or on demand; ragged rows; formatting information), '
        'in half of the runs with a fault at a drawn I/O call of one opening. Cells are compared with those written, the accessors of a sheet with one '
        'another. Non-trivial: two ways differ, or a fault or short read was delivered; distinct by the hash of the I/O trace and the ways.')
REAL = ['channelpack.xlrd (book, sheet, compdoc, formatting, xlsx)', 'zipfile, zlib, expat, mmap and files in a scratch directory in memory']
STUB = common.STUB_IO
ASSUME = ['the workbook writers of sim/genxl.py, written from the format descriptions, produce valid files', 'zipfile, zlib, expat are trusted']

TYPES = {'n': 2, 't': 1, 'd': 3, 'b': 4, 'e': 5}


class Way(object):
    """One way of opening the workbook."""

    def __init__(self, src, case):
        self.xls = case.fmt != 'xlsx'
        self.how = src.pick(['path', 'nommap', 'bytes', 'map'])
        self.on_demand = src.chance(1, 2)
        self.ragged = src.chance(1, 3)
        self.formatting = self.xls and src.chance(1, 3)

    def __repr__(self):
        return '%s%s%s%s' % (self.how, ', on demand' if self.on_demand else '', ', ragged' if self.ragged else '',
                             ', formatting' if self.formatting else '')

    def kwargs(self, case, keep):
        kw = {'on_demand': self.on_demand, 'ragged_rows': self.ragged}
        if self.formatting:
            kw['formatting_info'] = True
        if self.how == 'nommap':
            kw['use_mmap'] = False
        elif self.how == 'bytes':
            kw['file_contents'] = case.content
        elif self.how == 'map':
            m = vio._real_mmap(-1, len(case.content))
            m.write(case.content)
            m.seek(0)
            keep.append(m)
            kw['file_contents'] = m
        return kw


def stored(case, sh, r, c):
    v = sh.get(r, c)
    if v is None or v[0] == 'x':
        return None
    return TYPES[v[0]], norm(int(v[1]) if v[0] in 'be' else v[1])


def read_all(src, bk, case, way):
    """Compare every cell of every sheet, through drawn accessors."""
    n = len(case.sheets)
    names = [s.name for s in case.sheets]
    if bk.nsheets != n or list(bk.sheet_names()) != names:
        raise Violation('wrong-sheets', '%r: %r instead of %r' % (way, bk.sheet_names(), names))
    if src.chance(1, 4):
        got = list(bk) if src.chance(1, 2) else bk.sheets()
        if len(got) != n:
            raise Violation('wrong-sheets', '%r: %d sheets instead of %r' % (way, len(got), names))
        for s, m in zip(got, case.sheets):
            check_sheet(src, s, case, m, way)
        return
    for k in (src.shuffle(range(n)) if way.on_demand else range(n)):
        m = case.sheets[k]
        j = src.draw(4)
        s = bk.sheet_by_name(m.name) if j == 1 else bk[m.name] if j == 2 else bk[k] if j == 3 else bk.sheet_by_index(k)
        check_sheet(src, s, case, m, way)


def check_sheet(src, s, case, m, way):
    label = '%r, sheet %r' % (way, m.name)
    if s.nrows < m.nrows or s.ncols < m.ncols:
        raise Violation('cells-missing', '%s: %d x %d instead of %d x %d' % (label, s.nrows, s.ncols, m.nrows, m.ncols))
    acc = src.draw(8)
    filled = {}
    for (r, c) in m.cells:
        v = stored(case, m, r, c)
        if v is not None:
            filled.setdefault(r, {})[c] = v
    rows = range(s.nrows)
    if acc == 5:
        got = list(s.get_rows() if src.chance(1, 2) else s)
        if len(got) != s.nrows:
            raise Violation('accessors-disagree', '%s: get_rows gives %d rows of %d' % (label, len(got), s.nrows))
    for r in rows:
        if r not in filled and r % 7 and s.nrows > 300:
            continue            # rows far above the data
        n = s.row_len(r)
        if not way.ragged and n != s.ncols:
            raise Violation('row-length', '%s: row %d has %d cells of %d' % (label, r, n, s.ncols))
        if acc == 0:
            t, v = [s.cell_type(r, c) for c in range(n)], [s.cell_value(r, c) for c in range(n)]
        elif acc == 1:
            t, v = list(s.row_types(r)), s.row_values(r)
        elif acc == 2:
            x = s.row(r)
            t, v = [q.ctype for q in x], [q.value for q in x]
        elif acc == 3:
            k = src.draw(n + 1)
            t = list(s.row_types(r, 0, k)) + list(s.row_types(r, k))
            v = s.row_values(r, 0, k) + s.row_values(r, k)
        elif acc == 4:
            x = [s.cell(r, c) for c in range(n)] if r % 2 else [s[r, c] for c in range(n)]
            t, v = [q.ctype for q in x], [q.value for q in x]
        elif acc == 5:
            t, v = [q.ctype for q in got[r]], [q.value for q in got[r]]
        elif acc == 6:
            k = src.draw(n + 1)
            x = s.row_slice(r, 0, k) + s.row_slice(r, k)
            t, v = [q.ctype for q in x], [q.value for q in x]
        else:
            # counted from the end
            k = src.draw(n) if n else 0
            t = list(s.row_types(r, 0, -k)) + list(s.row_types(r, -k)) if k else list(s.row_types(r))
            v = s.row_values(r, 0, -k) + s.row_values(r, -k) if k else s.row_values(r)
            x = s.row_slice(r, 0, -k) + s.row_slice(r, -k) if k else s[r]
            if [q.ctype for q in x] != t or [norm(q.value) for q in x] != [norm(q) for q in v]:
                raise Violation('accessors-disagree', '%s: row %d as cells is %s' % (label, r, brief(x, 200)))
        if len(t) != n or len(v) != n:
            raise Violation('accessors-disagree', '%s: row %d of %d cells gives %d types and %d values' % (label, r, n, len(t), len(v)))
        f = filled.get(r, {})
        for c in range(n):
            g = (t[c], norm(v[c]))
            if c in f:
                if g != f[c]:
                    raise Violation('wrong-cell', '%s: cell (%d, %d) is %s instead of %s' % (label, r, c, brief(g, 200), brief(f[c], 200)))
            elif t[c] not in (0, 6) or v[c] != '':
                raise Violation('invented-cell', '%s: cell (%d, %d) is %s, nothing is stored there' % (label, r, c, brief(g, 200)))
            elif t[c] == 6 and not way.formatting:
                raise Violation('invented-cell', '%s: cell (%d, %d) is blank without formatting information' % (label, r, c))
        short = [c for c in f if c >= n]
        if short:
            raise Violation('cells-missing', '%s: row %d has %d cells, (%d, %d) is stored' % (label, r, n, r, short[0]))
    if not way.ragged and m.ncols and s.nrows < 300:
        c = src.draw(s.ncols)
        a = src.draw(s.nrows + 1)
        k = a - s.nrows if a < s.nrows and src.chance(1, 2) else a       # the same row, counted from the end
        v = s.col_values(c, 0, k) + s.col_values(c, k)
        x = s.col(c) if src.chance(1, 2) else s.col_slice(c, 0, k) + s.col_slice(c, k)
        t = list(s.col_types(c, 0, k)) + list(s.col_types(c, k))
        one = [norm(s.cell_value(r, c)) for r in range(s.nrows)]
        if [norm(q) for q in v] != one or [norm(q.value) for q in x] != one or list(t) != [q.ctype for q in x]:
            raise Violation('accessors-disagree', '%s: column %d read by column is %s, by cell %s' % (label, c, brief(v, 200), brief(one, 200)))


def nothing_open(w, label):
    left = [what for what, h in w.handles if vio.is_open(h)]
    if left:
        raise Violation('left-open', '%s: still open: %s' % (label, ', '.join(left)))
    fds = common.open_fds(w.prefix)
    if fds:
        raise Violation('left-open', '%s: descriptors or maps left: %s' % (label, ', '.join(sorted(fds))))


def run(ctx):
    src, w = ctx.src, ctx.world
    case = SheetCase(src, small=src.chance(1, 2), huge_ok=True)
    path = os.path.join(w.scratch, 'book.xls')
    with vio._real_open(path, 'wb') as f:
        f.write(case.content)
    ctx.sample = case.describe()
    X = xlrd()
    ways = []
    n = 2 + src.draw(3)
    bad = src.draw(n) if src.chance(1, 2) else -1
    counts = {}
    for i in range(n):
        way = Way(src, case)
        delivery_knobs(src, w, len(case.content))
        ways.append(repr(way))
        ctx.steps += 1
        ctx.sched('open', ways[-1], w.bufsize, w.short)
        ctx.log('open', ways[-1])
        keep = []
        kw = way.kwargs(case, keep)
        if i == bad and way.how in ('path', 'nommap'):
            # a fault at a call of an opening just like this one
            w.counts, w.handles = {}, []
            o = call(w, X.open_workbook, path, **kw)
            if not o.ok:
                raise Violation('raised', '%r: %r' % (way, o))
            o.value.release_resources()
            groups = [g for g in ('read', 'open', 'seek', 'tell', 'mmap') if w.counts.get(g)]
            o = None
            g = src.pick(groups)
            at = src.draw(w.counts[g])
            fault = Fault(g, at, src.pick(OPEN_KINDS if g == 'open' else IO_KINDS))
            w.counts, w.handles, w.faults = {}, [], [fault]
            o = call(w, X.open_workbook, path, **kw)
            w.faults = []
            ctx.log('disturbed', fault, type(o.exc).__name__)
            ctx.nontrivial = True
            if o.ok:
                read_all(src, o.value, case, way)
                o.value.release_resources()
            else:
                expect(fault.fired, 'raised', lambda: '%r without a fault: %r' % (way, o))
                ch = chain(o.exc)
                if not any(e is fault.exc for e in ch) and not any(type(e).__name__ == 'BadZipFile' for e in ch):
                    raise Violation('fault-masked', '%r: injected %s at %s call %d, the caller sees only %r' % (way, fault.kind, g, at, o))
            nothing_open(w, '%r with %s at %s call %d' % (way, fault.kind, g, at))
            o = None
        w.counts, w.handles = {}, []
        o = call(w, X.open_workbook, path, **kw)
        if not o.ok:
            raise Violation('raised', '%r: %r' % (way, o))
        bk = o.value
        read_all(src, bk, case, way)
        if src.chance(1, 2):
            bk.release_resources()
        else:
            with bk:
                pass
        # what was handed in as contents is the caller's
        for m in keep:
            if way.xls and not m.closed:
                m.close()
        nothing_open(w, '%r after the resources were released' % way)
    ctx.nontrivial = ctx.nontrivial or len(set(ways)) > 1
    ctx.sample['ways'] = ways
