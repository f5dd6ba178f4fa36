"""C06: sheetpack yields exactly the selected cells, for xlsx and xls alike."""
from ..cases import close_quietly, lib
from ..core import expect
from ..genxl import SheetCase, addr
from ..util import call, brief, canon_data
from . import common, exact

RUNS = {'quick': 50000, 'thorough': 300000}
RULE = ('A run draws sheets, a container (xlsx; xls BIFF8/BIFF5 in OLE2 with drawn sector order, sector size and fragmentation; bare BIFF 8, 5, 4W, 4, 3, 2), '
        'record packing, options, and reads the file under different splits and buffer sizes. Non-trivial: bytes were split; '
        'distinct by the hash of the I/O trace and case.')
REAL = common.REAL_IO
STUB = common.STUB_IO
ASSUME = ['the workbook writers of sim/genxl.py, written from the format descriptions, produce valid files', 'zipfile, zlib, expat are trusted']


def run(ctx):
    src = ctx.src
    case = SheetCase(src, huge_ok=True)
    ctx.probe('format-' + case.fmt)
    L = exact.run(ctx, case, reads=1 + src.draw(2))
    if src.chance(1, 6):
        unfit(ctx, case, L)


def unfit(ctx, case, L):
    """A request that nothing in the workbook can meet."""
    src = ctx.src
    sh = case.sheets[case.sheetno]
    kw = case.kwargs()
    what = src.pick(['columns', 'columns', 'columns', 'sheet', 'address'])
    if what == 'columns':
        # a column left of the start cell or right of the stop cell, alone or along with good ones
        kw.pop('header', None)
        c1 = src.draw(sh.ncols)
        c2 = src.between(c1, sh.ncols - 1)
        r1 = src.between(sh.r0, sh.nrows - 1)
        kw['startcell'], kw['stopcell'] = addr(r1, c1), addr(src.between(r1, sh.nrows - 1), c2)
        out = [c for c in range(max(0, c1 - 3), c1)] + [c2 + 1, c2 + 2]
        use = sorted(set([src.pick(out)] + src.subset(range(c1, c2 + 1))))
        kw['usecols'] = case.usestr(src, use) if src.chance(1, 2) else src.shuffle(use)
        if src.chance(1, 4) and use[-1] >= sh.ncols:
            del kw['stopcell']
    elif what == 'sheet':
        k = src.draw(6)
        name = sh.name
        if k < 3:
            kw['sheet'] = src.pick([len(case.sheets), len(case.sheets) + 2, 'no such sheet', '', -1, -len(case.sheets), -len(case.sheets) - 1])
        else:
            # close to the name of a sheet; a number as text
            kw['sheet'] = src.pick([name.swapcase(), name[:-1], name + ' ', ' ' + name, name.strip(), name.lower(), name.upper(), str(case.sheetno)])
            if any(x.name == kw['sheet'] for x in case.sheets):
                kw['sheet'] = name + ' no such'
    else:
        kw[src.pick(['startcell', 'stopcell'])] = src.pick(['A0', 'b00', '1A', '12', '3:4', '-1', ' '])
    ctx.log('unfit', sorted(kw.items()))
    ctx.fault('unfit-' + what)
    stream, fn = L.make_stream()
    o = call(ctx.world, lib().sheetpack, stream, **kw)
    close_quietly(stream)
    if o.ok and isinstance(kw.get('sheet'), int) and kw['sheet'] < 0:
        # counted from the end, or refused
        kw2 = dict(kw, sheet=len(case.sheets) + kw['sheet'])
        if kw2['sheet'] >= 0:
            stream, fn = L.make_stream()
            o2 = call(ctx.world, lib().sheetpack, stream, **kw2)
            close_quietly(stream)
            expect(o2.ok and canon_data(o.value.data) == canon_data(o2.value.data), 'other-sheet', lambda: '%r returned %s' % (kw, brief(canon_data(o.value.data), 200)))
            return
    expect(not o.ok, 'unfit-accepted', lambda: '%r returned %s' % (kw, brief(canon_data(o.value.data), 200)))
