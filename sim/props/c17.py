"""C17: on-demand workbooks equal eager ones under any load/unload history."""
import os
import sys

from .. import vio
from ..core import Violation, HarnessError, expect
from ..genxl import SheetCase
from ..threads import REPO_PREFIX
from ..util import call, norm, brief
from . import common

RUNS = {'quick': 20000, 'thorough': 300000}
RULE = ('A run draws 1-3 xls workbooks (BIFF8 or BIFF5, in compound documents of drawn layout or bare), opens each on demand (memory map, file or bytes) '
        'and runs an interleaved history of 3-24 steps on them: load by index, name, item, iteration or sheets(); unload; reload; ask names and load '
        'state; ask for sheets that do not exist; load a damaged sheet; interrupt a load at a drawn line; release. Cells are compared with an eagerly '
        'loaded workbook, load states with the history. Non-trivial: a load was interrupted or failed, or a sheet was reloaded; distinct by the '
        'hash of the history.')
REAL = ['channelpack.xlrd (book, sheet, compdoc, formatting, biffh)', 'mmap and files in a scratch directory in memory']
STUB = ['opens, reads, seeks, tells and map calls are offered to the simulator first', 'sys.stdout is a sink',
        'an interrupt is a KeyboardInterrupt or MemoryError raised at a drawn line of the library during a load']
ASSUME = ['workbooks are BIFF 5 or 8, the versions for which loading on demand is supported',
          'cells are compared with the eager loader of the same tree; C06 compares those with the cells written']


def xlrd():
    import channelpack.xlrd as x
    return x


def cells(sh):
    """Everything a caller reads from a sheet."""
    out = [sh.name, sh.number, sh.nrows, sh.ncols]
    for r in range(sh.nrows):
        n = sh.row_len(r)
        out.append([(sh.cell_type(r, c), norm(sh.cell_value(r, c))) for c in range(n)])
    return out


class Interrupt(object):
    """Raises at the n-th executed line of the library."""

    def __init__(self, n, exc):
        self.n = n
        self.exc = exc
        self.seen = 0
        self.fired = False

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(REPO_PREFIX):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == 'line' and not self.fired:
            self.seen += 1
            if self.seen >= self.n:
                self.fired = True
                raise self.exc
        return self.local

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.trace)

    def __exit__(self, *a):
        sys.settrace(self.old)


class Bk(object):
    """An on-demand workbook, its eager twin and its history."""

    def __init__(self, ctx, i):
        src, w = ctx.src, ctx.world
        self.ctx, self.i = ctx, i
        self.case = SheetCase(src, fmt=src.pick(['xls', 'xls', 'biff5']), small=True, maxsheets=5)
        if len(self.case.sheets) == 1 and src.chance(2, 3):
            self.case = SheetCase(src, fmt='xls', small=True, maxsheets=5)
        c = self.case
        self.path = os.path.join(w.scratch, 'book%d.xls' % i)
        self.content = c.content
        self.how = src.pick(['path', 'nommap', 'bytes', 'path'])
        self.damaged = set()
        self.write(c.content)
        X = xlrd()
        e = self.open(False)
        self.exp = [cells(s) for s in e.sheets()]
        self.names = list(e.sheet_names())
        n = len(self.exp)
        self.n = n
        if n > 1 and src.chance(1, 4):
            # a sheet whose first record is gone
            k = src.draw(n)
            a, b = c.sheet_spans[k]
            d = bytearray(c.content)
            for o in range(a, a + 4):
                d[c.offset(o)] = 0xEE
            self.damaged.add(k)
            self.write(bytes(d))
        self.bk = self.open(True)
        self.loaded = {}              # index -> sheet object
        self.old = []                 # (index, sheet object) unloaded but kept by the caller
        self.released = False
        self.reloads = 0
        if list(self.bk.sheet_names()) != self.names or self.bk.nsheets != n:
            raise Violation('sheet-names', 'on demand %r, eager %r' % (self.bk.sheet_names(), self.names))

    def write(self, content):
        self.content = content
        with vio._real_open(self.path, 'wb') as f:
            f.write(content)

    def open(self, on_demand):
        kw = {'on_demand': on_demand}
        if self.how == 'nommap':
            kw['use_mmap'] = False
        if self.how == 'bytes':
            kw['file_contents'] = self.content
        o = call(self.ctx.world, xlrd().open_workbook, self.path, **kw)
        if not o.ok:
            raise Violation('open-raised', 'opening %s: %r' % ('on demand' if on_demand else 'eagerly', o))
        return o.value

    def label(self):
        return 'book %d (%s, %d sheets)' % (self.i, self.case.fmt, self.n)

    def ref(self, k):
        return k if self.ctx.src.chance(1, 2) else self.names[k]

    def getter(self, k):
        """A way to get sheet k."""
        b = self.bk
        j = self.ctx.src.draw(4)
        if j == 0:
            return 'sheet_by_index', lambda: b.sheet_by_index(k)
        if j == 1:
            return 'sheet_by_name', lambda: b.sheet_by_name(self.names[k])
        if j == 2:
            return 'item', lambda: b[k]
        return 'named item', lambda: b[self.names[k]]

    def attempt(self, fn):
        try:
            return ('ok', fn())
        except (Violation, HarnessError):
            raise
        except Exception as e:
            return ('raised', e)

    def load(self, k):
        ctx = self.ctx
        how, fn = self.getter(k)
        was = k in self.loaded
        r = self.attempt(fn)
        ctx.log(self.i, 'load', k, how, r[0])
        self.after_load(k, r, how)
        if not was and r[0] == 'ok' and any(i == k for i, _ in self.old):
            ctx.fault('reload')

    def after_load(self, k, r, how):
        must_fail = k not in self.loaded and (self.released or k in self.damaged)
        if must_fail:
            if r[0] == 'ok':
                raise Violation('load-accepted', '%s: %s of sheet %d returned a sheet though %s' % (
                    self.label(), how, k, 'resources were released' if self.released else 'its data are damaged'))
            self.ctx.fault('load-after-release' if self.released else 'load-damaged')
            return
        if r[0] != 'ok':
            raise Violation('load-raised', '%s: %s of sheet %d raised %s: %s' % (
                self.label(), how, k, type(r[1]).__name__, str(r[1])[:200]))
        self.same(k, r[1])
        if k in self.loaded and self.loaded[k] is not r[1]:
            raise Violation('loaded-twice', '%s: sheet %d is loaded but a new object came' % (self.label(), k))
        self.loaded[k] = r[1]

    def same(self, k, sh):
        c = cells(sh)
        if c != self.exp[k]:
            for a, b in zip(c, self.exp[k]):
                if a != b:
                    break
            raise Violation('wrong-cells', '%s, sheet %d: %s instead of %s' % (self.label(), k, brief(a, 250), brief(b, 250)))

    def load_all(self):
        src = self.ctx.src
        b = self.bk
        need = [k for k in range(self.n) if k not in self.loaded]
        bad = [k for k in need if self.released or k in self.damaged]
        it = src.chance(1, 2)
        r = self.attempt(lambda: list(b) if it else b.sheets())
        self.ctx.log(self.i, 'all', it, r[0])
        if bad:
            if r[0] == 'ok':
                raise Violation('load-accepted', '%s: all sheets returned though sheet %d cannot be loaded' % (self.label(), bad[0]))
            for k in need:
                if k < bad[0] and self.bk.sheet_loaded(k):
                    self.loaded[k] = self.bk.sheet_by_index(k)
                    self.same(k, self.loaded[k])
            self.ctx.fault('load-damaged')
            return
        if r[0] != 'ok':
            raise Violation('load-raised', '%s: all sheets raised %r' % (self.label(), r[1]))
        if len(r[1]) != self.n:
            raise Violation('wrong-count', '%s: %d sheets' % (self.label(), len(r[1])))
        for k, sh in enumerate(r[1]):
            self.same(k, sh)
            if k in self.loaded and self.loaded[k] is not sh:
                raise Violation('loaded-twice', '%s: sheet %d' % (self.label(), k))
            self.loaded[k] = sh

    def interrupted(self, k):
        src, ctx = self.ctx.src, self.ctx
        if k in self.loaded or self.released or k in self.damaged:
            return self.load(k)
        how, fn = self.getter(k)
        n = 1 + (src.draw(40) if src.chance(1, 2) else src.draw(900))
        exc = KeyboardInterrupt('injected') if src.chance(1, 2) else MemoryError('injected')
        t = Interrupt(n, exc)
        try:
            with t:
                sh = fn()
            r = ('ok', sh)
        except (KeyboardInterrupt, MemoryError) as e:
            r = ('raised', e)
        ctx.log(self.i, 'interrupted', k, n, t.fired, r[0])
        if not t.fired:
            return self.after_load(k, r, how)
        ctx.fault('interrupted-load')
        ctx.sched('int', k, n)
        if r[0] == 'ok':
            raise Violation('interrupt-swallowed', '%s: %s of sheet %d swallowed an interrupt' % (self.label(), how, k))
        # loaded or not, but never half
        if self.bk.sheet_loaded(k):
            self.loaded[k] = self.bk.sheet_by_index(k)
            self.same(k, self.loaded[k])

    def unload(self, k):
        r = self.ref(k)
        a = self.attempt(lambda: self.bk.unload_sheet(r))
        self.ctx.log(self.i, 'unload', r, a[0])
        if a[0] != 'ok':
            raise Violation('unload-raised', '%s: unload_sheet(%r) raised %r' % (self.label(), r, a[1]))
        if k in self.loaded:
            self.old.append((k, self.loaded.pop(k)))
            del self.old[:-4]

    def missing(self):
        src = self.ctx.src
        b = self.bk
        own = src.pick(self.names)
        nm = src.pick(['nosuch', '', self.names[0].lower() + '_', 'Chart', own.swapcase(), own.upper(), own[:-1], own + ' ', ' ' + own, '0', '1'])
        if nm in self.names:
            nm += ' nosuch'
        k = src.draw(5)
        fns = [lambda: b.sheet_by_index(self.n + src.draw(3)), lambda: b.sheet_by_name(nm), lambda: b[nm],
               lambda: b.sheet_loaded(nm), lambda: b.unload_sheet(nm)]
        r = self.attempt(fns[k])
        self.ctx.log(self.i, 'missing', k, r[0])
        self.ctx.fault('missing-sheet')
        if r[0] == 'ok':
            raise Violation('missing-accepted', '%s: a sheet that does not exist was returned' % self.label())

    def check(self):
        b = self.bk
        if list(b.sheet_names()) != self.names:
            raise Violation('sheet-names', '%s: %r instead of %r' % (self.label(), b.sheet_names(), self.names))
        for k in range(self.n):
            r = self.ref(k)
            v = b.sheet_loaded(r)
            if bool(v) != (k in self.loaded):
                raise Violation('sheet-loaded', '%s: sheet_loaded(%r) is %r, the history says %r' % (self.label(), r, v, k in self.loaded))

    def release(self):
        k = self.ctx.src.draw(3)
        if k == 0:
            self.bk.release_resources()
        elif k == 1:
            with self.bk:
                pass
        else:
            try:
                with self.bk:
                    raise ZeroDivisionError('in the with block')
            except ZeroDivisionError:
                pass
            else:
                raise Violation('exception-swallowed', 'the with block of a workbook swallowed an exception')
        self.released = True
        self.ctx.log(self.i, 'release', k)

    def final(self):
        for k, sh in list(self.loaded.items()) + self.old:
            self.same(k, sh)


def run(ctx):
    src, w = ctx.src, ctx.world
    books = [Bk(ctx, i) for i in range(1 + src.draw(3))]
    ctx.sample = {'books': [(b.case.fmt, b.how, b.names, sorted(b.damaged)) for b in books]}
    ctx.log(ctx.sample)
    for b in books:
        b.check()
    for _ in range(3 + src.draw(22)):
        b = src.pick(books)
        k = src.draw(b.n)
        op = src.weighted([('load', 8), ('unload', 5), ('interrupted', 4), ('check', 2), ('all', 1), ('missing', 1), ('release', 1)])
        ctx.steps += 1
        ctx.sched(op, b.i, k)
        if op == 'load':
            b.load(k)
        elif op == 'unload':
            b.unload(k)
        elif op == 'interrupted':
            b.interrupted(k)
        elif op == 'check':
            b.check()
        elif op == 'all':
            b.load_all()
        elif op == 'missing':
            b.missing()
        else:
            b.release()
        for q in books:
            q.check()
    for b in books:
        # faults have stopped: every sheet that can be loaded loads
        for k in range(b.n):
            b.load(k)
        b.final()
        b.release()
        b.final()
        b.check()
        if src.chance(1, 2):
            b.bk.release_resources()
    left = [what for what, obj in w.handles if vio.is_open(obj)]
    expect(not left, 'left-open', lambda: 'after the release %r still open' % left)
    fds = common.open_fds(w.prefix)
    expect(not fds, 'left-open', lambda: 'after the release: %r' % fds)
