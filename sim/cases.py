"""Putting a generated source on the simulated disk, handing it to the library."""
import io
import os

from . import vio
from .core import Violation
from .gentext import TextCase, LazyCase, DuckText
from .gendbf import DbfCase
from .genxl import SheetCase
from .util import call, canon_expected, pack_diff


def lib():
    import channelpack
    return channelpack


EXT = {'textpack': '.txt', 'lazy_textpack': '.txt', 'dbfpack': '.dbf', 'sheetpack': '.xls'}


class Loaded(object):
    """A case written to the scratch directory."""

    def __init__(self, world, case, tag='src'):
        self.world = world
        self.case = case
        self.path = os.path.join(world.scratch, tag + EXT[case.factory])
        with vio._real_open(self.path, 'wb') as f:
            f.write(case.content)
        cols, names = case.expected()
        self.exp_cols = canon_expected(cols)
        self.exp_names = names
        self.override = {}          # arguments that replace those of the case

    def make_stream(self):
        """The object handed to the library, and the fn expected of the pack."""
        c, w = self.case, self.world
        d = c.delivery
        enc = getattr(c, 'encoding', None)
        if d == 'path':
            return self.path, self.path
        if d == 'stringio':
            # text as the caller would hold it; StringIO does not translate line ends
            s = io.StringIO(c.content.decode(enc), newline='')
            fn = ''
        elif d == 'bytesio':
            s = io.BytesIO(c.content)
            fn = ''
        elif d == 'fdtext':
            s = vio._real_open(os.open(self.path, os.O_RDONLY), 'r', encoding=enc)
            fn = ''
        elif d == 'fdbytes':
            s = vio._real_open(os.open(self.path, os.O_RDONLY), 'rb')
            fn = ''
        elif d == 'bytesfile':
            s = vio.sim_stack(self.path, w, 'rb', bufsize=w.bufsize)
            fn = self.path
        elif d == 'rawfile':
            # unbuffered: one read for every byte of a line, so small files only
            s = vio.sim_stack(self.path, w, 'rb', bufsize=0 if len(c.content) < 3000 else w.bufsize)
            fn = self.path
        elif d == 'textfile':
            s = vio.sim_stack(self.path, w, 'r', encoding=enc, bufsize=w.bufsize, chunk=w.chunk)
            fn = self.path
        elif d == 'ducktext':
            s = DuckText(vio.sim_stack(self.path, w, 'r', encoding=enc, bufsize=w.bufsize, chunk=w.chunk))
            fn = ''
        else:
            raise AssertionError(d)
        p = c.prefix
        if isinstance(p, bytes):
            if p:
                s.seek(len(p))
        else:
            for _ in p:
                s.readline()
        return s, fn

    def read(self, stream, conv_wrap=None):
        """Call the factory; returns an Outcome."""
        fn = getattr(lib(), self.case.factory)
        kw = self.case.kwargs(conv_wrap)
        kw.update(self.override)
        self.last_kw = kw
        return call(self.world, fn, stream, **kw)

    def diff(self, pack, fn=None):
        return pack_diff(pack, self.exp_cols, self.exp_names, fn)


def delivery_knobs(src, world, size=0):
    """Buffer sizes, chunk sizes and short reads of this run."""
    k = src.draw(4)
    if size > 20000:
        # coarser, for large sources
        world.bufsize = src.pick([None, 512, 1000, 4096, 65536])
        world.chunk = src.pick([None, 128, 1000, 4096])
        world.short = src.pick([0, 2])
        return
    if k == 0:
        world.short = 0
        world.bufsize = None
        world.chunk = None
    else:
        world.bufsize = src.pick([None, 1, 2, 7, 16, 64, 100, 512, 4096])
        world.chunk = src.pick([None, 1, 2, 3, 8, 31, 128])
        world.short = src.pick([0, 2, 8, 16])


def close_quietly(s):
    if isinstance(s, str):
        return
    try:
        s.close()
    except BaseException:
        pass


def make_case(src, kinds=('text', 'lazy', 'dbf', 'sheet'), **kw):
    k = src.pick(kinds)
    if k == 'text':
        return TextCase(src, **kw)
    if k == 'lazy':
        return LazyCase(src)
    if k == 'dbf':
        return DbfCase(src)
    return SheetCase(src, small=True, maxsheets=2)
