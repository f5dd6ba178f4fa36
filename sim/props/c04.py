"""C04: lazy_textpack finds the exact numeric table however it is delivered."""
import io
from .. import vio
from ..core import Violation, expect
from ..gentext import LazyCase
from ..cases import lib
from ..util import call
from . import common, exact
import os

RUNS = {'quick': 40000, 'thorough': 700000}
RULE = ('A run draws a numeric table, header, separator, decimal mark, number of pre-parsed lines, options and delivery, and reads it two to '
        'three times under different splits, buffer and chunk sizes (or, one run in twelve, a source without data). Non-trivial: bytes were '
        'split, or the source is a stream; distinct by the hash of the I/O trace and case.')
REAL = common.REAL_IO
STUB = common.STUB_IO
ASSUME = ['headers hold no digits; numbers that meet a comma are written with digits on both sides of the mark', 'CPython io is trusted']


def run(ctx):
    src, w = ctx.src, ctx.world
    if src.chance(1, 12):
        return nodata(ctx)
    case = LazyCase(src, long_ok=True)
    exact.run(ctx, case)


def nodata(ctx):
    src, w = ctx.src, ctx.world
    lines = [src.pick(['', ' ', 'header', 'alfa beta', '***', 'time;speed', 'a b c'])
             for _ in range(src.draw(6))]
    text = ''.join(l + src.pick(['\n', '\n', '\r\n']) for l in lines)
    k = src.draw(4)
    ctx.sample = {'factory': 'lazy_textpack', 'text': text, 'delivery': k}
    ctx.log('nodata', repr(text), k)
    ctx.nontrivial = True
    if k == 0:
        p = os.path.join(w.scratch, 'n.txt')
        with vio._real_open(p, 'w', newline='') as f:
            f.write(text)
        s = p
    elif k == 1:
        s = io.StringIO(text)
    elif k == 2:
        s = io.BytesIO(text.encode('ascii'))
    else:
        s = io.StringIO('x\n1;2\n' + text)
        s.readline()
        s.readline()
    kw = {'parselines': 1 + src.draw(30)} if src.chance(1, 2) else {}
    o = call(w, lib().lazy_textpack, s, **kw)
    ctx.steps += 1
    ctx.probe('source-without-data')
    if o.ok:
        raise Violation('no-data-accepted', 'a source without data gave %r' % (o.value,))
    if not isinstance(o.exc, ValueError):
        raise Violation('no-data-wrong-exception', 'a source without data %r instead of ValueError' % o)
