"""C03: textpack reads the exact table however the bytes are delivered."""
from ..gentext import TextCase
from . import common, exact

RUNS = {'quick': 40000, 'thorough': 700000}
RULE = ('A run draws a table, a text form of it (delimiter, decimal mark, encoding, line ends, header, padding, blank lines), options and '
        'delivery, and reads it two to three times under different splits, buffer and chunk sizes. Non-trivial: bytes were split, or the '
        'source is a stream; distinct by the hash of the I/O trace and case.')
REAL = common.REAL_IO
STUB = common.STUB_IO
ASSUME = ['well-formed tables: every row has all fields, the first row shows each column\'s type, decimal comma shows in the first row',
          'CPython io is trusted']


def run(ctx):
    src = ctx.src
    big = src.chance(1, 40)
    case = TextCase(src, big=big)
    exact.run(ctx, case)
