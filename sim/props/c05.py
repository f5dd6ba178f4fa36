"""C05: dbfpack yields exactly the live records and the chosen fields."""
from ..gendbf import DbfCase
from . import common, exact

RUNS = {'quick': 40000, 'thorough': 700000}
RULE = ('A run draws fields, records with deletions, chosen names and delivery, and reads the file two to three times under different splits '
        'and buffer sizes. Non-trivial: bytes were split, or the source is a stream; distinct by the hash of the I/O trace and case.')
REAL = common.REAL_IO
STUB = common.STUB_IO
ASSUME = ['well-formed dBASE III headers; ascii character data', 'CPython io is trusted']


def run(ctx):
    case = DbfCase(ctx.src, long_ok=True)
    if any(r[0] for r in case.records):
        ctx.probe('with-deleted')
    if case.names:
        ctx.probe('chosen-fields')
    exact.run(ctx, case)
