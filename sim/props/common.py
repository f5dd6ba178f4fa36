"""Shared by the property modules."""
import os

REAL_IO = ['channelpack (all of pack, readtext, dbf, readxl, datautils and the bundled xlrd)', 'numpy',
           'CPython io.BufferedReader and io.TextIOWrapper, zipfile, zlib, expat, mmap over a scratch directory in memory']
STUB_IO = ['raw file reads, seeks, tells, opens and map calls are offered to the simulator first (io.FileIO subclass), which may fail or shorten them',
           'converter functions are the harness\'s own', 'sys.stdout is a sink']
ASSUME_IO = ['the simulator is below the Python io classes: a fault is the exception that the operating system call would raise',
             'CPython io, zipfile, zlib and expat are trusted']
REAL_PACK = ['channelpack.pack and channelpack.datautils', 'numpy']
STUB_PACK = ['numpy data allocation (a NEP 49 memory handler that can fail the n-th allocation), when allocation faults are injected',
             'the operations, arguments and iterables handed in are the harness\'s own']
ASSUME_PACK = ['a small executable model of ChannelPack (sim/model.py), written from the documentation, is right',
               'callers use boolean masks of the length of the data']


def conv_wrapper(w):
    """Make a converter an operation the simulator may fail."""
    w.empties = []              # the calls that were about an empty field
    def wrap(f):
        def conv(v):
            if not v.strip():
                w.empties.append(w.counts.get('conv', 0))
            w.op('conv')
            return f(v)
        return conv
    return wrap


def open_fds(prefix):
    """Descriptors and maps of this process that refer to files under prefix."""
    out = []
    for n in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink('/proc/self/fd/' + n)
        except OSError:
            continue
        if t.startswith(prefix):
            out.append('fd %s' % os.path.basename(t))
    with open('/proc/self/maps') as f:
        for line in f:
            if prefix in line:
                out.append('map %s' % os.path.basename(line.strip().split(None, 5)[-1]))
    return out
