"""The I/O seam: open(), raw reads, seeks, tells, memory maps.

Real Python I/O objects (BufferedReader, TextIOWrapper, zipfile, mmap) run on
top of SimRaw, a FileIO whose every system-call-like operation is first offered
to the World, which may fail it, shorten it, let a simulated writer act on the
file, or switch to another simulated thread.  Only paths under the world's
scratch directory are simulated; everything else passes through untouched.

install() is called once per process, before channelpack is imported.
"""
import builtins
import errno
import io
import mmap as _mmap
import os

_real_open = io.open
_real_mmap = _mmap.mmap
_current = [None]          # the World of the running simulation


def world():
    return _current[0]


class Fault(object):
    """Fail one operation.  at: the n-th (0-based) operation of the given
    group ('any', 'open', 'read', 'seek', 'tell', 'mmap', 'close', 'conv')."""

    def __init__(self, group, at, kind, what=None):
        self.group = group
        self.at = at
        self.kind = kind
        self.what = what           # only operations on this file (counted per file)
        self.fired = False
        self.exc = None

    def __repr__(self):
        return 'Fault(%s#%d %s)' % (self.group, self.at, self.kind)


FAULT_EXCS = {
    'eio': lambda: OSError(errno.EIO, 'injected: Input/output error'),
    'estale': lambda: OSError(errno.ESTALE, 'injected: Stale file handle'),
    'enospc': lambda: OSError(errno.ENOSPC, 'injected: No space left'),
    'timeout': lambda: TimeoutError(errno.ETIMEDOUT, 'injected: timed out'),
    'eintr': lambda: InterruptedError(errno.EINTR, 'injected: interrupted call'),
    'emfile': lambda: OSError(errno.EMFILE, 'injected: Too many open files'),
    'enoent': lambda: FileNotFoundError(errno.ENOENT, 'injected: vanished'),
    'eacces': lambda: PermissionError(errno.EACCES, 'injected: permission'),
    'memory': lambda: MemoryError('injected: out of memory'),
    'kbdint': lambda: KeyboardInterrupt('injected: interrupt'),
    'sysexit': lambda: SystemExit('injected: exit'),
    # exceptions a caller's converter may raise
    'value': lambda: ValueError('injected: value'),
    'key': lambda: KeyError('injected: key'),
    'index': lambda: IndexError('injected: index'),
    'attr': lambda: AttributeError('injected: attr'),
    'type': lambda: TypeError('injected: type'),
    'stopiter': lambda: StopIteration('injected: stop'),
    'genexit': lambda: GeneratorExit('injected: generator exit'),
    'zerodiv': lambda: ZeroDivisionError('injected: zero'),
    'eof': lambda: EOFError('injected: eof'),
    'runtime': lambda: RuntimeError('injected: runtime'),
    'assert': lambda: AssertionError('injected: assert'),
    'lookup': lambda: LookupError('injected: lookup'),
    'unicode': lambda: UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'injected: unicode'),
}
IO_KINDS = ['eio', 'estale', 'timeout', 'memory', 'kbdint', 'eintr', 'value', 'runtime', 'eof']
OPEN_KINDS = ['eio', 'emfile', 'enoent', 'eacces', 'memory', 'kbdint']
CONV_KINDS = ['value', 'key', 'index', 'attr', 'type', 'stopiter', 'zerodiv', 'eof', 'runtime',
              'assert', 'lookup', 'unicode', 'eio', 'memory', 'kbdint', 'sysexit', 'genexit']


class World(object):
    def __init__(self, scratch):
        self.scratch = os.path.realpath(scratch)
        self.prefix = self.scratch + os.sep
        self.reset()

    def reset(self):
        self.ctx = None
        self.active = False        # inside a library call
        self.faults = []
        self.counts = {}
        self.handles = []          # (what, obj) opened while active
        self.src = None
        self.short = 0             # 0: full reads, else probability x/16 of a short read
        self.bufsize = None        # None: default
        self.chunk = None          # TextIOWrapper chunk size
        self.on_io = None          # live writer hook, called before each operation
        self.sched = None          # thread scheduler
        self.newfaults = 0
        self.perfile = False
        self.quiet = False

    # ---- one simulated I/O operation
    def op(self, group, what=''):
        if not self.active or self.quiet:
            return
        c = self.counts
        n_any = c.get('any', 0)
        n = c.get(group, 0)
        c['any'] = n_any + 1
        c[group] = n + 1
        n_what = None
        if self.perfile:
            kw = (group, what)
            n_what = c.get(kw, 0)
            c[kw] = n_what + 1
        if self.ctx is not None:
            self.ctx.steps += 1
        if self.sched is not None:
            self.sched.io_point(group)
        if self.on_io is not None:
            self.on_io(group)
        for f in self.faults:
            if f.fired:
                continue
            if f.what is not None:
                hit = f.group == group and f.what == what and f.at == n_what
            else:
                hit = False
            if hit or (f.what is None and f.group == group and f.at == n) or (f.group == 'any' and f.at == n_any
                                                            and group != 'conv'):
                f.fired = True
                f.exc = FAULT_EXCS[f.kind]()
                if self.ctx is not None:
                    self.ctx.fault('%s:%s' % (group, f.kind))
                    self.ctx.log('FAULT', group, n, f.kind)
                    self.ctx.sched('fault', group, n, f.kind)
                raise f.exc

    def short_len(self, n):
        """How many of n bytes a raw read delivers."""
        if not self.active or self.quiet or not self.short or n <= 1 or self.src is None:
            return n
        if not self.src.chance(self.short, 16):
            return n
        k = 1 + self.src.draw(min(n, 64))
        if k < n:
            if self.ctx is not None:
                self.ctx.fault('short_read')
                self.ctx.sched('short', k)
            return k
        return n

    def register(self, what, obj):
        if self.active:
            self.handles.append((what, obj))

    def owns(self, file):
        try:
            p = os.fspath(file)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        ap = os.path.abspath(p)
        if ap.startswith(self.prefix):
            return ap
        return None


class SimRaw(io.FileIO):
    """FileIO whose operations are simulated."""

    def __init__(self, path, w):
        self._w = w
        self._base = os.path.basename(path)
        io.FileIO.__init__(self, path, 'r')

    def readinto(self, b):
        w = self._w
        w.op('read', self._base)
        mv = memoryview(b).cast('B')
        n = len(mv)
        k = w.short_len(n)
        got = io.FileIO.readinto(self, mv[:k])
        if w.ctx is not None and w.active:
            w.ctx.log('read', self._base, got)
        return got

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        b = bytearray(size)
        got = self.readinto(b)
        return None if got is None else bytes(b[:got])

    def readall(self):
        out = []
        while True:
            b = bytearray(65536)
            got = self.readinto(b)
            if not got:
                break
            out.append(bytes(b[:got]))
        return b''.join(out)

    def seek(self, pos, whence=0):
        self._w.op('seek', self._base)
        return io.FileIO.seek(self, pos, whence)

    def tell(self):
        self._w.op('tell', self._base)
        return io.FileIO.tell(self)

    def close(self):
        w = self._w
        if self.closed:
            return
        try:
            w.op('close', self._base)
        finally:
            io.FileIO.close(self)
            if w.ctx is not None and w.active:
                w.ctx.log('close', self._base)


def sim_stack(path, w, mode, encoding=None, errors=None, newline=None, bufsize=None, chunk=None):
    """Build the io stack over a SimRaw, as io.open would."""
    raw = SimRaw(path, w)
    try:
        if bufsize == 0:
            return raw
        buf = io.BufferedReader(raw, bufsize or io.DEFAULT_BUFFER_SIZE)
        if 'b' in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding=encoding, errors=errors, newline=newline)
        text.mode = mode
        if chunk:
            text._CHUNK_SIZE = chunk
        return text
    except BaseException:
        quiet, w.quiet = w.quiet, True
        try:
            raw.close()
        finally:
            w.quiet = quiet
        raise


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    w = _current[0]
    if w is None:
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = w.owns(file) if not isinstance(file, int) else None
    if path is None or not w.active:
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if any(c in mode for c in 'wax+'):
        w.ctx.log('WRITE-OPEN', os.path.basename(path), mode)
        w.handles.append(('write-open:' + mode, None))
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    w.op('open', os.path.basename(path))
    if opener is not None or (set(mode) - set('rbt')):
        obj = _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    else:
        if 'b' in mode and (encoding or errors or newline):
            raise ValueError('binary mode takes no text arguments')
        obj = sim_stack(path, w, mode, encoding, errors, newline,
                        0 if (buffering == 0 and 'b' in mode) else w.bufsize, w.chunk)
    if w.ctx is not None:
        w.ctx.log('open', os.path.basename(path), mode)
    w.register('file', obj)
    return obj


class SimMmap(_real_mmap):
    def __new__(cls, *a, **k):
        w = _current[0]
        if w is not None:
            w.op('mmap')
        obj = _real_mmap.__new__(cls, *a, **k)
        if w is not None:
            w.register('mmap', obj)
        return obj


def is_open(obj):
    """Is a handle still open?"""
    if obj is None:
        return False
    c = getattr(obj, 'closed', None)
    return not c


_installed = []


def install():
    if _installed:
        return
    _installed.append(1)
    builtins.open = sim_open
    io.open = sim_open
    _mmap.mmap = SimMmap


def set_world(w):
    _current[0] = w
