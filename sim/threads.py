"""Cooperative simulation of threads.

Tasks run in real Python threads, but exactly one of them holds the baton at any
time.  Preemption points are executed lines (or, in some runs, bytecodes) of the
code under test and every simulated I/O call.  The seeded source decides after
how many points the baton changes hands and who gets it next, so one seed is one
interleaving.  threading.Lock/RLock are replaced by locks that hand the baton on
instead of blocking, so code that synchronises is simulated correctly too.
"""
import _thread
import os
import sys
import threading

from .core import HarnessError, Violation

REPO_PREFIX = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'channelpack') + os.sep

_real_lock = _thread.allocate_lock
_real_threading_Lock = threading.Lock
_current = [None]


class Killed(BaseException):
    pass


class SimLock(object):
    def __init__(self):
        self._l = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        s = _current[0]
        if s is None or not s.is_task():
            return self._l.acquire(True, timeout)
        while not self._l.acquire(False):
            s.blocked()
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock(object):
    def __init__(self):
        self._b = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._b.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    __enter__ = acquire

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._b.release()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._b.release()
        return st

    def _acquire_restore(self, st):
        self._b.acquire()
        self._count, self._owner = st


def install():
    threading.Lock = SimLock
    threading.RLock = SimRLock


class Task(object):
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.baton = _real_lock()
        self.baton.acquire()
        self.done = False
        self.value = None
        self.exc = None
        self.ident = None
        self.stalled = 0


class Sched(object):
    """Runs tasks to completion under a seeded schedule."""
    MAXPOINTS = 4000000

    def __init__(self, ctx, opcodes=False):
        self.ctx = ctx
        self.src = ctx.src
        self.tasks = []
        self.main = _real_lock()
        self.main.acquire()
        self.cur = None
        self.points = 0
        self.switches = 0
        self.opcodes = opcodes
        self.killed = False
        self.failure = None
        self.left = 0
        self.blockspin = 0
        # how far apart the switches lie: close together, or anywhere in a long call
        self.spread = ctx.src.draw(3)
        # in some runs a line counts as a point only the first times a thread comes by,
        # so that loops over cells or bytes do not crowd out the rest
        self.fresh = ctx.src.pick([0, 0, 1, 3])
        self.seen = {}
        # in some runs only the lines of one source file are points, so that a short
        # piece of code beside a long one is cut up as well
        self.focus = '' if ctx.src.chance(1, 3) else None
        self.files = set()

    def spawn(self, name, fn):
        t = Task(name, fn)
        self.tasks.append(t)
        return t

    def is_task(self):
        return self.cur is not None and self.cur.ident == _thread.get_ident()

    # ---- schedule decisions
    def quantum(self):
        """Points until the next switch; 0 drawn means run until the task ends."""
        if self.spread == 1:
            k = self.src.draw(17)
            if k == 0:
                return 1 << 60
            return 1 + self.src.draw(1 << (k - 1))
        if self.spread == 2:
            k = self.src.draw(3)
            if k == 0:
                return 1 << 60
            return 1 + self.src.draw(1 << (6 + self.src.draw(10)))
        k = self.src.draw(8)
        if k == 0:
            return 1 << 60
        if self.focus:
            return 1 + self.src.draw(3 * k)
        if k <= 3:
            return 1 + self.src.draw(6)
        if k <= 5:
            return 1 + self.src.draw(60)
        return 1 + self.src.draw(600)

    def runnable(self):
        return [t for t in self.tasks if not t.done]

    def pick(self, exclude=None):
        r = [t for t in self.runnable() if t is not exclude]
        if not r:
            return None
        return r[self.src.draw(len(r))]

    def run(self):
        if _current[0] is not None:
            raise HarnessError('nested scheduler')
        _current[0] = self
        self.ctx.world.sched = self
        try:
            for t in self.tasks:
                _thread.start_new_thread(self.body, (t,))
            first = self.pick()
            self.left = self.quantum()
            self.cur = first
            first.baton.release()
            self.main.acquire()
        except BaseException:
            self.kill()
            raise
        finally:
            _current[0] = None
            self.ctx.world.sched = None
        if self.failure is not None:
            raise self.failure

    def kill(self):
        self.killed = True
        for t in self.tasks:
            if not t.done:
                try:
                    t.baton.release()
                except RuntimeError:
                    pass

    def body(self, t):
        t.baton.acquire()
        if self.killed:
            return
        t.ident = _thread.get_ident()
        try:
            sys.settrace(self.trace)
            try:
                t.value = t.fn()
            finally:
                sys.settrace(None)
        except Killed:
            return
        except Violation as v:
            t.exc = v
            if self.failure is None:
                self.failure = v
        except HarnessError as e:
            if self.failure is None:
                self.failure = e
        except BaseException as e:
            t.exc = e
        t.done = True
        if self.killed:
            return
        nxt = self.pick()
        if nxt is None or isinstance(self.failure, HarnessError):
            self.main.release()
            return
        self.left = self.quantum()
        self.cur = nxt
        self.ctx.sched('end', t.name, self.points, nxt.name)
        nxt.baton.release()

    # ---- preemption
    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(REPO_PREFIX):
            return None
        if self.focus is not None:
            fn = frame.f_code.co_filename
            if not self.focus and fn not in self.files:
                self.files.add(fn)
                if self.src.chance(1, 4):
                    self.focus = fn
                    self.spread = 0
                    self.left = self.quantum()
            if self.focus and fn != self.focus:
                return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            if self.focus and frame.f_code.co_filename != self.focus:
                return self.local
            if self.fresh:
                k = (self.cur, frame.f_code, frame.f_lineno if event == 'line' else frame.f_lasti)
                n = self.seen[k] = self.seen.get(k, 0) + 1
                if n > self.fresh:
                    return self.local
            self.point()
        return self.local

    def io_point(self, group):
        if self.is_task() and not self.focus:
            self.point()

    def point(self):
        self.points += 1
        self.ctx.steps += 1
        self.left -= 1
        if self.left > 0:
            return
        if self.points > self.MAXPOINTS:
            if self.failure is None:
                self.failure = Violation('no-progress', 'the threads do not finish within %d steps' % self.MAXPOINTS)
            self.killed = True
            self.main.release()
            raise Killed()
        self.switch()

    def switch(self):
        me = self.cur
        nxt = self.pick(exclude=me)
        self.left = self.quantum()
        if nxt is None:
            return
        self.switches += 1
        self.ctx.fault('preemption')
        self.ctx.sched(me.name, self.points, nxt.name)
        self.cur = nxt
        nxt.baton.release()
        me.baton.acquire()
        if self.killed:
            raise Killed()

    def blocked(self):
        """The running task waits for a lock another task holds."""
        self.blockspin += 1
        if self.blockspin > 100000:
            if self.failure is None:
                self.failure = Violation('deadlock', 'all threads wait for locks')
            self.killed = True
            self.main.release()
            raise Killed()
        self.switch()


def cleanup():
    s = _current[0]
    if s is not None:
        s.kill()
        _current[0] = None
