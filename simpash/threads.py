"""Deterministic thread scheduler: real Python threads, one runs at a time, every switch decided by the chooser.
Switches happen between lines or bytecodes (sys.settrace), at locks and at sleeps."""
import _thread
import operator
import os
import sys
import threading
import time as _time
import weakref
import zlib

REAL_LOCK = _thread.allocate_lock
REAL_RLOCK = _thread.RLock
REAL_SLEEP = _time.sleep
HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep
GAPS = [10 ** 9, 1, 2, 3, 5, 10, 30, 100, 400, 1500, 5000]
MAX_STEPS = 4000000
BUCKETS = 150

_active = None      # the running Sched


class Deadlock(BaseException):
    pass


_locks = weakref.WeakSet()


class CoopLock:
    """threading.Lock known to the scheduler"""
    real = staticmethod(REAL_LOCK)
    # looked up and called without running any Python code while there is one thread only: releasing a real lock cannot fail
    # for lack of memory or stack
    release = property(operator.attrgetter('_release'))
    __exit__ = property(operator.attrgetter('_exit'))

    def __init__(self):
        self._l = self.real()
        _locks.add(self)
        self.direct(isinstance(_active, Single))

    def direct(self, on):
        self._release, self._exit = (self._l.release, self._l.__exit__) if on else (self._release_and_wake, self._exit_and_wake)

    def acquire(self, blocking=True, timeout=-1):
        s = _active
        if s is None or not s.mine():
            return self._l.acquire(blocking, timeout)
        s.point()
        if not blocking:
            return self._l.acquire(False)
        while not self._l.acquire(False):
            if timeout is not None and timeout >= 0:
                return False
            s.block(self)
        return True

    def _release_and_wake(self):
        self._l.release()
        s = _active
        if s is not None:
            s.wake(self)

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return True

    def _exit_and_wake(self, *a):
        self._release_and_wake()

    def _at_fork_reinit(self):
        self._l = self.real()
        self.direct(isinstance(_active, Single))


class CoopRLock(CoopLock):
    real = staticmethod(REAL_RLOCK)

    def _is_owned(self):
        return self._l._is_owned()

    def _release_save(self):
        return self._l._release_save()

    def _acquire_restore(self, st):
        self.acquire()
        self._l.release()
        self._l._acquire_restore(st)

    def locked(self):
        if self._l.acquire(False):
            self._l.release()
            return False
        return True


def coop_sleep(t=0):
    s = _active
    if s is None or not s.mine():
        return REAL_SLEEP(t)
    s.point(force=True)


class patched:
    """locks and sleep made by code inside are those of the scheduler"""

    def __enter__(self):
        self.old = threading.Lock, threading.RLock, threading._allocate_lock, _time.sleep
        threading.Lock = CoopLock
        threading.RLock = CoopRLock
        threading._allocate_lock = CoopLock
        _time.sleep = coop_sleep

    def __exit__(self, *a):
        threading.Lock, threading.RLock, threading._allocate_lock, _time.sleep = self.old


_asked = False


def ask_for_opcodes():
    # CPython 3.12 turns bytecode events on only if some frame asked for them before, and crashes if several threads do
    global _asked
    if not _asked:
        sys._getframe().f_trace_opcodes = True
        _asked = True


class T:
    def __init__(self, i, body):
        self.i = i
        self.body = body
        self.baton = REAL_LOCK()
        self.baton.acquire()
        self.state = 'ready'        # ready, blocked, done
        self.on = None
        self.ident = None
        self.error = None


class Sched:
    def __init__(self, ch, repo, everywhere=False, opcodes=False, targets=0):
        self.ch = ch
        # besides gaps: source lines (by hash) at which a thread is preempted whenever it gets there
        self.targets = set(ch.choose(BUCKETS + 1) for _ in range(targets)) - {0}
        self.buckets = {}
        self.repo = os.path.realpath(repo) + os.sep
        self.everywhere = everywhere
        self.opcodes = opcodes
        self.left = 0
        self.steps = 0
        self.preemptions = 0
        self.trail = []
        self.places = set()
        self.cur = None
        self.stop = None
        self._traced = {}

    def mine(self):
        return self.cur is not None and self.cur.ident == _thread.get_ident()

    # ---- tracing
    def wanted(self, fn):
        w = self._traced.get(fn)
        if w is None:
            if fn.startswith('<frozen') or fn.startswith(HERE) or os.path.basename(fn) == 'threading.py':
                w = False
            elif self.everywhere:
                w = True
            else:
                w = os.path.realpath(fn).startswith(self.repo)
            self._traced[fn] = w
        return w

    def trace(self, frame, event, arg):
        if not self.wanted(frame.f_code.co_filename):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self.steps += 1
            self.left -= 1
            if self.targets and self.left > 0:
                k = (frame.f_code, frame.f_lineno)
                b = self.buckets.get(k)
                if b is None:
                    c = frame.f_code
                    b = self.buckets[k] = 1 + zlib.crc32(('%s:%s:%s' % (os.path.basename(c.co_filename), c.co_name, frame.f_lineno)).encode()) % BUCKETS
                if b in self.targets and (event == 'line' or self.ch.choose(4) == 1) and self.ch.choose(3):
                    self.left = 0
            if self.left <= 0:
                self.switch(frame)
            if self.steps > MAX_STEPS:
                self.stop = self.stop or 'calls do not return (thread at %s line %s)' % (frame.f_code.co_name, frame.f_lineno)
                raise Deadlock()
        return self.local

    # ---- scheduling
    def gap(self):
        self.left = GAPS[self.ch.choose(len(GAPS), .6 if self.targets else .12)]

    def switch(self, frame=None):
        f = frame
        while f is not None:
            if f.f_code.co_filename.startswith('<frozen importlib'):
                self.left = 1
                return
            f = f.f_back
        me = self.cur
        others = [t for t in self.threads if t.state == 'ready' and t is not me]
        if not others:
            self.left = GAPS[0]
            return
        nxt = others[self.ch.choose(len(others))]
        self.preemptions += 1
        if frame is not None:
            where = '%s:%s' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
            self.places.add(where)
            self.trail.append((me.i, where))
        self.give(nxt)
        me.baton.acquire()
        if self.stop:
            raise Deadlock()

    def give(self, t):
        self.cur = t
        self.gap()
        t.baton.release()

    def point(self, force=False):
        """a place where the thread may be switched"""
        self.left -= 1
        if self.left <= 0 or force:
            self.switch(sys._getframe(1))

    def block(self, lock):
        me = self.cur
        me.state, me.on = 'blocked', lock
        self.leave(me)
        me.baton.acquire()
        if self.stop:
            raise Deadlock()

    def wake(self, lock):
        for t in self.threads:
            if t.state == 'blocked' and t.on is lock:
                t.state, t.on = 'ready', None

    def leave(self, me):
        """me cannot go on; who next?"""
        ready = [t for t in self.threads if t.state == 'ready']
        if ready:
            self.give(ready[self.ch.choose(len(ready))])
            return
        blocked = [t for t in self.threads if t.state == 'blocked']
        if blocked:
            self.stop = self.stop or 'deadlock'
            t = blocked[0]
            t.state = 'ready'
            self.cur = t
            t.baton.release()
            return
        self.cur = None
        self.done.release()

    def main(self, t):
        # tracing starts and ends outside the simulated part: CPython rewrites running code when it does
        t.ident = _thread.get_ident()
        sys.settrace(self.trace)
        self.done.release()
        t.baton.acquire()
        try:
            if not self.stop:
                t.body()
        except BaseException as e:
            t.error = e
        t.state = 'done'
        self.leave(t)
        t.baton.acquire()       # until the process ends

    def run(self, bodies):
        global _active
        self.threads = [T(i, b) for i, b in enumerate(bodies)]
        self.done = REAL_LOCK()
        self.done.acquire()
        if self.opcodes:
            ask_for_opcodes()
        for t in self.threads:
            _thread.start_new_thread(self.main, (t,))
            self.done.acquire()
        _active = self
        self.give(self.threads[self.ch.choose(len(self.threads))])
        self.done.acquire()
        _active = None
        return self.stop


class Single:
    """one thread: a lock which is taken can never be released again"""

    def mine(self):
        return True

    def point(self, force=False):
        pass

    def block(self, lock):
        raise Deadlock('lock is never released')

    def wake(self, lock):
        pass


class single:
    def __enter__(self):
        global _active
        self.old = _active
        _active = Single()
        for l in list(_locks):
            l.direct(True)

    def __exit__(self, *a):
        global _active
        _active = self.old
        for l in list(_locks):
            l.direct(isinstance(_active, Single))


_exempt = {}


def fragile(frame):
    """between entering a `with` or `try` and the start of its protection CPython itself may lose an exception handler: not a place to interrupt"""
    k = (frame.f_code.co_filename, frame.f_lineno)
    if k not in _exempt:
        import linecache
        t = linecache.getline(k[0], k[1] or 0).strip()
        _exempt[k] = t.startswith(('with ', 'try:', 'async with '))
    return _exempt[k]


class Interrupter:
    """raises exc() at the n-th step of library code (at all places, or only at one place); n None: counts steps and places"""

    def __init__(self, repo, n, exc, everywhere=False, opcodes=False, place=None):
        self.sched = Sched(None, repo, everywhere, opcodes)
        self.n = n
        self.exc = exc
        self.opcodes = opcodes
        self.place = place
        self.places = {}
        self.seen = 0
        self.steps = 0
        self.fired = None
        self.cache = {}

    def trace(self, frame, event, arg):
        if not self.sched.wanted(frame.f_code.co_filename):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self.steps += 1
            if self.fired is None and self.counts(frame):
                self.seen += 1
                if self.n is not None and self.seen >= self.n and not fragile(frame):
                    f = frame
                    while f is not None:
                        if f.f_code.co_filename.startswith('<frozen importlib'):
                            return self.local
                        f = f.f_back
                    self.fired = '%s:%s' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                    raise self.exc()
            if self.steps > MAX_STEPS:
                raise Deadlock('call does not return')
        return self.local

    def counts(self, frame):
        if self.place is None and self.n is not None:
            return True
        k = (frame.f_code, frame.f_lineno)
        b = self.cache.get(k)
        if b is None:
            b = self.cache[k] = '%s:%s:%s' % (os.path.basename(k[0].co_filename), k[0].co_name, k[1])
        if self.n is None:
            self.places[b] = self.places.get(b, 0) + 1
        return b == self.place

    def __enter__(self):
        if self.opcodes:
            ask_for_opcodes()
        sys.settrace(self.trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
