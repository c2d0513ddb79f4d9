"""Runs a function in a forked copy of this process, which has imported the library and never called it."""
import gc
import json
import os
import resource
import select
import signal
import sys
import time

from .kernel import HarnessError
from .lib import Violation


try:
    import ctypes
    _prctl = ctypes.CDLL(None, use_errno=True).prctl
except Exception:
    _prctl = None
MEMORY = 3 << 30    # bytes of address space a process that runs library code may use


def bounded():
    """no more memory than a run can need, and no life after the parent"""
    try:
        if _prctl is not None:
            _prctl(1, signal.SIGKILL, 0, 0, 0)
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    except (OSError, ValueError):
        pass


def cpu_of(pid):
    """processor time and whether any of its threads could run"""
    try:
        t, runnable = 0, False
        for tid in os.listdir('/proc/%d/task' % pid):
            with open('/proc/%d/task/%s/stat' % (pid, tid)) as f:
                w = f.read().rsplit(')', 1)[1].split()
            t += int(w[11]) + int(w[12])
            runnable = runnable or w[0] in 'RD'
        return t, runnable
    except OSError:
        return None, False


class Died(Exception):
    """the child ended without an answer"""

    def __init__(self, status):
        self.status = status


class Stuck(Exception):
    """the child does nothing any more"""


class TooLong(Exception):
    pass


def in_child(fn, stuck=6.0, limit=60.0, quiet=True, also=None):
    """JSON answer of fn() computed in a fork; `also` is called in the child first"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            bounded()
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            gc.disable()
            if quiet:
                n = os.open('/dev/null', os.O_RDWR)
                for fd in (0, 1, 2):
                    os.dup2(n, fd)
            try:
                if also:
                    also()
                out = ['ok', fn()]
            except Violation as e:
                out = ['violation', str(e)]
            except HarnessError as e:
                out = ['error', str(e)]
            except BaseException:
                import traceback
                out = ['error', traceback.format_exc()]
            sys.settrace(None)
            data = json.dumps(out).encode()
            while data:
                data = data[os.write(w, data):]
            os._exit(0)
        except BaseException:
            os._exit(99)
    os.close(w)
    buf = []
    t0 = time.monotonic()
    last, since = None, t0
    try:
        while True:
            rd, _, _ = select.select([r], [], [], 1.0)
            if rd:
                d = os.read(r, 1 << 16)
                if not d:
                    break
                buf.append(d)
                continue
            now = time.monotonic()
            cpu, runnable = cpu_of(pid)
            if runnable or cpu != last:
                last, since = cpu, now
            elif now - since > stuck:
                raise Stuck()
            if now - t0 > limit:
                raise TooLong()
    finally:
        os.close(r)
        if not buf:
            try:
                os.kill(pid, signal.SIGKILL) if time.monotonic() - t0 > min(stuck, limit) else None
            except OSError:
                pass
        _, st = os.waitpid(pid, 0)
    if not buf:
        raise Died(st)
    try:
        kind, val = json.loads(b''.join(buf))
    except ValueError:
        raise Died(st)
    if kind == 'violation':
        raise Violation(val)
    if kind == 'error':
        raise HarnessError(val)
    return val


_refs = {}


def reference(q, keep=False):
    """the answer of one question asked alone"""
    k = json.dumps(q)
    if k not in _refs:
        from .ask import Ask
        if len(_refs) > 60000:
            _refs.clear()
        _refs[k] = in_child(lambda: json.loads(json.dumps(Ask(keep=False).answer(q))))
    return _refs[k]
