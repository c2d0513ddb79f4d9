"""C09: the command-line tool never damages an existing file, and a failed save never looks like a success.

The real tool (pash_annotations/annotation_cli.py) runs in forked processes with the rights of `nobody`, on a real scratch directory.
Everything that could order it against others is decided by the case: a second instance of the tool or another program acts at a chosen
traced line or file access of the first one, opening or writing fails at a chosen place, the process ends at a chosen point."""
import _io
import builtins
import errno
import fcntl
import io
import json
import os
import random
import resource
import select
import shutil
import signal
import stat
import sys
import time

from . import lib
from .base import Prop, scratch
from .isolate import bounded, in_child, Stuck, TooLong, Died
from .kernel import HarnessError
from .lib import Violation
from .props_iso import draw_lines, text

SCRIPT = os.path.join(lib.PKG, 'annotation_cli.py')
NOBODY = 65534
PATHS = ['out', 'out', 'out.txt', 'sub/out', './out', 'sub/../out', 'a b', 'nodir/out', 'ro/out', 'ABS/out', 'ABS/new/out', '../up', 'link', 'dangling',
         'sub', 'sub/', '.', '', '-', '~x', '$HOME', 'a*b', "q'\"q", 'out\\n', 'ümlaut', 'new\nline', 'x' * 255, 'x' * 256, 'linkdir/out', 'out.tmp', '.out',
         'file', 'empty', 'readonly', 'fifo', 'file/out', 'out ', ' out', '\tout', 'out\n', ' ', 'sub /out', 'sub/ out', 'OUT', 'Out.TXT', 'out/', '"out"', "'out'",
         'out#1', '%s', '{0}', '{name}.txt', '\u00a0out', 'e\u0301', '\u00e9', '=out', '--', '@out', '>out', '|out', '&1', '1', 'out..', '...', 'out;x', 'out,']
ODD = ' \t\n\r\x0b\x1f~$%{}\\"\'*?[]#;&|()!=,:+@^`<>-.\u00e9\u00df\u00a0\u2028AaZz0'
BEFORE = ['none', 'none', 'none', 'none', 'file', 'empty', 'link', 'dangling', 'dir', 'fifo', 'readonly', 'hardlink', 'loop', 'report']
ACTS = ['file', 'file', 'empty', 'grows', 'link', 'dangling', 'dir', 'gone', 'report', 'readonly', 'peer', 'peer', 'peer']
OPEN_FAULTS = ['EACCES', 'EMFILE', 'ENOSPC', 'EROFS', 'EIO', 'EDQUOT', 'ENOMEM', 'EINTR', 'EPERM']
WRITE_FAULTS = ['ENOSPC', 'EIO', 'EDQUOT', 'EFBIG', 'short', 'limit', 'close EIO', 'close ENOSPC', 'MemoryError', 'KeyboardInterrupt']
WHERE = ['sys'] * 8 + ['cli'] * 6 + ['write'] * 3 + ['pkg', 'pkg', 'end']


def fault_error(name, path):
    if name == 'MemoryError':
        return MemoryError()
    if name == 'KeyboardInterrupt':
        return KeyboardInterrupt()
    n = getattr(errno, name)
    return OSError(n, os.strerror(n), path)


def snapshot(root):
    """everything below root: path -> what must not change"""
    res = {}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            s = os.lstat(p)
            k = stat.S_IFMT(s.st_mode)
            v = [oct(s.st_mode), s.st_ino]
            if k == stat.S_IFLNK:
                v.append(os.readlink(p))
            elif k == stat.S_IFREG:
                v.append(s.st_mtime_ns)
                try:
                    with REAL['open'](p, 'rb') as f:
                        v.append(f.read().decode('utf-8', 'surrogateescape'))
                except OSError:
                    v.append('size %d' % s.st_size)
            res[os.path.relpath(p, root)] = v
    return res


REAL = {'open': builtins.open}


class Raw(io.RawIOBase):
    """a file of the scratch directory whose writing may fail"""

    def __init__(self, sim, raw, name):
        self.sim = sim
        self.raw = raw
        self.name = name
        self.mode = raw.mode

    def readable(self):
        return self.raw.readable()

    def writable(self):
        return self.raw.writable()

    def seekable(self):
        return self.raw.seekable()

    def seek(self, *a):
        return self.raw.seek(*a)

    def tell(self):
        return self.raw.tell()

    def truncate(self, *a):
        return self.raw.truncate(*a)

    def fileno(self):
        return self.raw.fileno()

    def isatty(self):
        return False

    def readinto(self, b):
        return self.raw.readinto(b)

    def write(self, b):
        return self.sim.write(self.raw.write, bytes(b), self.name)

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self.raw.close()
                self.sim.closed(self.name)


class Tool:
    """one run of the tool inside its own process; decides what happens at which of its steps"""

    def __init__(self, root, step, logfd, peer):
        self.root = root
        self.step = step
        self.logfd = logfd
        self.peer = peer
        self.counts = {'sys': 0, 'cli': 0, 'pkg': 0, 'write': 0, 'end': 0}
        self.quiet = False
        self.left = list(step['events'])
        self.fds = set()
        self.grow = None
        self.written = 0
        self.short = False

    def log(self, *what):
        os.write(self.logfd, json.dumps(what).encode() + b'\n')

    # ---- what happens
    def point(self, kind, n=None):
        if self.quiet:
            return
        if n is None:
            self.counts[kind] += 1
            n = self.counts[kind]
        for e in [e for e in self.left if e['at'][0] == kind and e['at'][1] <= n]:
            self.left.remove(e)
            self.quiet = True
            try:
                self.event(e)
            finally:
                self.quiet = False

    def event(self, e):
        k = e['do']
        if k == 'crash':
            self.log('crash')
            os._exit(77)
        if k == 'interrupt':
            self.log('fault', 'interrupt')
            self.unwatch()
            raise KeyboardInterrupt()
        if k == 'pause':
            self.log('paused')
            self.peer.pause()
            return
        if k == 'peer':
            self.log('adversary', 'peer')
            self.peer.start()
            return
        self.adversary(k)

    def adversary(self, k):
        p = self.step['target']
        made = None
        try:
            if k == 'grows' and self.grow:
                os.write(self.grow, b' and more')
                made = p
            elif not os.path.lexists(p):
                if k == 'link':
                    os.symlink(os.path.join(self.root, 'victim'), p)
                elif k == 'dangling':
                    os.symlink(os.path.join(self.root, 'nowhere'), p)
                elif k == 'dir':
                    os.mkdir(p)
                else:
                    fd = os.open(p, os.O_CREAT | os.O_EXCL | os.O_WRONLY, 0o444 if k == 'readonly' else 0o600)
                    if k == 'report':
                        os.write(fd, self.step['report'].encode('utf-8', 'surrogateescape'))
                    elif k != 'empty':
                        os.write(fd, b'written by somebody else')
                    if k == 'grows':
                        self.grow = fd
                        self.left.append({'at': ['sys', self.counts['sys'] + 2], 'do': 'grows'})
                    else:
                        os.close(fd)
                if k == 'gone':
                    os.unlink(p)
                else:
                    made = p
        except OSError:
            return
        if made:
            rel = os.path.relpath(os.path.join(os.path.realpath(os.path.dirname(made)), os.path.basename(made)), self.root)
            self.log('adversary', k, rel, snapshot(self.root).get(rel))
        elif k == 'gone':
            self.log('adversary', k)

    # ---- the seams
    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return (os.path.realpath(p) + '/').startswith(self.root + '/')

    def audit(self, name, args):
        if self.quiet:
            return
        if name == 'open':
            path, mode, flags = args
            if isinstance(path, int):
                return
            self.quiet = True
            try:
                mine = self.inside(path)
            finally:
                self.quiet = False
            writes = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
            if mine:
                self.point('sys')
                f = self.step['open_fault']
                if f and writes and self.counts['sys'] >= f[0]:
                    self.step['open_fault'] = None
                    self.log('fault', 'open ' + f[1])
                    raise fault_error(f[1], path)
            elif writes and path not in ('/dev/null', '/dev/tty', '/dev/stdout', '/dev/stderr'):
                self.log('escape', name, str(path))
                raise PermissionError(errno.EACCES, 'outside of the scratch directory', path)
        elif name in ('os.remove', 'os.rename', 'os.link', 'os.symlink', 'os.truncate', 'os.mkdir', 'os.rmdir', 'os.chmod', 'os.chown', 'os.utime',
                      'os.mkfifo', 'os.mknod', 'shutil.rmtree', 'shutil.copyfile', 'shutil.move', 'os.setxattr'):
            self.quiet = True
            try:
                paths = [a for a in args[:2] if isinstance(a, (str, bytes)) or hasattr(a, '__fspath__')]
                if name == 'os.symlink':
                    paths = paths[1:]
                out = [p for p in paths if not self.inside(p)]
            finally:
                self.quiet = False
            if out:
                self.log('escape', name, str(out[0]))
                raise PermissionError(errno.EACCES, 'outside of the scratch directory', out[0])
            self.point('sys')
        elif name in ('os.system', 'subprocess.Popen', 'os.exec', 'os.posix_spawn', 'os.spawn', 'os.kill', 'os.killpg', 'signal.pthread_kill',
                      'socket.connect', 'socket.bind', 'os.fork', 'os.forkpty', 'ctypes.dlopen', 'resource.setrlimit'):
            self.log('escape', name, repr(args)[:100])
            raise PermissionError('not in the simulation')

    def write(self, real, data, name):
        f = self.step['write_fault']
        at = None
        if f and f[1] not in ('limit',) and not f[1].startswith('close'):
            at = f[0]
        pos = self.written
        points = [e['at'][1] for e in self.left if e['at'][0] == 'write' and pos < e['at'][1] <= pos + len(data)]
        n = len(data)
        if points:
            n = min(points) - pos
        if at is not None and f[1] == 'short':
            n = min(n, at + 1)
            if not self.short:
                self.short = True
                self.log('fault', 'short write')
        elif at is not None and pos + n > at:
            n = at - pos
            if n <= 0:
                self.step['write_fault'] = None
                self.log('fault', 'write ' + f[1])
                raise fault_error(f[1], name)
        n = real(data[:n])
        self.written = pos + n
        self.point('write', self.written)
        return n

    def closed(self, name):
        f = self.step['write_fault']
        self.point('sys')
        if f and f[1].startswith('close'):
            self.step['write_fault'] = None
            self.log('fault', f[1])
            raise fault_error(f[1].split()[1], name)

    def patch(self):
        real_open, real_write, real_os_open = builtins.open, os.write, os.open

        def fopen(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            mine = file in self.fds if isinstance(file, int) else self.inside(file)
            if self.quiet or not mine or not set('wax+') & set(mode):
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            # the real call, for its checks and effects, unbuffered
            raw = real_open(file, mode.replace('t', '').replace('b', '') + 'b', 0, None, None, None, closefd, opener)
            raw = Raw(self, raw, file)
            if 'b' in mode:
                if buffering == 0:
                    return raw
                return io.BufferedRandom(raw) if '+' in mode else io.BufferedWriter(raw)
            if self.step['ascii'] and encoding is None:
                encoding = 'ascii'
            buf = io.BufferedRandom(raw) if '+' in mode else io.BufferedWriter(raw)
            return io.TextIOWrapper(buf, encoding, errors, newline)

        def os_open(path, flags, mode=0o777, *, dir_fd=None):
            fd = real_os_open(path, flags, mode, dir_fd=dir_fd)
            if not self.quiet and not isinstance(path, int) and flags & (os.O_WRONLY | os.O_RDWR) and self.inside(path):
                self.fds.add(fd)
            return fd

        def os_write(fd, data):
            if not self.quiet and fd in self.fds:
                return self.write(lambda b: real_write(fd, b), bytes(data), None)
            return real_write(fd, data)

        def around(real):
            def f(path, *a, **k):
                if self.quiet or isinstance(path, int) or not self.looks(path):
                    return real(path, *a, **k)
                self.point('sys')
                try:
                    return real(path, *a, **k)
                finally:
                    self.point('sys')
            return f
        self.stat = os.stat
        for n in ('stat', 'lstat', 'access'):
            setattr(os, n, around(getattr(os, n)))
        builtins.open = io.open = _io.open = fopen
        os.open, os.write = os_open, os_write

    def looks(self, path):
        self.quiet = True
        try:
            return self.inside(path)
        finally:
            self.quiet = False

    def watch(self):
        kinds = {e['at'][0] for e in self.left}
        if not kinds & {'cli', 'pkg'}:
            return
        every = 'pkg' in kinds

        def local(frame, event, arg):
            if event == 'line':
                if frame.f_code.co_filename == SCRIPT:
                    self.point('cli')
                self.point('pkg')
            return local

        def glob(frame, event, arg):
            fn = frame.f_code.co_filename
            if fn == SCRIPT or (every and fn.startswith(lib.PKG)):
                return local
        sys.settrace(glob)

    def unwatch(self):
        sys.settrace(None)

    def run(self, code):
        """exit status, as the interpreter would give it"""
        s = self.step
        os.chdir(s['cwd'])
        sys.argv = [SCRIPT] + s['argv']
        sys.stdout = io.TextIOWrapper(io.BufferedWriter(io.FileIO(1, 'w', closefd=False)), 'utf-8', 'surrogateescape')
        sys.stderr = io.TextIOWrapper(io.BufferedWriter(io.FileIO(2, 'w', closefd=False)), 'utf-8', 'backslashreplace')
        mod = type(sys)('__main__')
        mod.__file__ = SCRIPT
        mod.__builtins__ = builtins
        sys.modules['__main__'] = mod
        os.environ['TMPDIR'] = os.path.join(self.root, 'tmp')
        os.environ['HOME'] = os.path.join(self.root, 'home')
        self.patch()
        sys.addaudithook(self.audit)
        rc = 0
        lim = s['write_fault'] and s['write_fault'][1] == 'limit' and s['write_fault'][0]
        if lim:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            self.quiet = True
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
            self.quiet = False
        try:
            try:
                self.watch()
                exec(code, mod.__dict__)
            finally:
                self.unwatch()
        except SystemExit as e:
            rc = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        except BaseException as e:
            rc = 130 if isinstance(e, KeyboardInterrupt) else 1
            self.log('error', type(e).__name__)
            try:
                sys.excepthook(type(e), e, e.__traceback__)
            except BaseException:
                pass
        try:
            import atexit
            atexit._run_exitfuncs()
        except BaseException:
            pass
        # objects still alive are finalised when the interpreter ends: files left open are flushed then
        mod.__dict__.clear()
        try:
            self.point('end')
        except KeyboardInterrupt:
            rc = 130
        out = sys.stdout
        if out is not None:
            try:
                out.flush()
            except (OSError, ValueError):
                rc = rc or 120
        self.log('end', rc & 255, {k: v for k, v in self.counts.items() if k in ('sys', 'cli')})
        return rc & 255


class Peer:
    """the other side of the pipes between two instances"""

    def __init__(self, mine, other):
        self.mine = mine            # fd read to go on
        self.other = other          # fd written to let the other go on

    def start(self):
        """let the other instance run until it pauses or ends"""
        os.write(self.other, b'g')
        os.read(self.mine, 1)

    def pause(self):
        os.write(self.other, b'p')
        os.read(self.mine, 1)


_code = []
_as_nobody = []
_reports = {}


def fail(e):
    raise e


def prepare():
    """imports what the tool imports, once per worker, before any run"""
    if _code:
        return
    def readable():
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
        for d, _, fs in os.walk(lib.PKG, onerror=fail):
            for f in fs:
                with REAL['open'](os.path.join(d, f), 'rb'):
                    pass
        return True
    try:
        _as_nobody.append(in_child(readable))
    except HarnessError:
        _as_nobody.append(False)        # still root then; the audit hook alone keeps writes inside the scratch directory
    sys.path.insert(0, lib.PKG)
    sys.dont_write_bytecode = True
    code = compile(REAL['open'](SCRIPT, encoding='utf-8').read(), SCRIPT, 'exec')
    out, argv = sys.stdout, sys.argv
    sys.stdout, sys.argv = io.StringIO(), [SCRIPT, '--command_invocation', 'true']
    try:
        exec(code, {'__name__': '__main__', '__file__': SCRIPT})
    except BaseException as e:
        raise Violation('the tool fails for a plain command: %r' % e)
    finally:
        sys.stdout, sys.argv = out, argv
    _code.append(code)


def report_of(line):
    """(exit status, what the tool prints when it need not save)"""
    if line not in _reports:
        if len(_reports) > 20000:
            _reports.clear()

        def alone():
            sys.argv = [SCRIPT, '--command_invocation=' + line]
            sys.stdout = io.StringIO()
            try:
                exec(_code[0], {'__name__': '__main__', '__file__': SCRIPT})
            except BaseException as e:
                return [1, type(e).__name__]
            return [0, sys.stdout.getvalue()]
        _reports[line] = in_child(alone)
    return _reports[line]


_checked = set()


def check_report(line, got):
    """the printed report states what the library answers"""
    if line in _checked:
        return
    _checked.add(line)

    def pieces():
        inv = lib.parse(line)
        res = [line, str(inv)]
        info = lib.get_input_output_info_from_cmd_invocation(inv)
        if info is not None and not info.has_other_outputs():
            res.append(str(info.apply_input_output_info_to_command_invocation(inv)))
        par = lib.get_parallelizability_info_from_cmd_invocation(inv)
        if par is not None:
            res.append(str(par))
        return res
    rc, out = got
    try:
        want = in_child(pieces)
    except HarnessError:
        if rc == 0:
            raise Violation('report: the library fails for %r and the tool reports %s' % (line, text(out)))
        return
    if rc:
        raise Violation('report: the tool fails for %r, the library does not' % line)
    for w in want:
        if w not in out:
            raise Violation('report: incomplete for %r: %s not in %s' % (line, text(w), text(out)))


class C09(Prop):
    pid = 'C09'
    quick_n = 12000
    thorough_n = 300000
    time_unit = 'traced lines and file accesses of the tool'
    interleaving_measure = 'distinct sequences of (state of the path, what others did at which step, faults, outcome)'
    rule = ('case = 1-3 runs of the tool (command, path, what exists there, who else creates it at which step, failing open, write or close, crash point, '
            'failing standard output); non-trivial = something happened during a run or the path existed')
    real = ['annotation_cli.py and everything it imports', 'CPython files, the kernel\'s file system in a scratch directory, RLIMIT_FSIZE, /dev/full']
    stubs = ['failing open, write and close calls', 'program start (argv, standard streams and exit status as the interpreter sets them)',
             'the other process (its file operations at the chosen step of the tool)']
    assumptions = ['durability under power loss is not simulated', 'the other process never renames over or deletes a file the tool has created']

    def gen(self, r):
        k = r.randrange(2)
        steps = []
        lines = draw_lines(r, k) + ['foo -x a b']

        def name(usual):
            if r.random() < .2:
                return r.choice(['', '', '', 'sub/', 'ABS/', './']) + ''.join(r.choice(ODD) for _ in range(r.choice([1, 2, 3, 4, 6])))
            return r.choice(usual)
        base = name(PATHS)
        for i in range(r.choice([1, 1, 1, 2, 2, 3])):
            line = r.choice(lines)
            if r.random() < .03:
                line += ' \udcff' if r.random() < .5 else ' ünïcode'
            path = base if r.random() < .75 else name(PATHS)
            race = r.random() < .5
            before = 'none' if race else r.choice(BEFORE)
            if race and r.random() < .8:
                path = name(['out', 'out.txt', 'a b', 'sub/out', 'ABS/out', './out', '-', 'deep/er/out', 'out ', ' out'])
            ev = []
            if race or r.random() < .4:
                ev.append({'at': self.place_of(r), 'do': r.choice(ACTS)})
            if r.random() < .18:
                ev.append({'at': self.place_of(r), 'do': r.choice(['crash', 'crash', 'interrupt'])})
            peer = None
            if any(e['do'] == 'peer' for e in ev):
                peer = {'line': r.choice(lines), 'pause': [r.choice(['sys', 'sys', 'write', 'cli']), r.choice([1, 1, 2, 3, 30, 40, 50])] if r.random() < .6 else None}
            steps.append({'line': line, 'path': path, 'joined': r.random() < .6 or path.startswith('-'), 'before': before, 'events': ev, 'peer': peer,
                          'cwd': r.choice(['.', '.', '.', '.', '.', 'sub', 'ro', 'deep/er', 'linkdir']),
                          'open_fault': [1, r.choice(OPEN_FAULTS)] if r.random() < .1 else None,
                          'write_fault': [r.choice([0, 1, 10, r.randrange(400), r.randrange(2000)]), r.choice(WRITE_FAULTS)] if r.random() < .3 else None,
                          'stdout': r.choice(['ok'] * 8 + ['full', 'closed pipe']), 'ascii': r.random() < .1})
        return {'pool': k, 'steps': steps}

    def place_of(self, r):
        w = r.choice(WHERE)
        return [w, {'sys': r.choice([1, 1, 1, 2, 2, 3, 4, 5]), 'cli': r.choice([1 + r.randrange(75), 35 + r.randrange(25)]),
                    'write': r.choice([1, 2, 100, 1 + r.randrange(900)]), 'pkg': 1 + r.randrange(2500), 'end': 1}[w]]

    def measure(self, case):
        return case['steps']

    def shrink(self, case):
        ss = case['steps']
        for i in range(len(ss)):
            if len(ss) > 1:
                yield dict(case, steps=ss[:i] + ss[i + 1:])
        for i, s in enumerate(ss):
            simple = {'open_fault': None, 'write_fault': None, 'stdout': 'ok', 'ascii': False, 'before': 'none', 'cwd': '.', 'path': 'out', 'line': 'foo', 'joined': True}
            for k, v in simple.items():
                if s[k] != v:
                    yield dict(case, steps=ss[:i] + [dict(s, **{k: v})] + ss[i + 1:])
            for j in range(len(s['events'])):
                yield dict(case, steps=ss[:i] + [dict(s, events=s['events'][:j] + s['events'][j + 1:])] + ss[i + 1:])
            if s['peer'] and s['peer']['pause']:
                yield dict(case, steps=ss[:i] + [dict(s, peer=dict(s['peer'], pause=None))] + ss[i + 1:])
            for j, e in enumerate(s['events']):
                if e['at'][1] > 1:
                    for n in (1, e['at'][1] // 2, e['at'][1] - 1):
                        yield dict(case, steps=ss[:i] + [dict(s, events=s['events'][:j] + [dict(e, at=[e['at'][0], n])] + s['events'][j + 1:])] + ss[i + 1:])
            if s['write_fault'] and s['write_fault'][0]:
                for n in (0, s['write_fault'][0] // 2):
                    yield dict(case, steps=ss[:i] + [dict(s, write_fault=[n, s['write_fault'][1]])] + ss[i + 1:])

    # ------------------------------------------------------------------
    def run(self, case, ch, stats):
        prepare()
        reports = {}
        for s in case['steps']:
            for l in [s['line']] + ([s['peer']['line']] if s['peer'] else []):
                reports[l] = report_of(l)
                check_report(l, reports[l])
        base = scratch('c09')
        root = base + '/s'
        try:
            os.mkdir(root)
            os.chown(root, NOBODY, NOBODY)
            os.chmod(base, 0o755)
            st = in_child(lambda: self.story(case, reports, root), stuck=15.0)
        except Stuck:
            raise Violation('no answer: the tool does not end: %s' % text(case['steps']))
        except TooLong:
            return 'undecided: too slow'
        except Died:
            return 'undecided: interpreter died'
        finally:
            shutil.rmtree(base, ignore_errors=True)
        v = st.pop('violation', None)
        for k, x in st.items():
            stats[k] = x
        if v:
            raise Violation(v)
        return 'ok' if stats.get('nontrivial') else 'nothing happened'

    def story(self, case, reports, root):
        if _as_nobody[0]:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
        os.umask(0o022)
        for n, v in (('victim', 'VICTIM'), ('cwd/file', 'old content\n'), ('cwd/sub/out2', 'other'), ('cwd/empty', ''), ('cwd/readonly', 'keep')):
            p = os.path.join(root, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as f:
                f.write(v)
        os.chmod(os.path.join(root, 'cwd/readonly'), 0o444)
        for d in ('tmp', 'home', 'abs', 'cwd/ro', 'cwd/deep/er'):
            os.makedirs(os.path.join(root, d))
        c = os.path.join(root, 'cwd')
        os.symlink('../victim', c + '/link')
        os.symlink('nothing', c + '/dangling')
        os.symlink('sub', c + '/linkdir')
        os.mkfifo(c + '/fifo')
        os.chmod(c + '/ro', 0o555)
        st = {'sim_time': 0, 'runs as nobody' if _as_nobody[0] else 'runs as root': 1}
        hist = []
        try:
            for i, s in enumerate(case['steps']):
                self.step(dict(s), reports, root, st, hist, i)
        except Violation as e:
            st['violation'] = str(e)
        st['hash'] = repr(hist)
        return st

    def launch(self, root, spec, fds, start):
        """the tool in a process of its own: (pid, stdout fd, log fd)"""
        ro, wo = os.pipe()
        rl, wl = os.pipe()
        for fd in (wo, wl):
            try:
                fcntl.fcntl(fd, 1031, 1 << 20)      # F_SETPIPE_SZ
            except OSError:
                pass
        pid = os.fork()
        if pid == 0:
            try:
                bounded()
                os.close(ro)
                os.close(rl)
                if spec['stdout'] == 'full':
                    n = os.open('/dev/full', os.O_WRONLY)
                    os.dup2(n, 1)
                elif spec['stdout'] == 'closed pipe':
                    a, b = os.pipe()
                    os.close(a)
                    os.dup2(b, 1)
                    os.close(b)
                else:
                    os.dup2(wo, 1)
                os.close(wo)
                mine, other, unused = fds
                for fd in unused:
                    os.close(fd)
                if start:
                    if os.read(mine, 1) != b'g':
                        os._exit(78)
                t = Tool(root, spec, wl, Peer(mine, other))
                if start:
                    t.log('started')
                rc = t.run(_code[0])
                os._exit(rc)
            except BaseException as e:
                try:
                    import traceback
                    os.write(wl, json.dumps(['harness', traceback.format_exc()]).encode() + b'\n')
                finally:
                    os._exit(79)
        os.close(wo)
        os.close(wl)
        return pid, ro, rl

    def spec(self, s, line, root, reports):
        path = s['path'].replace('ABS', os.path.join(root, 'abs'))
        cwd = os.path.join(root, 'cwd', s['cwd'])
        argv = ['--save_to=' + path] if s['joined'] else ['--save_to', path]
        argv = ['--command_invocation=' + line] + argv if len(line) % 2 else argv + ['--command_invocation=' + line]
        target = os.path.join(cwd, path)
        return dict(s, argv=argv, cwd=cwd, target=target, report=reports[line][1])

    def step(self, s, reports, root, st, hist, i):
        spec = self.spec(s, s['line'], root, reports)
        target = spec['target']
        self.place(s['before'], target, root, spec)
        before = snapshot(root)
        existed = os.path.lexists(target)
        procs = []
        try:
            if s['peer']:
                ra, wb = os.pipe()      # A waits, B lets it go on
                rb, wa = os.pipe()
                ev = [{'at': s['peer']['pause'], 'do': 'pause'}] if s['peer']['pause'] else []
                bs = dict(self.spec(s, s['peer']['line'], root, reports), events=ev, open_fault=None, write_fault=None, stdout='ok')
                procs.append([s['peer']['line'], bs, self.launch(root, bs, (rb, wb, (ra, wa)), True)])
                procs.insert(0, [s['line'], spec, self.launch(root, spec, (ra, wa, (rb, wb)), False)])
                os.close(ra)
                os.close(wb)
                os.close(rb)
            else:
                ra, wa = os.pipe()
                procs.append([s['line'], spec, self.launch(root, spec, (ra, wa, ()), False)])
                os.close(ra)
            outs = []
            for j, (line, sp, (pid, ro, rl)) in enumerate(procs):
                _, status = os.waitpid(pid, 0)
                if j == 0:
                    os.close(wa)        # lets the other one go on, or tells it that it is not wanted
                outs.append([os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status), drain(ro), drain(rl)])
        finally:
            pass
        after = snapshot(root)
        tree = dict(before)
        what = []
        ran = []
        for (line, sp, _), (rc, out, log) in zip(procs, outs):
            events = [json.loads(x) for x in log.decode().splitlines()]
            for e in events:
                if e[0] == 'harness':
                    raise HarnessError(e[1])
                if e[0] == 'escape':
                    raise Violation('writes elsewhere: %s (%s)' % (e[1:], self.told(s, what)))
                if e[0] == 'adversary':
                    what.append('another process: %s' % e[1])
                    if len(e) > 3 and e[3]:
                        tree[e[2]] = e[3]
                    count(st, 'other process: ' + e[1])
                elif e[0] == 'fault':
                    what.append(e[1])
                    count(st, 'fault: ' + e[1])
                elif e[0] == 'crash':
                    what.append('crash')
                    count(st, 'fault: crash')
                elif e[0] == 'paused':
                    what.append('two instances interleaved')
                    count(st, 'other process: paused in between')
                elif e[0] == 'end':
                    st['sim_time'] += sum(e[2].values())
            if sp['stdout'] != 'ok':
                count(st, 'standard output: ' + sp['stdout'])
            if rc != 78:
                ran.append((line, sp, rc, out.decode('utf-8', 'surrogateescape'), events))
        lim = s['write_fault'] and s['write_fault'][1] == 'limit' and any(e[0] == 'error' for e in ran[0][4])
        if lim:
            what.append('file size limit')
            count(st, 'fault: file size limit')
        told = self.told(s, what)
        # nothing that others have made changes
        for p, v in tree.items():
            if after.get(p) != v:
                if os.path.isdir(os.path.join(root, p)) and after.get(p, [0, 0])[:2] == v[:2]:
                    continue
                raise Violation('damaged file: %s was %s and is %s (%s)' % (p, shown(v), shown(after.get(p)), told))
        new = sorted(p for p in after if p not in tree and not p.startswith('tmp/'))
        where = os.path.relpath(os.path.join(os.path.realpath(os.path.dirname(target)), os.path.basename(target)), root)
        calm = len(ran) == 1 and not what
        for line, sp, rc, out, events in ran:
            died = any(e[0] in ('crash', 'fault') and (e[0] == 'crash' or e[1] == 'interrupt') for e in events)
            crashed = any(e[0] == 'crash' for e in events)
            want_rc, report = reports[line]
            if rc < 0:
                raise Violation('killed by signal %d (%s)' % (-rc, told))
            if want_rc:
                if rc == 0:
                    raise Violation('success reported without a report: %r (%s)' % (line, told))
                if new and len(ran) == 1:
                    raise Violation('file without a report: %s (%s)' % (new, told))
                continue
            if crashed:
                continue
            printed = report.rstrip('\n') in out
            content = after.get(where, [None])[-1] if after.get(where, [''])[0].startswith('0o10') else None
            saved = where in new and isinstance(content, str) and content.rstrip('\n') == report.rstrip('\n')
            if rc == 0 and not (printed or saved):
                raise Violation('lost report: exit status 0, neither printed nor saved: %r, path holds %s, printed %s (%s)' %
                                (line, text(content), text(out), told))
            # a tool that writes elsewhere first may have failed there
            failed = rc != 0 and (lim or any(e[0] == 'fault' and (e[1].startswith('write ') or e[1] in WRITE_FAULTS) for e in events))
            if existed and not died and not failed and sp['stdout'] == 'ok' and not (rc == 0 and printed) and os.path.basename(target) not in ('', '.', '..') and not sp['open_fault']:
                raise Violation('not printed: the path existed, exit status %s, printed %s (%s)' % (rc, text(out), told))
            if calm and not existed and sp['stdout'] == 'ok' and not s['ascii'] and encodable(report) and self.possible(target) and not s['write_fault'] and not (rc == 0 and saved):
                raise Violation('not saved: exit status %s, path holds %s (%s)' % (rc, text(content), told))
        extra = [p for p in new if p != where and not (where + '/').startswith(p + '/')]
        if extra and not any(e[0] in ('crash', 'fault') for x in ran for e in x[4]):
            raise Violation('other files created: %s (%s)' % (extra, told))
        hist.append([s['before'], s['path'], existed, what, [x[2] for x in ran]])
        if what or existed:
            st['nontrivial'] = True

    def possible(self, target):
        d = os.path.dirname(target)
        return os.path.isdir(d) and os.access(d, os.W_OK) and len(os.path.basename(target)) < 256

    def told(self, s, what):
        return 'path %r, at first %s%s%s%s' % (s['path'], s['before'], ', events %s' % s['events'] if s['events'] else '',
                                            ', peer %s' % s['peer'] if s['peer'] else '', ', happened: %s' % what if what else '')

    def place(self, kind, target, root, spec):
        if kind == 'none' or os.path.lexists(target):
            return
        try:
            if kind == 'link':
                os.symlink(os.path.join(root, 'victim'), target)
            elif kind == 'dangling':
                os.symlink(os.path.join(root, 'nowhere'), target)
            elif kind == 'loop':
                os.symlink(os.path.basename(target), target)
            elif kind == 'dir':
                os.mkdir(target)
            elif kind == 'fifo':
                os.mkfifo(target)
            elif kind == 'hardlink':
                os.link(os.path.join(root, 'victim'), target)
            else:
                with open(target, 'x') as f:
                    f.write({'empty': '', 'report': ''}.get(kind, 'content of an old file'))
                if kind == 'report':
                    with open(target, 'w', errors='surrogateescape') as f:
                        f.write(spec['report'][:-3])
                if kind == 'readonly':
                    os.chmod(target, 0o444)
        except OSError:
            pass


def shown(v):
    return 'nothing' if v is None else text([v[0]] + [x for x in v[1:] if isinstance(x, str)])


def encodable(s):
    try:
        s.encode('utf-8')
        return True
    except UnicodeError:
        return False


def count(st, k):
    st[k] = st.get(k, 0) + 1


def drain(fd):
    res = b''
    while True:
        d = os.read(fd, 1 << 16)
        if not d:
            os.close(fd)
            return res
        res += d
