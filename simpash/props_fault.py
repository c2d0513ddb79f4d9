"""C08: read failures while loading command data never yield a wrong annotation."""
import builtins
import errno
import io
import json
import os
import sys

import _io

from . import lib, threads
from .base import Prop
from .lib import Violation
from .props_iso import Iso, acceptable, draw_lines, draw_question, draw_steps, first_difference, questions

AT_OPEN = ['EIO', 'EACCES', 'EMFILE', 'ENFILE', 'ENOMEM', 'EINTR', 'EPERM', 'ETIMEDOUT', 'ESTALE', 'EAGAIN', 'ELOOP', 'MemoryError', 'PermissionError',
           'BlockingIOError', 'OSError']
AT_READ = ['EIO at byte', 'ESTALE at byte', 'EINTR at byte', 'MemoryError at byte', 'end of file at byte', 'short reads']
KINDS = AT_OPEN + AT_READ


def failure(kind, path):
    kind = kind.replace(' at byte', '')
    if kind == 'MemoryError':
        return MemoryError()
    if kind == 'OSError':
        return OSError('input/output')      # no errno
    n = {'PermissionError': errno.EACCES, 'BlockingIOError': errno.EAGAIN}.get(kind) or getattr(errno, kind)
    return OSError(n, os.strerror(n), str(path))


class FaultyRaw(io.RawIOBase):
    """reads a file in short pieces, until something happens at byte `at`"""

    def __init__(self, data, disk, kind, at, path):
        self.data = data
        self.pos = 0
        self.disk = disk
        self.kind = kind
        self.at = at
        self.name = path
        self.mode = 'rb'

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self.pos = off + (0, self.pos, len(self.data))[whence]
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, b):
        n = min(len(b), 1 + self.disk.ch.choose(64), len(self.data) - self.pos)
        if self.kind == 'short reads':
            self.disk.fire(self.kind, self.name)
        elif self.at is not None and self.pos + n >= self.at:
            n = max(0, self.at - self.pos)
            if n == 0:
                self.disk.fire(self.kind, self.name)
                if self.kind == 'end of file at byte':
                    return 0
                if self.kind.startswith('EINTR'):
                    self.at = None      # the next attempt goes on
                raise failure(self.kind, self.name)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class Disk:
    """the seam: every way Python code opens, reads or looks for a file; only files of the library are affected"""

    def __init__(self, ch, root):
        self.ch = ch
        self.root = os.path.realpath(root) + os.sep
        self.armed = None
        self.count = 0
        self.fired = []
        self.fds = {}

    def arm(self, first, kind, lasting):
        self.armed = (first, kind, lasting)
        self.count = 0
        self.total = 0
        self.fired = []

    def disarm(self):
        self.armed = None

    def fire(self, kind, path):
        self.total += 1
        if self.total > 20000:
            raise threads.Deadlock('tries for ever while its data cannot be read')
        if len(self.fired) < 50:
            self.fired.append('%s %s' % (kind, os.path.basename(str(path))))

    def verdict(self, path, reads):
        """kind of failure of this access, or None"""
        if self.armed is None:
            return None
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return None
        if isinstance(p, bytes) or not (p + os.sep).startswith(self.root):
            return None
        first, kind, lasting = self.armed
        if kind in AT_READ and not reads:
            return None
        if kind == 'end of file at byte' and p.endswith(('.py', '.pyc')):
            return None     # an import that is cut short is CPython's affair: it keeps what it got
        self.count += 1
        if self.count == first or (lasting and self.count > first):
            return kind
        return None

    def faulty(self, path, kind):
        with self.real['open'](path, 'rb') as f:
            data = f.read()
        at = 0 if kind == 'short reads' else [0, 1, len(data) - 1, len(data) // 2, self.ch.choose(len(data) + 1)][self.ch.choose(5)]
        return FaultyRaw(data, self, kind, at, path)

    def __enter__(self):
        d = self
        self.real = {'open': builtins.open, 'open_code': _io.open_code, 'os.open': os.open, 'os.read': os.read, 'os.close': os.close, 'FileIO': _io.FileIO}

        def fopen(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            k = None if isinstance(file, int) or set('wax+') & set(mode) else d.verdict(file, True)
            if k is None:
                return d.real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
            if k in AT_OPEN:
                d.fire(k, file)
                raise failure(k, file)
            raw = d.faulty(file, k)
            if 'b' in mode:
                return raw if buffering == 0 else io.BufferedReader(raw)
            return io.TextIOWrapper(io.BufferedReader(raw), encoding, errors, newline)

        def open_code(path):
            k = d.verdict(path, True)
            if k is None:
                return d.real['open_code'](path)
            if k in AT_OPEN:
                d.fire(k, path)
                raise failure(k, path)
            return io.BufferedReader(d.faulty(path, k))

        def os_open(path, flags, mode=0o777, *, dir_fd=None):
            k = None if isinstance(path, int) else d.verdict(path, True)
            if k in AT_OPEN:
                d.fire(k, path)
                raise failure(k, path)
            fd = d.real['os.open'](path, flags, mode, dir_fd=dir_fd)
            d.fds.pop(fd, None)
            if k is not None:
                d.fds[fd] = d.faulty(path, k)
            return fd

        def os_close(fd):
            d.fds.pop(fd, None)
            return d.real['os.close'](fd)

        def os_read(fd, n):
            raw = d.fds.get(fd)
            if raw is None:
                return d.real['os.read'](fd, n)
            b = bytearray(n)
            return bytes(b[:raw.readinto(b)])

        def looking(real):
            def f(path, *a, **k):
                v = None if isinstance(path, int) else d.verdict(path, False)
                if v is not None:
                    d.fire(v, path)
                    raise failure(v, path)
                return real(path, *a, **k)
            return f
        self.patches = [(builtins, 'open', fopen), (io, 'open', fopen), (_io, 'open', fopen), (_io, 'open_code', open_code), (io, 'open_code', open_code),
                        (os, 'open', os_open), (os, 'read', os_read), (os, 'close', os_close)]
        for n in ('stat', 'lstat', 'scandir', 'listdir'):
            self.patches.append((os, n, looking(getattr(os, n))))
        acc = os.access

        def access(path, mode, **k):
            v = d.verdict(path, False)
            if v is not None:
                d.fire(v, path)
                return False
            return acc(path, mode, **k)
        self.patches.append((os, 'access', access))
        self.old = [(m, n, getattr(m, n)) for m, n, _ in self.patches]
        for m, n, f in self.patches:
            setattr(m, n, f)
        return self

    def __exit__(self, *a):
        for m, n, f in self.old:
            setattr(m, n, f)


class C08(Iso):
    pid = 'C08'
    quick_n = 25000
    thorough_n = 900000
    time_unit = 'accesses to the library\'s files'
    rule = ('case = history of questions, each with or without a failing access to the library\'s files (which access, which failure, at which byte, lasting '
            'or not), then the same questions without faults; non-trivial = a fault took place')
    interleaving_measure = 'distinct (question, failure, file) sequences'
    stubs = ['the file layer: open, io.open, open_code, os.open, os.read, os.stat, os.access, directory listing']
    assumptions = Iso.assumptions[:2] + ['ENOENT is not injected: it means that a command has no data']

    def gen(self, r):
        k = r.randrange(2)
        lines = draw_lines(r, k)
        hits = []
        for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
            faulty = r.random() < .75 or not hits
            hits.append({'q': draw_question(r, lines), 'shared': r.random() < .4, 'fault': [1 + r.choice([0, 0, 0, 1, 1, 2, 3, 4]),
                                                                                          r.randrange(len(KINDS)), r.random() < .4] if faulty else None})
        return {'pool': k, 'lines': lines, 'share': [l for l in lines if r.random() < .3],
                'warm': draw_steps(r, lines, r.choice([0, 0, 1, 2]), use=.1), 'hits': hits, 'after': draw_steps(r, lines, r.choice([0, 1]), use=.1)}

    def measure(self, case):
        return [case['share'], case['warm'], case['hits']]

    def shrink(self, case):
        for k in ('hits', 'warm', 'after', 'share'):
            for i in range(len(case[k])):
                if k != 'hits' or len(case[k]) > 1:
                    yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})
        for i, h in enumerate(case['hits']):
            if h['fault']:
                first, kind, lasting = h['fault']
                for f in (None, [1, kind, lasting], [first, kind, False], [first, 0, lasting]):
                    if f != h['fault']:
                        yield dict(case, hits=case['hits'][:i] + [dict(h, fault=f)] + case['hits'][i + 1:])

    def run(self, case, ch, stats):
        qs = []
        for q in [h['q'] for h in case['hits']] + questions(case['warm']) + questions(case['after']):
            if q not in qs:
                qs.append(q)
        refs = {json.dumps(q): self.ref(q) for q in qs}

        def body(st):
            with threads.single(), Disk(ch, lib.PKG) as disk:
                try:
                    return self.story(case, refs, ch, st, disk)
                except threads.Deadlock as e:
                    raise Violation('no answer: %s: %s' % (e, case['hits']))
        return self.within(case, ch, stats, body)

    def story(self, case, refs, ch, st, disk):
        from .ask import Ask
        a = Ask()
        log = []
        st['sim_time'] = 0

        def context():
            return ' (faults: %s)' % log if log else ''

        def right(q, shared, who):
            got = json.loads(json.dumps(a.answer(q, shared)))
            want = refs[json.dumps(q)]
            if got != want:
                raise Violation('answer differs: question %s %s%s: %s%s' % (q, who, context(), first_difference(got, want), a.trace if got[0] == 'raised' else ''))

        def steps(ss, who):
            for s in ss:
                if s[0] == 'use':
                    a.use(s[1], s[2])
                else:
                    right(s[1], s[2], who)

        def unchanged(who):
            c = a.changed()
            if c:
                raise Violation('object changed: %s %s%s at %s' % (c[0], who, context(), first_difference(c[2], c[1])))
        steps(case['warm'], 'before any fault')
        for l in case['share']:
            a.share(l)
        for h in case['hits']:
            if h['fault'] is None:
                right(h['q'], h['shared'], 'between faults')
                continue
            first, kind, lasting = h['fault']
            disk.arm(first, KINDS[kind], lasting)
            try:
                got = json.loads(json.dumps(a.answer(h['q'], h['shared'])))
            finally:
                disk.disarm()
            st['sim_time'] += disk.count
            want = refs[json.dumps(h['q'])]
            if disk.fired:
                log.append('%s: %s' % (h['q'], ', '.join(disk.fired[:3])))
                st['fault: ' + KINDS[kind]] = st.get('fault: ' + KINDS[kind], 0) + 1
                st['accesses_failed'] = st.get('accesses_failed', 0) + len(disk.fired)
                if not acceptable(got, want):
                    raise Violation('wrong annotation: question %s%s: %s' % (h['q'], context(), first_difference(got, want)))
                what = 'failed' if got[0] == 'raised' else 'right answer' if got == want else 'no information'
                st['under fault: ' + what] = st.get('under fault: ' + what, 0) + 1
            elif got != want:
                raise Violation('answer differs: question %s%s: %s' % (h['q'], context(), first_difference(got, want)))
            unchanged('under a fault')
            if ch.choose(2):
                right(h['q'], h['shared'], 'when the fault had cleared')
        for q in refs:
            right(json.loads(q), False, 'when the faults had cleared')
        steps(case['after'], 'afterwards')
        unchanged('in the end')
        st['hash'] = repr(log)
        st['nontrivial'] = bool(log)
        return 'ok' if log else 'no fault took place'
