"""Deterministic kernel: processes are generators that yield system calls; the kernel owns files,
pipes, the clock, the scheduler and every fault. One Chooser decides everything."""
import random
import errno as E

READ_DEFAULT = 65536


class Chooser:
    """All nondeterminism of a run. Either seeded (records) or replaying a recorded list (missing -> 0)."""

    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.log = []
        self.pos = 0

    def choose(self, n, p0=None):
        """0 <= result < n; with probability p0 the default 0."""
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] % n if self.pos < len(self.replay) else 0
            self.pos += 1
        else:
            r = self.rng
            if p0 is not None and r.random() < p0:
                v = 0
            else:
                v = int(r.random() * n)
        self.log.append(v)
        return v


class SimError(Exception):
    def __init__(self, errno, path=None):
        self.errno = errno
        self.path = path
        super().__init__(E.errorcode.get(errno, errno), path)


class Killed(Exception):
    pass


class HarnessError(Exception):
    pass


class Node:
    __slots__ = ('kind', 'data', 'mode', 'target', 'readers', 'writers', 'cap', 'rtotal', 'everw', 'everr', 'buf', 'wtotal', 'wbytes')

    def __init__(self, kind, data=b'', mode=0o644, target=None, cap=64):
        self.kind = kind  # file, dir, fifo, link
        self.data = bytearray(data)
        self.mode = mode
        self.target = target
        if kind == 'fifo':
            self.readers = 0
            self.writers = 0
            self.everw = 0
            self.everr = 0
            self.cap = cap
            self.rtotal = 0
            self.wtotal = 0


class Handle:
    __slots__ = ('node', 'path', 'pos', 'r', 'w', 'append', 'refs')

    def __init__(self, node, path, r, w, append=False):
        self.node = node
        self.path = path
        self.pos = 0
        self.r = r
        self.w = w
        self.append = append
        self.refs = 1


class Proc:
    def __init__(self, pid, name, kernel):
        self.pid = pid
        self.name = name
        self.k = kernel
        self.gen = None
        self.pending = None     # the system call to execute next
        self.fds = {}
        self.cwd = ''
        self.state = 'ready'    # ready, done, dead
        self.status = None
        self.stall_until = 0
        self.nsys = 0
        self.accesses = []      # (path, 'r'/'w'/'create'/'unlink'/...)
        self.kill_at = None
        self.stderr = bytearray()
        self.early = False      # legitimately stopped before the end of its input
        self.outs = []          # buffered outputs
        self.usage = False      # rejected its command line
        self.used_stdin = False
        self.bufsize = kernel.bufsize
        self.meta = None
        self.env = {}
        self.last = None
        self.opening = None     # (pipe, is reader) while blocked in open
        self.opened = []        # every (path, mode) opened, pipes and redirections included


class Kernel:
    def __init__(self, chooser, mode='random', stall_p=0.0, short_p=0.0, bufsize=4096, pipecap=64, max_steps=60000):
        self.ch = chooser
        self.mode = mode
        self.stall_p = stall_p
        self.short_p = short_p
        self.bufsize = bufsize
        self.pipecap = pipecap
        self.max_steps = max_steps
        self.nodes = {'/': Node('dir')}
        self.procs = []
        self.live = []
        self.clock = 0
        self.steps = 0
        self.faults = {}        # path -> ('open', errno) | ('read', errno, after_bytes)
        self.fault_hits = {}
        self.stats = {'stall': 0, 'short_read': 0, 'short_write': 0, 'kill': 0, 'epipe': 0, 'clock_jump': 0}
        self.on_exit = []
        self.trace_hash = 0
        self.cur = None
        self.prio = {}
        self.log = None
        self.switches = 0
        self.on_step = None
        self.blocked_hist = 0

    # ---- files -------------------------------------------------------------------------------
    @staticmethod
    def norm(path, cwd='/'):
        if not path.startswith('/'):
            path = cwd.rstrip('/') + '/' + path
        out = []
        for c in path.split('/'):
            if c == '' or c == '.':
                continue
            if c == '..':
                if out:
                    out.pop()
            else:
                out.append(c)
        return '/' + '/'.join(out)

    def lookup(self, path, follow=True, depth=0):
        path = self.norm(path)
        n = self.nodes.get(path)
        if n is not None and n.kind == 'link' and follow:
            if depth > 8:
                raise SimError(E.ELOOP, path)
            base = path.rsplit('/', 1)[0] or '/'
            return self.lookup(self.norm(n.target, base), True, depth + 1)
        return path, n

    def parent_is_dir(self, path):
        par = path.rsplit('/', 1)[0] or '/'
        p, n = self.lookup(par)
        return n is not None and n.kind == 'dir'

    def put(self, path, data, mode=0o644):
        path = self.norm(path)
        comps = path.split('/')[1:-1]
        cur = ''
        for c in comps:
            cur += '/' + c
            if cur not in self.nodes:
                self.nodes[cur] = Node('dir')
        self.nodes[path] = Node('file', data, mode)

    def mkfifo(self, path, cap=None):
        path = self.norm(path)
        comps = path.split('/')[1:-1]
        cur = ''
        for c in comps:
            cur += '/' + c
            if cur not in self.nodes:
                self.nodes[cur] = Node('dir')
        self.nodes[path] = Node('fifo', cap=cap or self.pipecap)

    def content(self, path):
        p, n = self.lookup(path)
        return None if n is None else bytes(n.data)

    def snapshot(self):
        return {p: (n.kind, bytes(n.data) if n.kind == 'file' else n.target, n.mode) for p, n in self.nodes.items()}

    # ---- processes ---------------------------------------------------------------------------
    def spawn(self, name, genfunc, stdin=None, stdout=None, kill_at=None):
        """stdin/stdout: path, or None (/dev/null resp. a private capture file)"""
        p = Proc(len(self.procs), name, self)
        self.procs.append(p)
        p.kill_at = kill_at
        p.out_node = None
        redirs = []
        if stdin is None:
            p.fds[0] = Handle(Node('file'), None, True, False)
        else:
            redirs.append((0, stdin, 'r'))
        if stdout is None:
            p.out_node = Node('file')
            p.fds[1] = Handle(p.out_node, None, False, True)
        else:
            redirs.append((1, stdout[0], stdout[1]) if isinstance(stdout, tuple) else (1, stdout, 'w'))

        def main():
            for fd, path, mode in redirs:
                try:
                    h = yield ('open', path, mode, True)
                except SimError:
                    return 1
                p.fds[fd] = p.fds.pop(h)
            st = yield from genfunc(p)
            return st
        p.gen = main()
        self.live.append(p)
        self._advance(p, None, None)
        return p

    def _advance(self, p, value, exc):
        try:
            if exc is not None:
                p.pending = p.gen.throw(exc)
            else:
                p.pending = p.gen.send(value)
        except StopIteration as s:
            self._exit(p, s.value or 0)
        except Killed:
            self._exit(p, 'killed')

    def _exit(self, p, status):
        p.status = status
        p.state = 'done'
        p.gen.close()
        if p.opening is not None:       # died while blocked in the open of a pipe
            n, isread = p.opening
            if isread:
                n.readers -= 1
            else:
                n.writers -= 1
            p.opening = None
        for fd in list(p.fds):
            self._close(p, fd)
        self.live.remove(p)
        for f in self.on_exit:
            f(p)

    def kill(self, p, why='sig'):
        self.stats['kill'] += 1
        p.pending = None
        p.gen.close()
        self._exit(p, why)

    def _close(self, p, fd):
        h = p.fds.pop(fd)
        h.refs -= 1
        if h.refs:
            return
        n = h.node
        if n.kind == 'fifo':
            if h.r:
                n.readers -= 1
            if h.w:
                n.writers -= 1

    # can the pending call make progress?
    def _ready(self, p):
        op = p.pending
        k = op[0]
        if k == 'read':
            h = p.fds.get(op[1])
            if h is None:
                return True
            n = h.node
            return n.kind != 'fifo' or len(n.data) > 0 or n.writers == 0
        if k == 'write':
            h = p.fds.get(op[1])
            if h is None:
                return True
            n = h.node
            return n.kind != 'fifo' or n.readers == 0 or len(n.data) < n.cap
        if k == 'open':
            path, n = self.lookup(self.norm(op[1], '/' + p.cwd))
            if n is not None and n.kind == 'fifo':
                # opening end becomes visible to the peer immediately
                if p.last != ('opening', path):
                    return True
                if 'r' in op[2]:
                    return n.everw > p.meta_open
                return n.everr > p.meta_open
            return True
        if k == 'wait':
            return op[1]()
        return True

    def run(self):
        ch = self.ch
        live = self.live
        while live:
            self.steps += 1
            if self.steps > self.max_steps:
                return 'steps'
            now = self.clock
            ready = [p for p in live if p.stall_until <= now and self._ready(p)]
            if not ready:
                stalled = [p.stall_until for p in live if p.stall_until > now and self._ready(p)]
                if not stalled:
                    return 'deadlock'
                self.clock = min(stalled)
                self.stats['clock_jump'] += 1
                continue
            p = self._pick(ready)
            if p is not self.cur:
                self.switches += 1
                self.trace_hash = (self.trace_hash * 1000003 ^ (p.pid + 1) * 7919 ^ self.steps) & 0xffffffffffffffff
                self.cur = p
            self.clock += 1
            if self.stall_p and ch.choose(2, 1 - self.stall_p):
                p.stall_until = self.clock + 1 + ch.choose(50)
                self.stats['stall'] += 1
            self._exec(p)
            if self.on_step is not None:
                self.on_step(self)
        return 'ok'

    def _pick(self, ready):
        n = len(ready)
        if n == 1:
            return ready[0]
        m = self.mode
        if m == 'random':
            return ready[self.ch.choose(n)]
        if m == 'sticky':
            # keep running the same process, rarely switch
            if self.cur in ready and self.ch.choose(2, 0.9) == 0:
                return self.cur
            return ready[self.ch.choose(n)]
        if m == 'pct':
            # random priorities with occasional changes
            for p in ready:
                if p.pid not in self.prio:
                    self.prio[p.pid] = self.ch.choose(1000)
            best = max(ready, key=lambda q: (self.prio[q.pid], -q.pid))
            if self.ch.choose(2, 0.97):
                self.prio[best.pid] = -self.steps
            return best
        if m == 'last':
            return ready[-1 - self.ch.choose(n, 0.9)]
        if m == 'rr':
            for p in ready:
                if self.cur is None or p.pid > self.cur.pid:
                    return p
            return ready[0]
        return ready[self.ch.choose(n, 0.8)]    # 'first'

    def _exec(self, p):
        op = p.pending
        p.nsys += 1
        if p.kill_at is not None and p.nsys >= p.kill_at:
            self.kill(p, 'killed')
            return
        try:
            res = getattr(self, 'sys_' + op[0])(p, *op[1:])
        except SimError as e:
            self._advance(p, None, e)
            return
        except Killed:
            self.kill(p, 'sigpipe')
            return
        if res is AGAIN:
            return
        self._advance(p, res, None)

    # ---- system calls ------------------------------------------------------------------------
    def _hit(self, what):
        self.fault_hits[what] = self.fault_hits.get(what, 0) + 1

    def sys_open(self, p, path0, mode, quiet=False):
        path = self.norm(path0, '/' + p.cwd)
        rpath, n = self.lookup(path)
        if n is not None and n.kind == 'fifo':
            if p.last != ('opening', rpath):
                p.last = ('opening', rpath)
                p.opening = (n, 'r' in mode)
                if 'r' in mode:
                    p.meta_open = n.everw - n.writers
                    n.everr += 1
                    n.readers += 1
                else:
                    p.meta_open = n.everr - n.readers
                    n.everw += 1
                    n.writers += 1
                return AGAIN
            p.last = None
            p.opening = None
            h = Handle(n, rpath, 'r' in mode, 'r' not in mode)
        else:
            if not quiet:
                if 'r' in mode:
                    p.accesses.append((rpath, 'r'))
                if mode != 'r':
                    p.accesses.append((rpath, 'w'))
            f = self.faults.get(rpath)
            if f is not None and f[0] == 'open':
                self._hit('open:' + E.errorcode[f[1]])
                raise SimError(f[1], path0)
            if n is None:
                if mode == 'r':
                    raise SimError(E.ENOENT, path0)
                if not self.parent_is_dir(rpath):
                    raise SimError(E.ENOENT, path0)
                n = self.nodes[rpath] = Node('file')
            if n.kind == 'dir':
                raise SimError(E.EISDIR, path0)
            if mode == 'r' and not n.mode & 0o400 or mode != 'r' and not n.mode & 0o200:
                raise SimError(E.EACCES, path0)
            if mode == 'w':
                del n.data[:]
            h = Handle(n, rpath, 'r' in mode, mode != 'r', mode == 'a')
        p.opened.append((rpath, mode))
        fd = 3
        while fd in p.fds:
            fd += 1
        p.fds[fd] = h
        return fd

    def sys_read(self, p, fd, size=READ_DEFAULT):
        h = p.fds.get(fd)
        if h is None or not h.r:
            raise SimError(E.EBADF)
        n = h.node
        if fd == 0:
            p.used_stdin = True
        if h.path is not None:
            f = self.faults.get(h.path)
            if f is not None and f[0] == 'read' and h.pos >= f[2]:
                self._hit('read:' + E.errorcode[f[1]])
                raise SimError(f[1], h.path)
        if n.kind == 'fifo':
            avail = len(n.data)
            if avail == 0:
                if n.writers == 0:
                    return b''
                return AGAIN
            m = min(size, avail)
            if m > 1 and self.short_p and self.ch.choose(2, 1 - self.short_p):
                m = 1 + self.ch.choose(m)
                self.stats['short_read'] += 1
            b = bytes(n.data[:m])
            del n.data[:m]
            n.rtotal += m
            return b
        m = min(size, len(n.data) - h.pos)
        if m <= 0:
            return b''
        if m > 1 and self.short_p and self.ch.choose(2, 1 - self.short_p):
            m = 1 + self.ch.choose(m)
            self.stats['short_read'] += 1
        b = bytes(n.data[h.pos:h.pos + m])
        h.pos += m
        return b

    def sys_write(self, p, fd, data):
        h = p.fds.get(fd)
        if h is None or not h.w:
            raise SimError(E.EBADF)
        n = h.node
        m = len(data)
        if n.kind == 'fifo':
            if n.readers == 0:
                self.stats['epipe'] += 1
                if p.meta == 'ignore-epipe':
                    raise SimError(E.EPIPE)
                raise Killed()
            m = min(m, n.cap - len(n.data))
            if m <= 0:
                return AGAIN
        if m > 1 and self.short_p and self.ch.choose(2, 1 - self.short_p):
            m = 1 + self.ch.choose(m)
            self.stats['short_write'] += 1
        if n.kind == 'fifo':
            n.data += data[:m]
            n.wtotal += m
        else:
            if h.append:
                h.pos = len(n.data)
            if h.pos > len(n.data):
                n.data += b'\0' * (h.pos - len(n.data))
            n.data[h.pos:h.pos + m] = data[:m]
            h.pos += m
        return m

    def sys_close(self, p, fd):
        if fd in p.fds:
            self._close(p, fd)

    def sys_stat(self, p, path0):
        path = self.norm(path0, '/' + p.cwd)
        rpath, n = self.lookup(path)
        if n is None:
            raise SimError(E.ENOENT, path0)
        return n.kind, len(n.data)

    def sys_lstat(self, p, path0):
        n = self.nodes.get(self.norm(path0, '/' + p.cwd))
        if n is None:
            raise SimError(E.ENOENT, path0)
        return n.kind, len(n.data)

    def sys_unlink(self, p, path0):
        path = self.norm(path0, '/' + p.cwd)
        n = self.nodes.get(path)
        if n is None:
            raise SimError(E.ENOENT, path0)
        if n.kind == 'dir':
            raise SimError(E.EISDIR, path0)
        p.accesses.append((path, 'w'))
        del self.nodes[path]

    def sys_rmdir(self, p, path0):
        path = self.norm(path0, '/' + p.cwd)
        n = self.nodes.get(path)
        if n is None:
            raise SimError(E.ENOENT, path0)
        if n.kind != 'dir':
            raise SimError(E.ENOTDIR, path0)
        if any(q.startswith(path + '/') for q in self.nodes):
            raise SimError(E.ENOTEMPTY, path0)
        p.accesses.append((path, 'w'))
        del self.nodes[path]

    def sys_listdir(self, p, path0):
        path, n = self.lookup(self.norm(path0, '/' + p.cwd))
        if n is None:
            raise SimError(E.ENOENT, path0)
        if n.kind != 'dir':
            raise SimError(E.ENOTDIR, path0)
        p.accesses.append((path, 'r'))
        pre = path.rstrip('/') + '/'
        return sorted(q[len(pre):] for q in self.nodes if q.startswith(pre) and q != '/' and '/' not in q[len(pre):])

    def sys_rename(self, p, a0, b0):
        a = self.norm(a0, '/' + p.cwd)
        b = self.norm(b0, '/' + p.cwd)
        n = self.nodes.get(a)
        if n is None:
            raise SimError(E.ENOENT, a0)
        if not self.parent_is_dir(b):
            raise SimError(E.ENOENT, b0)
        t = self.nodes.get(b)
        if t is not None and t.kind == 'dir' and n.kind != 'dir':
            raise SimError(E.EISDIR, b0)
        p.accesses.append((a, 'w'))
        p.accesses.append((b, 'w'))
        if a == b:
            return
        moved = {q: m for q, m in self.nodes.items() if q.startswith(a + '/')}
        self.nodes[b] = self.nodes.pop(a)
        for q, m in moved.items():
            del self.nodes[q]
            self.nodes[b + q[len(a):]] = m

    def sys_mknod(self, p, path0, mode=0o644):
        path = self.norm(path0, '/' + p.cwd)
        if path in self.nodes:
            raise SimError(E.EEXIST, path0)
        if not self.parent_is_dir(path):
            raise SimError(E.ENOENT, path0)
        p.accesses.append((path, 'w'))
        self.nodes[path] = Node('fifo', mode=mode, cap=self.pipecap)

    def sys_call(self, p, fn):
        return fn()

    def sys_wait(self, p, cond):
        return None


AGAIN = object()
