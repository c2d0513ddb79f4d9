"""C05-C07: what the library reports about a command's files and streams, decided by running the command."""
import errno as E
import random

from . import gen
from .base import Prop
from .kernel import Kernel, Chooser, HarnessError
from .lib import Query, Violation, to_iovars, render
from .par import setup_files, start, new_kernel, draw_cfg, FixedChooser, CWD
from .props_par import shrink_text, shrink_cfg, with_, clip
from .io import write_all
from .gen import shq_line
from .getopt import getopt  # noqa: F401


def norm(path):
    return Kernel.norm(path, '/' + CWD)


REAL = ['pash_annotations parser, JSON command data, input/output generators, InputOutputInfo, CommandInvocationWithIO and '
        'CommandInvocationWithIOVars: the shipped code']
STUBS = ['kernel (files, pipes, scheduler, clock)', 'models of the Unix programs']
ASSUME = ['program models open, read, write and remove the files the real programs do (calibrated against GNU tools, see DESIGN.md)',
          'no symbolic or hard links between the named files', 'C locale', 'GNU option syntax', 'awk and sed programs that open no files by name, '
          'xargs with commands that open no files: see known_findings.json']


class Report:
    """the library's view of one command line"""

    def __init__(self, line):
        self.line = line
        self.q = q = Query(line)
        self.info = q.io is not None and q.with_io is not None
        self.barrier = True
        if not self.info:
            return
        self.inv, self.ms = to_iovars(q.with_io)
        self.barrier = bool(q.other_outputs) or any(m.access.is_container_for_input() for m in self.ms)
        self.container = any(m.access.is_container_for_input() for m in self.ms)
        self.reads = set()
        self.writes = set()
        self.stdin = self.stdout = False
        for m in self.ms:
            if m.std == 'STDIN':
                if m.access.is_any_output():
                    raise Violation('stdin as output: %s' % line)
                self.stdin = True
            elif m.std == 'STDOUT':
                if m.access.is_any_input():
                    raise Violation('stdout as input: %s' % line)
                self.stdout = True
            elif m.std is not None:
                pass
            elif m.access.is_any_output():
                self.writes.add(norm(m.path))
            else:
                self.reads.add(norm(m.path))


def same_or_inside(p, names):
    return p in names or any(p.startswith(n.rstrip('/') + '/') for n in names)


def shrink_io(case):
    if 'cfg' in case:
        yield from shrink_cfg(case)
    if case['line'] != shq_line(case['argv']):
        yield with_(case, line=shq_line(case['argv']))
    if case['argv'][0] != 'xargs':
        for i in range(1, len(case['argv'])):
            a = case['argv'][:i] + case['argv'][i + 1:]
            yield with_(case, argv=a, line=shq_line(a))
    if case['stdin']:
        yield with_(case, stdin=None)
        for t in shrink_text(case['stdin']):
            yield with_(case, stdin=t)
    for n, d in case['files'].items():
        if n not in case['argv'] and not any(w.endswith(n) for w in case['argv']):
            f = dict(case['files'])
            del f[n]
            yield with_(case, files=f)
        for t in shrink_text(d):
            yield with_(case, files=dict(case['files'], **{n: t}))


# ------------------------------------------------------------------------------------------------ C06
FAULTS = [('open', E.EACCES), ('open', E.EIO), ('read', E.EIO), ('read', E.EINTR), ('open', E.EMFILE), 'corrupt', 'truncate', 'remove', 'create', 'grow']


class C06(Prop):
    pid = 'C06'
    quick_n = 500000
    rule = ('case = random command line over a pool of files + up to 12 faults on files it is not reported to use, at random moments, and optionally '
            'a kill at a random system call; non-trivial = the library reports information with stream outputs only and the command touched a file or stream')
    real = REAL
    stubs = STUBS
    assumptions = ASSUME
    interleaving_measure = 'distinct hashes of the sequence of system calls and faults'

    def gen(self, r):
        case = gen.io_case(r)
        case['cfg'] = draw_cfg(r)
        case['nfaults'] = r.choice([0, 1, 2, 4, 8, 12])
        case['kill'] = r.choice([0, 0, 0, 1, 2, 3, 5, 9, 17, 33])
        return case

    def shrink(self, case):
        if case['nfaults']:
            yield with_(case, nfaults=0)
            yield with_(case, nfaults=case['nfaults'] - 1)
        if case['kill']:
            yield with_(case, kill=0)
        yield from shrink_io(case)

    def measure(self, case):
        return case['argv']

    def run(self, case, ch, stats):
        rep = Report(case['line'])
        if not rep.info:
            return 'no information'
        if rep.barrier:
            return 'other outputs'
        base = self.execute(case, rep, FixedChooser(), {}, faults=False)
        if base is None:
            return 'rejected command line'
        got = self.execute(case, rep, ch, stats, faults=True)
        if got is None:
            return 'rejected command line'
        killed = got['status'] == 'killed'
        if not killed:
            for what in ('status', 'stdout', 'outs'):
                if got[what] != base[what]:
                    raise Violation('unreported input matters: %r: %s is %r, with faults on unreported files %s it is %r' % (
                        case['line'], what, clipd(base[what]), got['faulted'], clipd(got[what])))
        elif not base['stdout'].startswith(got['stdout']):
            raise Violation('unreported input matters: %r: before the crash stdout was %r, expected a prefix of %r' % (
                case['line'], clip(got['stdout']), clip(base['stdout'])))
        stats['nontrivial'] = bool(base['touched'])
        return 'ok'

    def execute(self, case, rep, ch, stats, faults):
        cfg = case['cfg']
        k = new_kernel(ch, cfg) if faults else Kernel(ch, mode='first', bufsize=65536, pipecap=65536, max_steps=10 ** 6)
        setup_files(k, case)
        stdin = None
        if case['stdin'] is not None:
            k.put('/s/stdin', case['stdin'].encode('latin-1'))
            stdin = '/s/stdin'
        # stdin that is not reported may fail as well
        if faults and stdin and not rep.stdin and ch.choose(3, .5):
            k.nodes['/s/stdin'].data[:] = b'unreported\n'
        p = start(k, 'cmd', case['argv'], stdin)
        p.cwd = CWD
        reported = rep.reads | rep.writes
        shadow = {q: v for q, v in k.snapshot().items()}
        faulted = []
        pending = case['nfaults'] if faults else 0
        if faults and case['kill']:
            p.kill_at = p.nsys + case['kill']

        def hit(_=None):
            nonlocal pending
            if not pending:
                return
            if ch.choose(3, .3) == 0:
                return
            pending -= 1
            cands = [q for q in sorted(k.nodes) if q.startswith('/w/') and k.nodes[q].kind == 'file' and not same_or_inside(q, reported)]
            cands += [norm(n) for n in gen.SPARE if norm(n) not in k.nodes and not same_or_inside(norm(n), reported)]
            if not cands:
                return
            q = cands[ch.choose(len(cands))]
            f = FAULTS[ch.choose(len(FAULTS))]
            faulted.append('%s:%s' % (f if isinstance(f, str) else f[0] + '-' + E.errorcode[f[1]], q))
            name = f if isinstance(f, str) else f[0] + '_' + E.errorcode[f[1]]
            stats['fault_' + name] = stats.get('fault_' + name, 0) + 1
            n = k.nodes.get(q)
            if isinstance(f, tuple):
                k.faults[q] = f if f[0] == 'open' else ('read', f[1], ch.choose(4))
                return
            if f == 'create':
                if n is None and k.parent_is_dir(q):
                    k.put(q, b'made up\n')
            elif n is None:
                return
            elif f == 'remove':
                del k.nodes[q]
            elif f == 'corrupt':
                for i in range(len(n.data)):
                    if n.data[i] != 10 and ch.choose(2):
                        n.data[i] = 33 + ch.choose(90)
            elif f == 'truncate':
                del n.data[ch.choose(len(n.data) + 1):]
            else:
                n.data += b'zz appended\n'
            m = k.nodes.get(q)
            if m is None:
                shadow.pop(q, None)
            else:
                shadow[q] = (m.kind, bytes(m.data), m.mode)
        if faults:
            for _ in range(3):
                hit()
            k.on_step = hit
        res = k.run()
        if res != 'ok':
            raise HarnessError('C06 run: ' + res)
        stats['sim_time'] = k.clock
        stats['steps'] = k.steps
        if faults:
            for s, v in k.stats.items():
                stats[s] = v
            stats['hash'] = hash_of(p, faulted)
        if p.usage:
            return None
        line = case['line']
        allowed_r = rep.reads | rep.writes
        for q, m in p.accesses:
            if q.startswith('/s/') or q == '/tmp' or q.startswith('/tmp/'):
                continue
            if m == 'r' and not same_or_inside(q, allowed_r):
                raise Violation('unreported read: %r reads %s, reported inputs %s' % (line, q, sorted(rep.reads)))
            if m != 'r' and not same_or_inside(q, rep.writes):
                raise Violation('unreported write: %r writes %s, reported outputs %s' % (line, q, sorted(rep.writes)))
        if p.used_stdin and not rep.stdin:
            raise Violation('unreported read: %r reads its standard input' % line)
        out = bytes(p.out_node.data)
        if out and not rep.stdout:
            raise Violation('unreported write: %r writes to its standard output: %r' % (line, clip(out)))
        end = k.snapshot()
        for q in sorted(set(end) | set(shadow)):
            if q.startswith('/s') or same_or_inside(q, rep.writes):
                continue
            if end.get(q) != shadow.get(q):
                raise Violation('unreported file changed: %r leaves %s as %r instead of %r' % (line, q, clipd(end.get(q)), clipd(shadow.get(q))))
        return {'status': p.status, 'stdout': out, 'outs': {q: end.get(q) for q in sorted(rep.writes)}, 'faulted': faulted,
                'touched': bool(p.accesses or p.used_stdin or out)}


def clipd(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + '...'


def hash_of(p, faulted):
    return repr((p.name, p.nsys, p.accesses, faulted))


# ------------------------------------------------------------------------------------------------ C07
class C07(Prop):
    pid = 'C07'
    quick_n = 500000
    rule = ('case = random command line in random spelling + contents of all files + pipe capacity, chunking, stalls, scheduling; non-trivial = the '
            'library reports at least one streaming input or output and the original command line is accepted')
    real = REAL
    stubs = STUBS + ['producers and consumers of the pipes']
    assumptions = ASSUME

    def gen(self, r):
        case = gen.io_case(r, missing=0)
        case['cfg'] = draw_cfg(r)
        return case

    def shrink(self, case):
        yield from shrink_io(case)

    def measure(self, case):
        return case['argv']

    def run(self, case, ch, stats):
        rep = Report(case['line'])
        if not rep.info:
            return 'no information'
        if rep.container:
            return 'container'
        base = self.original(case)
        if base is None:
            return 'rejected command line'
        return self.rebuilt(case, rep, rep.inv, rep.ms, {m: m.var for m in rep.ms}, base, ch, stats)

    def original(self, case):
        """files before, process, files after, standard output; None: command line rejected"""
        k0 = Kernel(FixedChooser(), mode='first', bufsize=65536, pipecap=65536, max_steps=10 ** 6)
        setup_files(k0, case)
        initial = k0.snapshot()
        stdin = None
        if case['stdin'] is not None:
            k0.put('/s/stdin', case['stdin'].encode('latin-1'))
            stdin = '/s/stdin'
        p0 = start(k0, 'original', case['argv'], stdin)
        p0.cwd = CWD
        r = k0.run()
        if r != 'ok':
            raise HarnessError('original run: ' + r)
        if p0.usage:
            return None
        return initial, p0, k0.snapshot(), bytes(p0.out_node.data)

    def rebuilt(self, case, rep, inv, ms, varof, base, ch, stats, fail_at=None):
        """run the invocation with a pipe for each stream and compare; fail_at: give up after that many steps"""
        line = case['line']
        initial, p0, final0, out0 = base
        stdin = case['stdin'] is not None
        # ---- rebuilt
        k = new_kernel(ch, case['cfg'] if fail_at is None else dict(case['cfg'], max_steps=fail_at))
        setup_files(k, case)
        k.put('/p/.keep', b'')
        names = {}
        ins = []        # (pipe, data, mention)
        outs = []       # (pipe, mention)
        std_in = std_out = None
        back = []
        for m in ms:
            if m.std is None:
                path = norm(m.path)
                word = m.path
            if m.access.is_stream_input():
                if m.std == 'STDIN':
                    if std_in is not None:
                        raise Violation('standard input reported twice: %s' % line)
                    pipe = std_in = '/p/stdin'
                    k.mkfifo(pipe)
                    names[varof[m]] = '-' if m.where in ('operand', 'option') else pipe
                    ins.append((pipe, (case['stdin'] or '').encode('latin-1'), m))
                elif m.std is not None:
                    raise Violation('%s reported as input: %s' % (m.std, line))
                else:
                    n = k.nodes.get(path)
                    if n is None or n.kind != 'file':
                        names[varof[m]] = m.path
                        continue
                    pipe = '/p/%d%s' % (varof[m], path)
                    k.mkfifo(pipe)
                    names[varof[m]] = pipe
                    back.append((pipe, word))
                    ins.append((pipe, bytes(n.data), m))
            elif m.access.is_stream_output():
                if m.std == 'STDOUT':
                    if std_out is not None:
                        raise Violation('standard output reported twice: %s' % line)
                    pipe = std_out = '/p/stdout'
                    k.mkfifo(pipe)
                    names[varof[m]] = '-' if m.where in ('operand', 'option') else pipe
                elif m.std is not None:
                    raise Violation('%s reported as streaming output: %s' % (m.std, line))
                else:
                    pipe = '/p/%d%s' % (varof[m], path)
                    k.mkfifo(pipe)
                    names[varof[m]] = pipe
                    back.append((pipe, word))
                outs.append((pipe, m))
            else:
                if m.std not in (None, 'STDIN'):
                    raise Violation('%s reported as %s: %s' % (m.std, m.access.kind.name, line))
                names[varof[m]] = '-' if m.std == 'STDIN' else m.path
                if m.std == 'STDIN':
                    if std_in is not None:
                        raise Violation('standard input reported twice: %s' % line)
                    pipe = std_in = '/p/stdin'
                    k.mkfifo(pipe)
                    ins.append((pipe, (case['stdin'] or '').encode('latin-1'), m))
        argv, _, _ = render(inv, lambda v: names[v])
        consumed = std_in is not None
        if not consumed and rep.q.other_outputs and stdin:
            k.put('/s/stdin', case['stdin'].encode('latin-1'))
            p_in = '/s/stdin'
        else:
            p_in = std_in
        p = start(k, 'rebuilt', argv, p_in, std_out)
        p.cwd = CWD
        got = {}
        for pipe, data, m in ins:
            q = start(k, 'producer', [], None, None, None, producer(pipe, data))
            q.meta = 'ignore-epipe'
        for pipe, m in outs:
            got[pipe] = bytearray()
            start(k, 'consumer', [], None, None, None, consumer(pipe, got[pipe]))
        res = k.run()
        for s, v in k.stats.items():
            stats[s] = stats.get(s, 0) + v if fail_at or 'failed_channels' in stats else v
        stats['sim_time'] = stats.get('sim_time', 0) + k.clock
        stats['steps'] = stats.get('steps', 0) + k.steps
        if fail_at is not None:
            return 'failed' if res == 'steps' else 'finished'
        stats['hash'] = k.trace_hash
        if res == 'steps':
            raise Violation('does not terminate: %r rebuilt as %r' % (line, argv))
        if p.state != 'done':
            raise Violation('does not terminate: %r rebuilt as %r waits for ever in %r' % (line, argv, p.pending))
        if p.usage:
            raise Violation('rebuilt command line rejected: %r is accepted, %r is not: %s' % (line, argv, p.stderr.decode('latin-1')))
        if not p.early:
            left = [q.name for q in k.live]
            for pipe, data, m in ins:
                n = k.nodes[pipe]
                if not n.everr or n.rtotal != len(data):
                    raise Violation('reported input not consumed: %r rebuilt as %r takes %d of %d bytes of %s' % (
                        line, argv, n.rtotal, len(data), m.path or m.std))
            for q in list(k.live):
                if q.name == 'producer':
                    raise Violation('producer never finishes: %r' % line)
        while k.live:
            k.kill(k.live[0])

        def restore(b):
            for pipe, word in back:
                b = b.replace(pipe.encode('latin-1'), word.encode('latin-1'))
            return b
        if p.status != p0.status:
            raise Violation('exit status differs: %r gives %r, rebuilt as %r gives %r' % (line, p0.status, argv, p.status))
        # ---- outputs
        replaced = set()
        for pipe, m in outs:
            data = restore(bytes(got[pipe]))
            if m.std is not None:
                want = out0
                where = 'stdout'
            else:
                where = norm(m.path)
                replaced.add(where)
                a = initial.get(where)
                z = final0.get(where)
                a = a[1] if a and a[0] == 'file' else b''
                z = z[1] if z and z[0] == 'file' else b''
                if any(q == where and md == 'a' for q, md in p0.opened):
                    want = z[len(a):] if z.startswith(a) else z
                elif any(q == where and md != 'r' for q, md in p0.opened):
                    want = z
                else:
                    want = b'' if a == z else z
            if data != want:
                raise Violation('output differs: %r puts %r on %s, rebuilt as %r it puts %r there' % (line, clip(want), where, argv, clip(data)))
        rest = b'' if p.out_node is None else restore(bytes(p.out_node.data))
        if std_out is None:
            if rep.q.other_outputs:
                if rest != out0:
                    raise Violation('output differs: %r puts %r on stdout, rebuilt as %r %r' % (line, clip(out0), argv, clip(rest)))
            elif rest or out0:
                raise Violation('unreported standard output: %r writes %r' % (line, clip(out0 or rest)))
        if not rep.q.other_outputs:
            if (p.used_stdin or p0.used_stdin) and std_in is None:
                raise Violation('unreported standard input: %r reads it' % line)
            fixed = set(norm(m.path) for m in ms if m.std is None and m.access.is_any_input())
            for q, md in p.opened:
                if q.startswith('/p/') or q.startswith('/s/'):
                    continue
                if not same_or_inside(q, fixed):
                    raise Violation('unreported file used: %r rebuilt as %r opens %s' % (line, argv, q))
        # ---- files
        final = k.snapshot()
        for q in sorted(set(final) | set(final0)):
            if q.startswith('/p') or q.startswith('/s'):
                continue
            want = initial.get(q) if q in replaced else final0.get(q)
            if final.get(q) != want:
                raise Violation('files differ: after %r %s is %r, after %r it is %r' % (line, q, clipd(want), argv, clipd(final.get(q))))
        stats['nontrivial'] = bool(ins or outs)
        return 'ok'


def producer(path, data):
    from .kernel import SimError

    def g(p):
        try:
            fd = yield ('open', path, 'w')
            yield from write_all(fd, data)
            yield ('close', fd)
        except SimError:
            pass
        return 0
    return g


def consumer(path, sink):
    def g(p):
        fd = yield ('open', path, 'r')
        while True:
            b = yield ('read', fd, p.bufsize)
            if not b:
                break
            sink.extend(b)
        yield ('close', fd)
        return 0
    return g


# ------------------------------------------------------------------------------------------------ C05
class C05(Prop):
    pid = 'C05'
    quick_n = 150000
    rule = ('case = script of 2-6 commands with redirections over a shared pool of files + scheduling/stall/chunking configuration; non-trivial = at '
            'least two commands overlapped in time')
    real = REAL
    stubs = STUBS + ['script runner deciding conflicts from the reported accesses']
    assumptions = ASSUME + ['redirections of the script are known to the runner']

    def gen(self, r):
        files = {}
        gen.fill(r, files, r.choice(['comm', 'diff', 'cat', 'cat']))
        F = gen.Files(r, pool=r.sample(gen.POOL, r.choice([1, 2, 3, 4, 9])), spare=r.sample(gen.SPARE, r.choice([1, 2, 5])), missing=.08)
        for n in gen.SPARE:
            F.pool += [n] if n in F.spare and r.random() < .5 else []
        cmds = []
        for _ in range(r.choice([2, 2, 2, 3, 3, 4, 6])):
            cmd = r.choices(list(gen.IO_CMDS), [gen.IO_CMDS[c] * (.25 if c in ('cp', 'touch', 'seq', 'echo') else .0 if c == 'mkfifo' else 1)
                                                for c in gen.IO_CMDS])[0]
            argv = gen.io_argv(r, cmd, F)
            rin = r.choice(F.pool) if r.random() < .3 else None
            rout = None
            if r.random() < .35:
                n = r.choice(F.pool + F.spare)
                if not any(n in w or gen.strip(n) == gen.strip(w) for w in argv) and (rin is None or gen.strip(n) != gen.strip(rin)):
                    rout = [n, r.choice('wwa')]
            cmds.append({'argv': argv, 'line': gen.line_of(r, argv), 'stdin': gen.text(r, None, 6) if rin is None else None, 'rin': rin, 'rout': rout})
        return {'cmds': cmds, 'files': files, 'cfg': draw_cfg(r), 'line': ' ; '.join(c['line'] for c in cmds)}

    def measure(self, case):
        return [c['argv'] for c in case['cmds']]

    def same(self, listed, case):
        return [c['argv'] for c in listed['cmds']] == [c['argv'] for c in case['cmds']]

    def shrink(self, case):
        cs = case['cmds']

        def mk(cmds):
            return with_(case, cmds=cmds, line=' ; '.join(c['line'] for c in cmds))
        for i in range(len(cs)):
            if len(cs) > 2:
                yield mk(cs[:i] + cs[i + 1:])
        yield from shrink_cfg(case)
        for i, c in enumerate(cs):
            alts = []
            if c['line'] != shq_line(c['argv']):
                alts.append(dict(c, line=shq_line(c['argv'])))
            if c['rin']:
                alts.append(dict(c, rin=None, stdin=''))
            if c['rout']:
                alts.append(dict(c, rout=None))
            if c['stdin']:
                alts.append(dict(c, stdin=''))
            if c['argv'][0] != 'xargs':
                for j in range(1, len(c['argv'])):
                    a = c['argv'][:j] + c['argv'][j + 1:]
                    alts.append(dict(c, argv=a, line=shq_line(a)))
            for x in alts:
                yield mk(cs[:i] + [x] + cs[i + 1:])
        for n, d in case['files'].items():
            if not any(w.endswith(n) for c in cs for w in c['argv'] + [c['rin'] or '', (c['rout'] or [''])[0]]):
                f = dict(case['files'])
                del f[n]
                yield with_(case, files=f)
            for t in shrink_text(d):
                yield with_(case, files=dict(case['files'], **{n: t}))

    def execute(self, case, ch, deps, stats=None):
        """deps None: sequentially"""
        if deps is None:
            k = Kernel(ch, mode='first', bufsize=65536, pipecap=65536, max_steps=200000)
        else:
            k = new_kernel(ch, dict(case['cfg'], max_steps=400000))
        setup_files(k, case)
        procs = []
        started = {}
        overlap = [0]

        def begin(i, c):
            waits = list(range(i)) if deps is None else sorted(deps[i])

            def main(p):
                yield ('wait', lambda: all(procs[j].state == 'done' for j in waits))
                if any(procs[j].state != 'done' for j in started):
                    overlap[0] += 1
                started[i] = True
                for fd, path, mode in ([(0, c['rin'], 'r')] if c['rin'] else []) + ([(1, c['rout'][0], c['rout'][1])] if c['rout'] else []):
                    from .kernel import SimError
                    try:
                        h = yield ('open', norm(path), mode)
                    except SimError:
                        return 1
                    if fd in p.fds:
                        yield ('close', fd)
                    p.fds[fd] = p.fds.pop(h)
                from .cmds import program
                st = yield from program(c['argv'])(p)
                return st
            stdin = None
            if c['rin'] is None and c['stdin'] is not None:
                k.put('/s/%d' % i, c['stdin'].encode('latin-1'))
                stdin = '/s/%d' % i
            p = k.spawn('c%d' % i, main, stdin)
            p.cwd = CWD
            procs.append(p)
        for i, c in enumerate(case['cmds']):
            begin(i, c)
        res = k.run()
        if stats is not None:
            for s, v in k.stats.items():
                stats[s] = v
            stats['sim_time'] = k.clock
            stats['steps'] = k.steps
            stats['hash'] = k.trace_hash
            stats['overlaps'] = overlap[0]
        snap = {q: v for q, v in k.snapshot().items() if not q.startswith('/s')}
        return res, snap, [bytes(p.out_node.data) for p in procs], [p.status for p in procs], overlap[0]

    def run(self, case, ch, stats):
        reps = [Report(c['line']) for c in case['cmds']]
        deps = []
        for i, c in enumerate(case['cmds']):
            d = set()
            for j in range(i):
                if self.conflict(reps[i], c, reps[j], case['cmds'][j]):
                    d.add(j)
            deps.append(d)
        res0, snap0, outs0, sts0, _ = self.execute(case, FixedChooser(), None)
        if res0 != 'ok':
            return 'script blocks'
        if all(len(d) == i for i, d in enumerate(deps)):
            return 'nothing may overlap'
        for attempt in range(3):
            res, snap, outs, sts, overlap = self.execute(case, ch, deps, stats)
            what = '%s may overlap as %s' % (case['line'], [sorted(d) for d in deps])
            if res != 'ok':
                raise Violation('overlapping run does not finish: %s: %s' % (res, what))
            for q in sorted(set(snap) | set(snap0)):
                if snap.get(q) != snap0.get(q):
                    raise Violation('files differ: %s: %s is %r, sequentially %r' % (what, q, clipd(snap.get(q)), clipd(snap0.get(q))))
            for i in range(len(outs)):
                if outs[i] != outs0[i]:
                    raise Violation('stdout differs: %s: command %d prints %r, sequentially %r' % (what, i, clip(outs[i]), clip(outs0[i])))
                if sts[i] != sts0[i]:
                    raise Violation('status differs: %s: command %d ends with %r, sequentially %r' % (what, i, sts[i], sts0[i]))
        stats['nontrivial'] = overlap > 0
        return 'ok'

    @staticmethod
    def conflict(a, ca, b, cb):
        if a.barrier or b.barrier:
            return True

        def sets(rep, c):
            rd, wr = set(rep.reads), set(rep.writes)
            if c['rin']:
                rd.add(norm(c['rin']))
            if c['rout']:
                wr.add(norm(c['rout'][0]))
            return rd, wr
        ra, wa = sets(a, ca)
        rb, wb = sets(b, cb)

        def hit(x, y):
            return any(p == q or p.startswith(q.rstrip('/') + '/') or q.startswith(p.rstrip('/') + '/') for p in x for q in y)
        return hit(wa, rb | wb) or hit(wb, ra)
