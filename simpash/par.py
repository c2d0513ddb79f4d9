"""Parallel execution of one annotated command line (C01-C04): the library decides, the simulator runs."""
from .kernel import Kernel, HarnessError
from .io import write_all
from . import cmds2  # noqa: F401 (registers the models)
from .cmds import program, REG
from .lib import Query, Violation, Vars, to_iovars, render, used_vars, is_var

CWD = 'w'


def setup_files(k, case):
    k.put('/w/.keep', b'')
    k.put('/w/d/.keep', b'')
    for name, data in case['files'].items():
        k.put('/w/' + name, data.encode('latin-1'))
    k.put('/t/.keep', b'')


def start(k, name, argv, stdin=None, stdout=None, kill_at=None, gen=None):
    g = gen or program(argv)

    def main(p):
        r = yield from g(p)
        return r
    p = k.spawn(name, main, stdin, stdout, kill_at)
    return p


_seq_cache = {}


def new_kernel(ch, cfg):
    k = Kernel(ch, mode=cfg['mode'], stall_p=cfg['stall'], short_p=cfg['short'], bufsize=cfg['buf'], pipecap=cfg['cap'],
               max_steps=cfg.get('max_steps', 400000))
    return k


class FixedChooser:
    def choose(self, n, p0=None):
        return 0


def sequential(case):
    """(output on the stream 'out' or stdout, status, opened paths)"""
    k = Kernel(FixedChooser(), mode='first', bufsize=65536, pipecap=65536, max_steps=10 ** 6)
    setup_files(k, case)
    stdin = None
    if case['stdin'] is not None:
        k.put('/w/__stdin', case['stdin'].encode('latin-1'))
        stdin = '/w/__stdin'
    p = start(k, 'seq', case['argv'], stdin)
    p.cwd = CWD
    r = k.run()
    if r != 'ok':
        raise HarnessError('sequential run: ' + r)
    out = bytes(p.out_node.data)
    return out, p.status, k, p


def split_lines(data):
    ls = data.split(b'\n')
    last = ls.pop()
    ls = [x + b'\n' for x in ls]
    if last:
        ls.append(last)
    return ls


def draw_cfg(r):
    return {'mode': r.choice(['random', 'random', 'sticky', 'pct', 'last', 'rr', 'first']),
            'stall': r.choice([0, 0, 0, .05, .2]), 'short': r.choice([0, 0, .2, .6]),
            'buf': r.choice([3, 16, 64, 4096]), 'cap': r.choice([1, 7, 64, 4096])}


class Target:
    """the library's view of a case, ready to be parallelized; None parts if it offers nothing usable"""

    def __init__(self, case, want):
        self.q = Query(case['line'])
        self.usable = []
        self.why = None
        q = self.q
        if q.io is None or q.with_io is None:
            self.why = 'no information'
            return
        if q.other_outputs:
            self.why = 'other outputs'
            return
        self.vars = Vars(case.get('ids'))
        self.inv, self.ms = to_iovars(q.with_io, self.vars)
        ins = [m for m in self.ms if m.access.is_stream_input()]
        outs = [m for m in self.ms if m.access.is_stream_output()]
        others = [m for m in self.ms if m.access.is_other_output()]
        if len(ins) != 1 or len(outs) != 1 or others:
            self.why = 'streams'
            return
        if any(m.access.is_container_for_input() for m in self.ms):
            self.why = 'container'
            return
        self.inm, self.outm = ins[0], outs[0]
        self.side = {m.var: m for m in self.ms if m not in (self.inm, self.outm)}
        if any(m.std is not None for m in self.side.values()):
            self.why = 'standard input is a configuration'      # each worker would need a copy of it
            return
        plist, self.commutative = q.parallelizers()
        for i, p in enumerate(plist):
            if p.are_all_parts_implemented() and want(p, self.commutative):
                self.usable.append(p)
        if not self.usable:
            self.why = 'not parallelizable'

    def input_bytes(self, case):
        """the data on the single streaming input, as reported"""
        m = self.inm
        if m.std == 'STDIN':
            return (case['stdin'] or '').encode('latin-1')
        if m.std is not None:
            raise Violation('streaming input of %r is %s' % (case['line'], m.std))
        for name, data in case['files'].items():
            if Kernel.norm(name, '/w') == Kernel.norm(m.path, '/w'):
                return data.encode('latin-1')
        return None         # does not exist

    def side_path(self, var):
        m = self.side[var]
        if m.std == 'STDIN':
            return '-'
        return m.path


def seq_output(case, tgt):
    """bytes the sequential command puts on its single streaming output"""
    out, status, k, p = sequential(case)
    m = tgt.outm
    if p.usage:
        return None, status
    if m.std is not None:
        return out, status
    node = k.nodes.get(Kernel.norm(m.path, '/w'))
    return (bytes(node.data) if node is not None and node.kind == 'file' else b''), status


class Plan:
    """tasks (argv, stdin, stdout) over path words, derived from library-built invocations"""

    def __init__(self, tgt, par, case):
        self.t = tgt
        self.par = par
        self.case = case
        self.names = {}     # var -> path
        self.tasks = []     # (kind, argv, stdin, stdout, ins, outs)

    def var(self, path):
        v = self.t.vars.new()
        self.names[v] = path
        return v

    def path_of(self, v):
        if v in self.names:
            return self.names[v]
        if v in self.t.side:
            return self.t.side_path(v)
        if v == self.t.inm.var or v == self.t.outm.var:
            raise Violation('a command built for %r still uses the original stream' % self.case['line'])
        raise Violation('a command built for %r uses the unknown stream %r' % (self.case['line'], v))

    def add(self, kind, inv, ins, outs):
        line = self.case['line']
        if inv is None:
            raise Violation('no %s for an implemented parallelizer of %r' % (kind, line))
        if inv.cmd_name not in REG:
            raise Violation('%s of %r runs the unknown command %r' % (kind, line, inv.cmd_name))
        used = used_vars(inv)
        for v in ins + outs:
            if used.count(v) != 1:
                raise Violation('%s of %r mentions stream %s %d times: %s' % (kind, line, self.names[v], used.count(v), show(inv)))
        argv, i, o = render(inv, self.path_of)
        acc = inv.access_map
        for v in used:
            if v not in acc:
                raise Violation('%s of %r has no access kind for a stream it mentions: %s' % (kind, line, show(inv)))
        for v in ins:
            if not acc[v].is_stream_input():
                raise Violation('%s of %r: input %s is recorded as %s' % (kind, line, self.names[v], acc[v].kind.name))
        for v in outs:
            if not acc[v].is_stream_output():
                raise Violation('%s of %r: output %s is recorded as %s' % (kind, line, self.names[v], acc[v].kind.name))
        extra = [v for v in acc if v not in used]
        if extra:
            raise Violation('%s of %r records an access for streams it does not mention' % (kind, line))
        extra = [v for v in used if v not in ins and v not in outs and v not in self.t.side]
        if extra:
            raise Violation('%s of %r uses streams that are not its own: %s' % (kind, line, show(inv)))
        self.tasks.append({'kind': kind, 'argv': argv, 'stdin': i, 'stdout': o, 'ins': [self.names[v] for v in ins],
                           'outs': [self.names[v] for v in outs]})

    def call(self, what, f, *args):
        """the caller's own lists are handed over; they stay the caller's"""
        before = [list(x) if isinstance(x, list) else x for x in args]
        try:
            res = f(*args)
        except Exception as e:
            raise Violation('building the %s of %r raised %r' % (what, self.case['line'], e))
        for x, y in zip(args, before):
            if isinstance(x, list) and x != y:
                raise Violation('building the %s of %r changed the caller\'s list of streams from %r to %r' % (what, self.case['line'], y, x))
        return res

    def mapper(self, inp, out, auxs=()):
        auxs = auxs if isinstance(auxs, list) else list(auxs)
        ins, outs = [inp], [out] + auxs
        m = self.call('mapper', self.par.get_actual_mapper, self.t.inv, inp, out, auxs)
        self.add('mapper', m, ins, outs)

    def aggregator(self, ins, out):
        keep = list(ins)
        a = self.call('aggregator', self.par.get_actual_aggregator, self.t.inv, ins, out)
        self.add('aggregator', a, keep, [out])

    def aggregator_aux(self, i1, a1, i2, a2, out, auxs):
        ins, outs = [i1] + a1 + [i2] + a2, [out] + auxs
        a = self.call('aggregator with auxiliaries', self.par.get_actual_2_ary_aggregator_with_aux, i1, a1, i2, a2, out, auxs)
        self.add('aggregator', a, ins, outs)


def show(inv):
    try:
        return repr(render(inv, lambda v: '<%s>' % v))
    except Exception as e:
        return repr(e)


def is_concat(par):
    return par.core_aggregator_spec.is_aggregator_spec_concatenate()


def tree(plan, ch, outs, auxs, final, n_aux, shuffle=False):
    """combine worker results; bracketing (and operand order if shuffle) decided by the chooser"""
    items = list(zip(outs, auxs))
    if shuffle:
        for i in range(len(items) - 1, 0, -1):
            j = ch.choose(i + 1)
            items[i], items[j] = items[j], items[i]
    cnt = 0
    if n_aux == 0 and is_concat(plan.par):
        while len(items) > 1:
            # group a few neighbours
            a = ch.choose(len(items))
            b = min(len(items), a + 2 + ch.choose(len(items)))
            if b - a < 2:
                a = max(0, b - 2)
            last = b - a == len(items)
            v = final if last else plan.var('/t/agg%d' % cnt)
            cnt += 1
            plan.aggregator([x[0] for x in items[a:b]], v)
            items[a:b] = [(v, [])]
        return
    while len(items) > 1:
        a = ch.choose(len(items) - 1)
        last = len(items) == 2
        v = final if last else plan.var('/t/agg%d' % cnt)
        if n_aux:
            av = [plan.var('/t/agg%daux%d' % (cnt, j)) for j in range(n_aux)]
            plan.aggregator_aux(items[a][0], items[a][1], items[a + 1][0], items[a + 1][1], v, av)
        else:
            av = []
            plan.aggregator([items[a][0], items[a + 1][0]], v)
        cnt += 1
        items[a:a + 2] = [(v, av)]


def run_tasks(ch, cfg, case, plan, inputs, final, crash, stats, merge=None, split='each'):
    """inputs: {path: bytes}; returns bytes of final. crash=None: pipes; else {'p': prob, 'max': n, 'dup': prob}: spool files"""
    k = new_kernel(ch, cfg)
    setup_files(k, case)
    errors = []
    side = set()
    if case['argv'][0] == 'xargs':      # what the inner command reads is its own business
        side |= set(Kernel.norm(n, '/w') for n in case['files'])
    for m in plan.t.side.values():
        if m.std is None:
            side.add(Kernel.norm(m.path, '/w'))

    def check_opened(p, task, trans=lambda x: x):
        exp = set(trans(x) for x in task['ins'] + task['outs'])
        got = set(q for q, _ in p.opened)
        for q in got:
            if q not in exp and q not in side:
                errors.append('%s %r opened %s' % (task['kind'], task['argv'], q))
        for q in exp:
            if q not in got:
                errors.append('%s %r never opened %s' % (task['kind'], task['argv'], q))
    res = None
    if crash is None:
        for t in plan.tasks:
            for q in t['ins'] + t['outs']:
                if Kernel.norm(q) != Kernel.norm(final) and Kernel.norm(q) not in k.nodes:
                    k.mkfifo(q)
        # auxiliaries of the last aggregator lead nowhere: plain files
        consumed = set(q for t in plan.tasks for q in t['ins']) | set(merge or ())
        for t in plan.tasks:
            for q in t['outs']:
                if q != final and q not in consumed:
                    k.put(q, b'')

        def feeder(path, data):
            def g(p):
                fd = yield ('open', path, 'w')
                yield from write_all(fd, data)
                yield ('close', fd)
                return 0
            return g

        def dealer(p):
            for q, data in inputs.items():
                fd = yield ('open', q, 'w')
                yield from write_all(fd, data)
                yield ('close', fd)
            return 0

        def merger(p):
            o = yield ('open', final, 'w')
            for q in merge:
                fd = yield ('open', q, 'r')
                while True:
                    d = yield ('read', fd)
                    if not d:
                        break
                    yield from write_all(o, d)
                yield ('close', fd)
            return 0
        procs = []
        if split == 'one':
            start(k, 'split', None, gen=dealer)
        else:
            for q, data in inputs.items():
                start(k, 'split', None, gen=feeder(q, data))
        if merge is not None:
            start(k, 'merge', None, gen=merger)
        for t in plan.tasks:
            p = start(k, t['kind'], t['argv'], t['stdin'], t['stdout'])
            p.cwd = CWD
            procs.append((p, t))
        r = k.run()
        if r == 'deadlock':
            errors.append('deadlock: ' + ', '.join('%s waits in %s' % (p.name, p.pending[0]) for p in k.live))
        elif r == 'steps':
            errors.append('no end within %d steps' % k.max_steps)
        else:
            for p, t in procs:
                check_opened(p, t)
                if p.status == 'sigpipe':
                    errors.append('%s %r died of a broken pipe' % (t['kind'], t['argv']))
    else:
        for q, data in inputs.items():
            k.put(q, data)
        done = {}
        budget = [crash['max']]
        running = {}
        state = {'n': 0}

        def try_start():
            cand = [(ti, t) for ti, t in enumerate(plan.tasks) if ti not in done and not running.get(ti)]
            while cand:
                if crash.get('slots') and sum(running.values()) >= crash['slots']:
                    return
                ti, t = cand.pop(ch.choose(len(cand)))
                if all(q in inputs or any(q in plan.tasks[d]['outs'] for d in done) for q in t['ins']):
                    attempt(ti)
                    if crash['dup'] and ch.choose(100) < crash['dup']:
                        stats['duplicate'] = stats.get('duplicate', 0) + 1
                        attempt(ti)

        def attempt(ti):
            t = plan.tasks[ti]
            n = state['n']
            state['n'] += 1
            trans = {q: q + '.try%d' % n for q in t['outs']}
            w = lambda s: trans.get(s, s) if s is not None else None
            kill = None
            if budget[0] and ch.choose(100) < crash['p']:
                budget[0] -= 1
                kill = 1 + ch.choose(ch.choose(2) and 60 or 12)
            p = start(k, t['kind'], [w(x) if x in trans else sub(x, trans) for x in t['argv']], w(t['stdin']), w(t['stdout']), kill)
            p.cwd = CWD
            p.meta = ('task', ti, trans)
            running[ti] = running.get(ti, 0) + 1
            stats['attempt'] = stats.get('attempt', 0) + 1

        def on_exit(p):
            if not (isinstance(p.meta, tuple) and p.meta[0] == 'task'):
                return
            _, ti, trans = p.meta
            t = plan.tasks[ti]
            running[ti] -= 1
            if p.status == 'killed':
                # whatever it wrote is lost with its private output
                for q in trans.values():
                    k.nodes.pop(q, None)
                try_start()
                return
            check_opened(p, t, lambda x: trans.get(x, x))
            if ti not in done:
                done[ti] = p
                for q, tmp in trans.items():
                    n = k.nodes.get(tmp)
                    if n is not None:
                        k.nodes[q] = n
            else:
                for q, tmp in trans.items():
                    a, b = k.nodes.get(tmp), k.nodes.get(q)
                    if a is not None and b is not None and bytes(a.data) != bytes(b.data):
                        errors.append('two executions of %r differ' % (t['argv'],))
            try_start()
        k.on_exit.append(on_exit)
        try_start()
        r = k.run()
        if r == 'steps':
            errors.append('no end within %d steps' % k.max_steps)
        elif r == 'deadlock' or len(done) != len(plan.tasks):
            errors.append('no progress: %d of %d tasks done' % (len(done), len(plan.tasks)))
    for s, n in k.stats.items():
        stats[s] = stats.get(s, 0) + n
    stats['sim_time'] = stats.get('sim_time', 0) + k.clock
    stats['steps'] = stats.get('steps', 0) + k.steps
    stats['hash'] = k.trace_hash
    if crash is not None and merge is not None:
        return b''.join(bytes(k.nodes[q].data) if q in k.nodes else b'' for q in merge), errors
    node = k.nodes.get(Kernel.norm(final))
    res = bytes(node.data) if node is not None else None
    return res, errors


def sub(word, trans):
    for a, b in trans.items():
        if word.startswith('--') and word.endswith('=' + a):
            return word[:-len(a)] + b
    return word
