"""C01-C04: parallel executions built by the library against the sequential command."""
from . import gen
from .gen import shq_line
from .base import Prop
from .lib import Violation
from .par import (Target, Plan, tree, run_tasks, seq_output, split_lines, draw_cfg, is_concat)


def crash_cfg(r):
    if r.random() < .5:
        return None
    return {'p': r.choice([0, 10, 30, 60]), 'max': r.choice([1, 2, 4, 8]), 'dup': r.choice([0, 0, 20, 50]), 'slots': r.choice([0, 1, 2, 3])}


def cut_points(ch, n, k):
    """k consecutive chunks of n lines"""
    cuts = sorted(ch.choose(n + 1) for _ in range(k - 1))
    cuts = [0] + cuts + [n]
    return list(zip(cuts, cuts[1:]))


class ParProp(Prop):
    rule = ('case = random command line (every documented option and spelling of the command, several operands) + input text + worker count + '
            'schedule/fault configuration; non-trivial = the library offers the parallelization, the command line is accepted, the input is not '
            'empty and more than one process is built from it')
    real = ['pash_annotations parser, JSON command data, input/output and parallelizability generators, Parallelizer, MapperSpec, AggregatorSpec, '
            'CommandInvocationWithIOVars: the shipped code']
    stubs = ['kernel (files, pipes, scheduler, clock)', 'models of the annotated Unix programs', 'splitter', 'dispatcher and in-order merge']
    assumptions = ['program models agree with the real programs where the comparison of sequential and parallel run depends on it '
                   '(calibrated against GNU tools, see DESIGN.md)', 'C locale', 'GNU option syntax']
    commands = None
    weights = None

    def gen(self, r):
        case = gen.par_case(r, self.commands, self.weights)
        case['cfg'] = draw_cfg(r)
        case['crash'] = crash_cfg(r)
        case['k'] = r.choice([1, 2, 2, 2, 3, 3, 4, 6])
        case['pick'] = r.randrange(4)
        case['ids'] = r.randrange(1000) if r.random() < .7 else None
        return case

    def want(self, p, commutative):
        raise NotImplementedError

    def build(self, ch, case, tgt, par, plan, data, final):
        raise NotImplementedError

    def run(self, case, ch, stats):
        """returns 'ok' or the reason why nothing was decided; raises Violation"""
        tgt = Target(case, self.want)
        if not tgt.usable:
            return tgt.why
        data = tgt.input_bytes(case)
        if data is None:
            return 'no input'
        expected, status = seq_output(case, tgt)
        if expected is None:
            return 'rejected command line'
        par = tgt.usable[case['pick'] % len(tgt.usable)]
        plan = Plan(tgt, par, case)
        final = plan.var('/t/final')
        inputs, merge, split = self.build(ch, case, par, plan, data, final)
        got, errors = run_tasks(ch, case['cfg'], case, plan, inputs, '/t/final', case['crash'], stats, merge, split)
        if errors:
            raise Violation('stream discipline: %s: %s' % (case['line'], '; '.join(errors[:3])))
        if got != expected:
            raise Violation('output differs: %r: sequential %r, parallel %r, tasks %r' % (
                case['line'], clip(expected), clip(got), [t['argv'] for t in plan.tasks]))
        stats['nontrivial'] = len(data) > 0 and len(plan.tasks) > 1
        return 'ok'

    def measure(self, case):
        return case['argv']

    def shrink(self, case):
        yield from shrink_par(case)


def clip(b):
    return b if b is None or len(b) < 300 else b[:300] + b'...'


class C01(ParProp):
    pid = 'C01'
    quick_n = 400000

    def want(self, p, commutative):
        return p.get_splitter().is_splitter_consec_chunks()

    def build(self, ch, case, par, plan, data, final):
        lines = split_lines(data)
        n_aux = par.get_info_mapper_aggregator()
        outs, auxs, inputs = [], [], {}
        chunks = cut_points(ch, len(lines), case['k'])
        for i, (a, b) in enumerate(chunks):
            inp = plan.var('/t/in%d' % i)
            inputs['/t/in%d' % i] = b''.join(lines[a:b])
            out = final if len(chunks) == 1 else plan.var('/t/out%d' % i)
            aux = [plan.var('/t/out%daux%d' % (i, j)) for j in range(n_aux)]
            plan.mapper(inp, out, aux)
            outs.append(out)
            auxs.append(aux)
        tree(plan, ch, outs, auxs, final, n_aux)
        return inputs, None, 'each'


class C04(C01):
    pid = 'C04'
    quick_n = 200000
    commands = ['alt_bigrams_aux', 'bigrams_aux']
    weights = {'alt_bigrams_aux': 1, 'bigrams_aux': 2}

    def gen(self, r):
        case = ParProp.gen(self, r)
        case['k'] = r.choice([1, 2, 3, 4, 5, 7, 9])
        return case

    def measure(self, case):
        return (case['argv'], case['stdin'], case['k'])


class C02(ParProp):
    pid = 'C02'
    quick_n = 1500000

    def want(self, p, commutative):
        return p.get_splitter().is_splitter_round_robin()

    def build(self, ch, case, par, plan, data, final):
        lines = split_lines(data)
        blocks = []
        i = 0
        size = case['k']
        while i < len(lines) or not blocks:
            n = 1 + ch.choose(size)
            blocks.append(b''.join(lines[i:i + n]))
            i += n
            if ch.choose(8, .9) and len(lines) < 40:
                blocks.append(b'')
        outs = []
        inputs = {}
        n_aux = par.get_info_mapper_aggregator()
        auxs = []
        conc = n_aux == 0 and is_concat(par)
        for j, blk in enumerate(blocks):
            inp = plan.var('/t/in%d' % j)
            inputs['/t/in%d' % j] = blk
            out = final if not conc and len(blocks) == 1 else plan.var('/t/out%d' % j)
            aux = [plan.var('/t/out%daux%d' % (j, x)) for x in range(n_aux)]
            plan.mapper(inp, out, aux)
            outs.append(out)
            auxs.append(aux)
        if conc:
            return inputs, [plan.names[o] for o in outs], 'one'
        tree(plan, ch, outs, auxs, final, n_aux)
        return inputs, None, 'each'


class C03(ParProp):
    pid = 'C03'
    quick_n = 300000
    weights = {'sort': 12, 'custom_sort': 2, 'grep': 2, 'tr': 2, 'cut': 1, 'sed': 1, 'col': .5, 'xargs': .5, 'custom_tr': .5, 'set_diff': 1,
               'alt_bigrams_aux': .5, 'bigrams_aux': .5}

    def want(self, p, commutative):
        return p.get_splitter().is_splitter_round_robin_with_unwrap_flag()

    def build(self, ch, case, par, plan, data, final):
        lines = split_lines(data)
        k = case['k']
        tailb = b''
        if lines and not lines[-1].endswith(b'\n'):
            tailb = lines.pop()
        streams = [[] for _ in range(k)]
        i = 0
        while i < len(lines):
            n = 1 + ch.choose(3)
            s = streams[ch.choose(k)]
            # arrival order: anywhere in the worker's stream
            s.insert(ch.choose(len(s) + 1), b''.join(lines[i:i + n]))
            i += n
        if tailb:
            streams[ch.choose(k)].append(tailb)
        n_aux = par.get_info_mapper_aggregator()
        outs, auxs, inputs = [], [], {}
        for j, s in enumerate(streams):
            inp = plan.var('/t/in%d' % j)
            inputs['/t/in%d' % j] = b''.join(s)
            out = final if k == 1 else plan.var('/t/out%d' % j)
            aux = [plan.var('/t/out%daux%d' % (j, x)) for x in range(n_aux)]
            plan.mapper(inp, out, aux)
            outs.append(out)
            auxs.append(aux)
        tree(plan, ch, outs, auxs, final, n_aux, shuffle=True)
        return inputs, None, 'each'


# ------------------------------------------------------------------------------------------------ shrinking
def shrink_text(s):
    """shorter texts"""
    ls = s.split('\n')
    n = len(ls)
    step = n // 2
    while step >= 1:
        for i in range(0, n, step):
            t = '\n'.join(ls[:i] + ls[i + step:])
            if t != s:
                yield t
        step //= 2
    if len(s) < 60:
        for i in range(len(s)):
            yield s[:i] + s[i + 1:]


def with_(case, **kw):
    c = dict(case)
    c.update(kw)
    return c


def shrink_cfg(case):
    simple = {'mode': 'first', 'stall': 0, 'short': 0, 'buf': 4096, 'cap': 4096}
    if case['cfg'] != simple:
        yield with_(case, cfg=simple)
        for k, v in simple.items():
            if case['cfg'].get(k) != v:
                yield with_(case, cfg=dict(case['cfg'], **{k: v}))


def shrink_words(case):
    if case['line'] != shq_line(case['argv']):
        yield with_(case, line=shq_line(case['argv']))
    if case['argv'][0] == 'xargs':
        return
    for i in range(1, len(case['argv'])):
        a = case['argv'][:i] + case['argv'][i + 1:]
        yield with_(case, argv=a, line=shq_line(a))


def shrink_par(case):
    if case['crash'] is not None:
        yield with_(case, crash=None)
        yield with_(case, crash=dict(case['crash'], dup=0, slots=0))
    if case['k'] > 1:
        for k in (2, case['k'] - 1):
            if k != case['k']:
                yield with_(case, k=k)
    if case.get('ids') is not None:
        yield with_(case, ids=None)
    yield from shrink_cfg(case)
    yield from shrink_words(case)
    if case['stdin']:
        for t in shrink_text(case['stdin']):
            yield with_(case, stdin=t)
    for n, d in case['files'].items():
        if n not in case['argv'] and not any(w.endswith(n) for w in case['argv']) and case['argv'][0] != 'xargs':
            f = dict(case['files'])
            del f[n]
            yield with_(case, files=f)
        for t in shrink_text(d):
            yield with_(case, files=dict(case['files'], **{n: t}))
