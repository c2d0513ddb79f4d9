"""C13: histories of re-plumbing operations against a reference model, then data moved through the re-plumbed streams."""
from copy import deepcopy

from .props_io import C07, Report, REAL, STUBS, ASSUME
from .lib import Violation, is_io, is_var, CommandInvocationWithIOVars
from .props_par import with_


def arg_of(x):
    return ('v', x) if is_var(x) else ('s', x if isinstance(x, str) else x.get_name())


def view(inv):
    """an invocation as plain data"""
    fl = []
    for f in inv.flag_option_list:
        arg = getattr(f, 'option_arg', None)
        fl.append(('flag', f.get_name()) if arg is None else ('opt', f.get_name()) + arg_of(arg))
    none = lambda x: None if x is None else x
    return {'cmd': inv.cmd_name, 'flags': fl, 'ops': [arg_of(x) for x in inv.operand_list],
            'in': none(inv.implicit_use_of_streaming_input), 'out': none(inv.implicit_use_of_streaming_output),
            'acc': {v: a.kind.name for v, a in inv.access_map.items()}}


def order(m):
    """the streams of a model in argument order"""
    vs = [f[3] for f in m['flags'] if f[0] == 'opt' and f[2] == 'v']
    vs += [x for t, x in m['ops'] if t == 'v']
    return vs + [x for x in (m['in'], m['out']) if x is not None]


def rename(m, sigma):
    """simultaneous replacement of streams"""
    s = lambda v: sigma.get(v, v)
    return {'cmd': m['cmd'], 'flags': [f[:3] + (s(f[3]),) if f[0] == 'opt' and f[2] == 'v' else f for f in m['flags']],
            'ops': [(t, s(x)) if t == 'v' else (t, x) for t, x in m['ops']],
            'in': None if m['in'] is None else s(m['in']), 'out': None if m['out'] is None else s(m['out']),
            'acc': {s(v): k for v, k in m['acc'].items()}}


def drop(m, gone):
    return {'cmd': m['cmd'], 'flags': [f for f in m['flags'] if not (f[0] == 'opt' and f[2] == 'v' and f[3] in gone)],
            'ops': [(t, x) for t, x in m['ops'] if not (t == 'v' and x in gone)],
            'in': None if m['in'] in gone else m['in'], 'out': None if m['out'] in gone else m['out'],
            'acc': {v: k for v, k in m['acc'].items() if v not in gone}}


INPUTS = ('STREAM_INPUT',)
OUTPUTS = ('STREAM_OUTPUT', 'OTHER_OUTPUT')


LISTS = {'get_operands_with_config_input': 'CONFIG_INPUT', 'get_operands_with_stream_input': 'STREAM_INPUT', 'get_operands_with_other_input': 'OTHER_INPUT',
         'get_operands_with_stream_output': 'STREAM_OUTPUT', 'get_operands_with_other_output': 'OTHER_OUTPUT', 'get_options_with_other_output': 'OTHER_OUTPUT'}


def lists_agree(line, inv):
    """the lists an invocation reports hold what its arguments say, in their order"""
    for name, kind in LISTS.items():
        f = getattr(inv, name, None)
        if f is None:
            continue
        if 'options' in name:
            want = [x for x in inv.flag_option_list if is_io(getattr(x, 'option_arg', None)) and x.option_arg.access.kind.name == kind]
        else:
            want = [x for x in inv.operand_list if (x.access.kind.name == kind if is_io(x) else kind == 'CONFIG_INPUT')]
        for _ in range(2):
            got = f()
            if [id(x) for x in got] != [id(x) for x in want]:
                raise Violation('streams listed: %s() of %r gives %s' % (name, line, [str(getattr(x, 'option_arg', x).get_name()) for x in got]))
            got.append(None)        # the list belongs to the caller


class Live:
    """an invocation, its model, and what each stream of the main one stands for"""

    def __init__(self, name, inv, model):
        self.name, self.inv, self.model = name, inv, model


class C13(C07):
    pid = 'C13'
    quick_n = 250000
    rule = ('case = random command line + files + history of up to 12 re-plumbing operations on a growing set of invocations, decided by the '
            'scheduler, then up to 4 attempts to run it during which channels fail and are replaced; non-trivial = at least one operation changed '
            'an invocation and it mentions a stream')
    real = REAL + ['Mapper, Aggregator, their specifications']
    stubs = STUBS + ['producers and consumers of the pipes', 'reference model of an invocation']
    assumptions = ASSUME + ['each stream of an invocation has its own variable and new variables are not in use otherwise']
    interleaving_measure = 'distinct hashes of the sequence of operations and process switches'

    def gen(self, r):
        case = C07.gen(self, r)
        case['nops'] = r.choice([0, 1, 1, 2, 3, 4, 6, 8, 12])
        case['fails'] = r.choice([0, 0, 1, 1, 2, 3])
        case['ids'] = r.randrange(1000) if r.random() < .8 else None
        return case

    def shrink(self, case):
        if case['fails']:
            yield with_(case, fails=0)
            yield with_(case, fails=case['fails'] - 1)
        if case['nops']:
            yield with_(case, nops=0)
            yield with_(case, nops=case['nops'] // 2)
            yield with_(case, nops=case['nops'] - 1)
        if case['ids'] is not None:
            yield with_(case, ids=None)
        yield from C07.shrink(self, case)

    def run(self, case, ch, stats):
        from .lib import Vars, Query, to_iovars
        line = case['line']
        rep = Report(line)
        if not rep.info:
            return 'no information'
        lists_agree(line, rep.q.with_io)
        fresh = Vars(case['ids'])
        rep.inv, rep.ms = to_iovars(rep.q.with_io, fresh)
        main = Live('main', rep.inv, view(rep.inv))
        self.compare(line, [], [main])
        varof = {m: m.var for m in rep.ms}
        live = [main]
        hist = []
        for _ in range(case['nops']):
            self.operation(case, rep, ch, fresh, live, varof, hist)
            self.compare(line, hist, live)
            stats['plumbing_operations'] = stats.get('plumbing_operations', 0) + 1
        stats['nontrivial'] = bool(hist) and bool(rep.ms)
        stats['hash'] = repr(hist)
        if rep.container:
            return 'container'
        base = self.original(case)
        if base is None:
            return 'rejected command line'
        # ---- move data; the attempts but the last are cut off by a failing channel, which is then replaced
        stats['failed_channels'] = 0
        for i in range(case['fails']):
            cands = [m for m in rep.ms if m.access.is_stream_input() or m.access.is_stream_output()]
            if not cands:
                break
            if self.rebuilt(case, rep, main.inv, rep.ms, varof, base, ch, stats, fail_at=1 + ch.choose(60)) == 'finished':
                pass        # the failure came too late to be noticed, the data is discarded all the same
            stats['failed_channels'] += 1
            broken = [m for m in cands if ch.choose(len(cands), .5) == 0] or [cands[ch.choose(len(cands))]]
            if ch.choose(2):
                for m in broken:
                    self.replace(main, varof[m], fresh.new(), hist, varof)
            else:
                ins = [m for m in rep.ms if m.access.is_stream_input()]
                outs = [m for m in rep.ms if m.access.is_stream_output()]
                self.substitute(main, [fresh.new() if m in broken else varof[m] for m in ins],
                                [fresh.new() if m in broken else varof[m] for m in outs], 'both', hist, varof)
            self.compare(line, hist, live)
        res = self.rebuilt(case, rep, main.inv, rep.ms, varof, base, ch, stats)
        stats['hash'] = repr(hist) + str(stats.get('hash'))
        stats['nontrivial'] = bool(hist) and bool(rep.ms)
        self.compare(line, hist, live)
        return res

    # -------------------------------------------------------------------------------------------- operations
    def replace(self, x, old, new, hist, varof):
        hist.append('%s: replace %s by %s' % (x.name, old, new))
        x.inv.replace_var(old, new)
        x.model = rename(x.model, {old: new})
        if x.name == 'main':
            for m in varof:
                if varof[m] == old:
                    varof[m] = new

    def substitute(self, x, ins, outs, which, hist, varof):
        hist.append('%s: substitute %s %s %s' % (x.name, which, ins, outs))
        a, b = list(ins), list(outs)
        if which == 'in':
            x.inv.substitute_inputs_in_cmd_invocation(a)
        elif which == 'out':
            x.inv.substitute_outputs_in_cmd_invocation(b)
        else:
            x.inv.substitute_inputs_and_outputs_in_cmd_invocation(a, b)
        if a != ins or b != outs:
            raise Violation('argument changed: %s changed the caller\'s list to %s %s' % (hist[-1], a, b))
        vs = order(x.model)
        sigma = {}
        if which != 'out':
            sigma.update(zip([v for v in vs if x.model['acc'][v] == 'STREAM_INPUT'], ins))
        if which != 'in':
            sigma.update(zip([v for v in vs if x.model['acc'][v] == 'STREAM_OUTPUT'], outs))
        x.model = rename(x.model, sigma)
        if x.name == 'main':
            for m in varof:
                varof[m] = sigma.get(varof[m], varof[m])
        # the caller goes on using its lists
        a.append(99999)
        b[:] = [99998]

    def operation(self, case, rep, ch, fresh, live, varof, hist):
        i = ch.choose(len(live))
        x = live[i]
        vs = order(x.model)
        ins = [v for v in vs if x.model['acc'][v] == 'STREAM_INPUT']
        outs = [v for v in vs if x.model['acc'][v] == 'STREAM_OUTPUT']

        def anew(old):
            """fresh streams, or its own ones in another order"""
            new = [fresh.new() for _ in old]
            if ch.choose(3) == 0:
                pool = list(old)
                for j in range(len(pool) - 1, 0, -1):
                    k = ch.choose(j + 1)
                    pool[j], pool[k] = pool[k], pool[j]
                new = [p if ch.choose(3) else n for p, n in zip(pool, new)]
            return new
        op = ch.choose(12)
        if op in (0, 1):
            self.substitute(x, anew(ins), [], 'in', hist, varof)
        elif op == 2:
            self.substitute(x, [], anew(outs), 'out', hist, varof)
        elif op == 3:
            self.substitute(x, anew(ins), anew(outs), 'both', hist, varof)
        elif op in (4, 5):
            if vs:
                self.replace(x, vs[ch.choose(len(vs))], fresh.new(), hist, varof)
        elif op == 6:
            self.replace(x, fresh.new(), fresh.new(), hist, {})
        elif op == 7 and x.name != 'main':
            if ch.choose(2):
                hist.append('%s: remove streaming inputs' % x.name)
                x.inv.remove_streaming_inputs()
                x.model = drop(x.model, ins)
            else:
                hist.append('%s: remove streaming outputs' % x.name)
                x.inv.remove_streaming_outputs()
                x.model = drop(x.model, outs)
        elif op == 8:
            hist.append('copy of %s' % x.name)
            live.append(Live('copy%d' % len(live), deepcopy(x.inv), x.model))
        elif op == 9:
            # rebuilt from its parts, which the caller then changes
            hist.append('rebuild of %s' % x.name)
            fl, ops, acc = list(x.inv.flag_option_list), list(x.inv.operand_list), dict(x.inv.access_map)
            inv = CommandInvocationWithIOVars(x.inv.cmd_name, fl, ops, x.inv.implicit_use_of_streaming_input,
                                              x.inv.implicit_use_of_streaming_output, acc)
            del fl[:], ops[:]
            acc.clear()
            live.append(Live('rebuilt%d' % len(live), inv, x.model))
        elif op == 10:
            inputs = x.inv.generate_inputs().get_streaming_inputs()
            outputs = x.inv.generate_outputs()
            hist.append('lists of %s' % x.name)
            # lists handed out belong to the caller
            inputs.append(99997)
            outputs.append(99996)
        elif op == 11:
            self.build(rep, ch, x, fresh, live, hist, ins, outs)

    def build(self, rep, ch, x, fresh, live, hist, ins, outs):
        """mapper or aggregator from an invocation"""
        if x.model['cmd'] != rep.inv.cmd_name or ch.choose(5) == 0:
            given = [fresh.new() for _ in range(1 + ch.choose(3))]
            out = fresh.new()
            hist.append('cat %s to %s' % (given, out))
            arg = list(given)
            inv = CommandInvocationWithIOVars.make_cat_command_invocation_with_io_vars(arg, out)
            if arg != given:
                raise Violation('argument changed: %s changed the caller\'s list to %s' % (hist[-1], arg))
            del arg[:]
            acc = {v: 'STREAM_INPUT' for v in given}
            acc[out] = 'STREAM_OUTPUT'
            live.append(Live('cat%d' % len(live), inv, {'cmd': 'cat', 'flags': [], 'ops': [('v', v) for v in given], 'in': None, 'out': out, 'acc': acc}))
            return
        plist, _ = rep.q.parallelizers()
        plist = [p for p in plist if p.are_all_parts_implemented()]
        if rep.q.other_outputs or len(ins) != 1 or len(outs) != 1 or not plist:
            return
        p = plist[ch.choose(len(plist))]
        n = p.get_info_mapper_aggregator()
        if ch.choose(2):
            i, o, aux = fresh.new(), fresh.new(), [fresh.new() for _ in range(n)]
            hist.append('mapper of %s with %s %s %s' % (x.name, i, o, aux))
            arg = list(aux)
            inv = p.get_actual_mapper(x.inv, i, o, arg)
            if arg != aux:
                raise Violation('argument changed: %s changed the caller\'s list to %s' % (hist[-1], arg))
            del arg[:]
            want_in, want_out = [i], [o] + aux
        elif n == 0:
            given = [fresh.new() for _ in range(2)]
            out = fresh.new()
            hist.append('aggregator of %s with %s %s' % (x.name, given, out))
            arg = list(given)
            inv = p.get_actual_aggregator(x.inv, arg, out)
            if arg != given:
                raise Violation('argument changed: %s changed the caller\'s list to %s' % (hist[-1], arg))
            del arg[:]
            want_in, want_out = given, [out]
        else:
            a, b, c = [[fresh.new() for _ in range(n + 1)] for _ in range(3)]
            hist.append('aggregator of %s with %s %s %s' % (x.name, a, b, c))
            args = [a[1:], b[1:], c[1:]]
            inv = p.get_actual_2_ary_aggregator_with_aux(a[0], args[0], b[0], args[1], c[0], args[2])
            if args != [a[1:], b[1:], c[1:]]:
                raise Violation('argument changed: %s changed the caller\'s lists to %s' % (hist[-1], args))
            for y in args:
                del y[:]
            want_in, want_out = a + b, c
        if inv is None:
            raise Violation('nothing built: %s' % hist[-1])
        m = view(inv)
        got = order(m)
        for vs, kind in ((want_in, 'STREAM_INPUT'), (want_out, 'STREAM_OUTPUT')):
            mine = [v for v in got if m['acc'].get(v) == kind]
            if mine != vs:
                raise Violation('streams of what was built: %s: %s are %s instead of %s' % (hist[-1], kind, mine, vs))
        live.append(Live('%s%d' % (hist[-1].split()[0], len(live)), inv, m))

    # -------------------------------------------------------------------------------------------- invariants
    def compare(self, line, hist, live):
        for x in live:
            ctx = lambda: '%s of %r after %s' % (x.name, line, hist)
            got = view(x.inv)
            m = x.model
            if got != m:
                what = [k for k in m if got[k] != m[k]]
                raise Violation('plumbing differs: %s: %s' % (ctx(), '; '.join('%s is %r, expected %r' % (k, got[k], m[k]) for k in what)))
            vs = order(m)
            if sorted(vs) != sorted(m['acc']):
                raise Violation('access records: %s mentions streams %s and knows the access of %s' % (ctx(), sorted(vs), sorted(m['acc'])))
            for i in range(2):
                ins = list(x.inv.generate_inputs().get_streaming_inputs())
                outs = list(x.inv.generate_outputs())
                other = bool(x.inv.has_other_outputs())
                w_in = [v for v in vs if m['acc'][v] in INPUTS]
                w_out = [v for v in vs if m['acc'][v] in OUTPUTS]
                if ins != w_in or outs != w_out:
                    raise Violation('streams listed: %s: inputs %s, outputs %s, expected %s and %s' % (ctx(), ins, outs, w_in, w_out))
                if other != any(k == 'OTHER_OUTPUT' for k in m['acc'].values()):
                    raise Violation('other outputs: %s: has_other_outputs is %s' % (ctx(), other))
