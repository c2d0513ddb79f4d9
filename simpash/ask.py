"""Questions to the library and plain-data forms of its answers.  Nothing here is asked when the module is imported."""
import enum
import re

from .lib import (parse, get_input_output_info_from_cmd_invocation, get_parallelizability_info_from_cmd_invocation, to_iovars, Vars,
                  CommandInvocationWithIOVars)

ADDR = re.compile(r'0x[0-9a-fA-F]+')


def dump(x, depth=0):
    """an object as plain data; attributes starting with an underscore are private"""
    if x is None or isinstance(x, (bool, int, str, float)):
        return x
    if isinstance(x, enum.Enum):
        return '%s.%s' % (type(x).__name__, x.name)
    if depth > 40:
        return '...'
    if isinstance(x, (list, tuple)):
        return [dump(y, depth + 1) for y in x]
    if isinstance(x, (set, frozenset)):
        return {'set': sorted((dump(y, depth + 1) for y in x), key=repr)}
    if isinstance(x, dict):
        return {'map': sorted(([dump(k, depth + 1), dump(v, depth + 1)] for k, v in x.items()), key=repr)}
    if hasattr(x, '__dict__'):
        return {'class': type(x).__name__,
                'is': {k: dump(v, depth + 1) for k, v in sorted(vars(x).items()) if not k.startswith('_')}}
    return ADDR.sub('0x', repr(x))


def printed(x):
    return ADDR.sub('0x', str(x))


class Ask:
    """asks questions; keeps the objects handed out with their dumps, to see whether anything changes them later"""

    def __init__(self, keep=True, show=False):
        self.kept = []          # [what, object, dump]
        self.keep = keep
        self.show = show
        self.shared = {}        # line -> objects several questions use

    @property
    def trace(self):
        import traceback
        return ''.join(traceback.format_exception(self.exc))

    def hand(self, what, obj):
        d = dump(obj)
        if self.keep and obj is not None:
            self.kept.append([what, obj, d])
        return [d, printed(obj)] if self.show else d

    def changed(self, skip=()):
        """first object handed out which is no longer what it was"""
        for what, obj, d in self.kept:
            if any(obj is s for s in skip):
                continue
            now = dump(obj)
            if now != d:
                return what, d, now
        return None

    def objects(self, line, use_shared=False):
        """[parsed, io, with_io, par]"""
        if use_shared and line in self.shared:
            return self.shared[line]
        inv = parse(line)
        io = get_input_output_info_from_cmd_invocation(inv)
        with_io = None
        if io is not None:
            with_io = io.apply_input_output_info_to_command_invocation(inv)
        par = get_parallelizability_info_from_cmd_invocation(inv)
        return [inv, io, with_io, par]

    def share(self, line):
        """objects of a line which later questions use together"""
        try:
            o = self.objects(line)
        except Exception:
            return
        self.shared[line] = o
        for what, x in zip(('parsed', 'info', 'applied', 'parallelizability'), o):
            self.hand('%s of %s' % (what, line), x)
        if o[2] is not None and not o[1].has_other_outputs():
            v, _ = to_iovars(o[2], Vars(5))
            self.shared[line] = o + [v]
            self.hand('plumbed %s' % line, v)

    def answer(self, q, use_shared=False):
        """plain-data answer of one question; exceptions of the library are answers as well"""
        try:
            return getattr(self, 'q_' + q[0])(*q[1:], use_shared)
        except Exception as e:
            self.exc = e
            return ['raised', type(e).__name__]

    def q_parse(self, line, s):
        return [self.hand('parse ' + line, parse(line))]

    def q_io(self, line, s):
        inv = self.shared[line][0] if s and line in self.shared else parse(line)
        before = dump(inv)
        io = get_input_output_info_from_cmd_invocation(inv)
        res = [self.hand('io ' + line, io)]
        if io is not None:
            res.append(bool(io.has_other_outputs()))
            res.append(self.hand('applied ' + line, io.apply_input_output_info_to_command_invocation(inv)))
            again = dump(io.apply_input_output_info_to_command_invocation(inv))
            d = res[2][0] if self.show else res[2]
            res.append('same' if again == d and bool(io.has_other_outputs()) == res[1] else 'second answer differs')
        res.append('same' if dump(inv) == before else 'argument changed')
        return res

    def q_par(self, line, s):
        inv = self.shared[line][0] if s and line in self.shared else parse(line)
        before = dump(inv)
        par = self.shared[line][3] if s and line in self.shared else get_parallelizability_info_from_cmd_invocation(inv)
        res = [self.hand('par ' + line, par)]
        if par is not None:
            res.append(self.hand('list of ' + line, par.get_inferred_parallelizer_list()))
            a = par.unpack_info()
            res.append(self.hand('unpacked ' + line, a))
            b = par.unpack_info()
            res.append('same' if dump(a) == dump(b) else 'second answer differs')
        res.append('same' if dump(inv) == before else 'argument changed')
        return res

    def q_build(self, line, pick, ids, s):
        """mapper and aggregators of the pick-th implemented parallelizer"""
        o = self.shared[line] if s and len(self.shared.get(line, ())) == 5 else self.objects(line)
        inv, io, with_io, par = o[:4]
        res = [dump(io), dump(par)]
        if io is None or par is None or io.has_other_outputs():
            return res
        v = o[4] if len(o) == 5 else to_iovars(with_io, Vars(5))[0]
        before = dump(v)
        plist = [p for p in par.get_inferred_parallelizer_list() if p.are_all_parts_implemented()]
        acc = list(v.access_map.values())
        if not plist or sum(a.is_stream_input() for a in acc) != 1 or sum(a.is_stream_output() for a in acc) != 1:
            return res
        p = plist[pick % len(plist)]
        pbefore = dump(p)
        n = p.get_info_mapper_aggregator()
        new = Vars(ids)
        while new.new() in v.access_map:
            pass
        var = lambda: 5000 + new.new()
        for _ in range(2):
            ids_ = [var() for _ in range(2 + n)]
            aux = ids_[2:]
            res.append(self.hand('mapper of ' + line, p.get_actual_mapper(v, ids_[0], ids_[1], aux)))
            res.append('same' if aux == ids_[2:] else 'argument changed')
            if n == 0:
                given = [var(), var()]
                g2 = list(given)
                res.append(self.hand('aggregator of ' + line, p.get_actual_aggregator(v, given, var())))
                res.append('same' if given == g2 else 'argument changed')
            else:
                x = [[var() for _ in range(n)] for _ in range(3)]
                y = [list(z) for z in x]
                res.append(self.hand('aggregator of ' + line, p.get_actual_2_ary_aggregator_with_aux(var(), x[0], var(), x[1], var(), x[2])))
                res.append('same' if x == y else 'argument changed')
        res.append('same' if dump(v) == before else 'argument changed')
        res.append('same' if dump(p) == pbefore else 'parallelizer changed')
        return res

    def q_plumb(self, line, ids, s):
        o = self.objects(line)
        if o[2] is None:
            return [None]
        new = Vars(ids)
        v, ms = to_iovars(o[2], Vars(5))
        res = [self.hand('plumbed ' + line, v)]
        var = lambda: 5000 + new.new()
        res.append(list(v.generate_inputs().get_streaming_inputs()))
        res.append(list(v.generate_outputs()))
        res.append(bool(v.has_other_outputs()))
        from copy import deepcopy
        w = deepcopy(v)
        ins = [var() for m in ms if m.access.is_stream_input()]
        outs = [var() for m in ms if m.access.is_stream_output()]
        w.substitute_inputs_and_outputs_in_cmd_invocation(ins, outs)
        res.append(dump(w))
        if ms:
            w.replace_var((ins + outs)[0] if ins + outs else ms[0].var, 9000)
            res.append(dump(w))
        w.remove_streaming_inputs()
        res.append(dump(w))
        w.remove_streaming_outputs()
        res.append(self.hand('unplugged ' + line, w))
        return res

    def q_cat(self, n, ids, s):
        new = Vars(ids)
        given = [new.new() for _ in range(n)]
        g2 = list(given)
        res = [self.hand('cat', CommandInvocationWithIOVars.make_cat_command_invocation_with_io_vars(given, 7000))]
        res.append('same' if given == g2 else 'argument changed')
        return res

    # ---- what a user does with results
    def use(self, pick, how):
        """changes one of the objects handed out, as a user may do; its new state is what it is expected to stay"""
        cands = [k for k in self.kept if hasattr(k[1], '__dict__') or isinstance(k[1], (list, tuple))]
        if not cands:
            return 'nothing'
        k = cands[pick % len(cands)]
        obj = k[1]
        done = 'nothing'
        shared = [x for v in self.shared.values() for x in v]
        if any(obj is x for x in shared):
            return 'nothing'
        if isinstance(obj, tuple):
            obj = obj[0]
        try:
            if isinstance(obj, list):
                obj.append(obj[0]) if how % 2 and obj else obj.clear()
                done = 'list'
            elif hasattr(obj, 'append_to_parallelizer_list') and how % 3 == 0:
                obj.set_commutative()
                if obj.parallelizer_list:
                    obj.append_to_parallelizer_list(obj.parallelizer_list[0])
                done = 'append'
            elif hasattr(obj, 'set_implicit_use_of_stdin') and how % 3 == 0:
                obj.set_implicit_use_of_stdin(True)
                obj.set_all_operands_as_config_arg_type_string()
                done = 'setters'
            elif hasattr(obj, 'remove_streaming_inputs') and how % 3 == 0:
                obj.remove_streaming_inputs()
                obj.remove_streaming_outputs()
                done = 'remove'
            else:
                names = [n for n, v in vars(obj).items() if isinstance(v, (list, dict)) and not n.startswith('_')]
                if names:
                    c = vars(obj)[names[how % len(names)]]
                    if isinstance(c, dict) or how % 2:
                        c.clear()
                    elif c:
                        c.append(c[0])
                    done = names[how % len(names)]
        except Exception as e:
            done = 'raised ' + type(e).__name__
        # several entries may be the same object, or one inside the other
        for x in self.kept:
            if x[1] is k[1] or x[1] is obj or self.inside(obj, x[1]):
                x[2] = dump(x[1])
        return done

    @staticmethod
    def inside(obj, other):
        """is obj part of other?"""
        seen = [other]
        done = set()
        while seen:
            x = seen.pop()
            if id(x) in done:
                continue
            done.add(id(x))
            if x is obj:
                return True
            if isinstance(x, (list, tuple, set, frozenset)):
                seen.extend(x)
            elif isinstance(x, dict):
                seen.extend(x.values())
            elif hasattr(x, '__dict__') and not isinstance(x, enum.Enum) and not isinstance(x, type):
                seen.extend(vars(x).values())
        return False
