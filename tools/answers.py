"""What the library under VERIF_REPO answers for many drawn command lines: tools/answers.py OUT SEED N [COMMAND].  Used by mutate.py to tell which changes matter."""
import json
import os
import random
import shlex
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from simpash import gen                     # noqa: E402
from simpash import lib                     # noqa: E402
from simpash.lib import Query, Vars, render, to_iovars         # noqa: E402
from pash_annotations.parser.parser import parse        # noqa: E402


def lines(seed, n, cmd):
    f = '/tmp/lines.%s.%s.%s' % (seed, n, cmd)
    if os.path.exists(f):
        return json.load(open(f))
    r = random.Random(seed)
    out = set()
    for _ in range(60 * n):
        c = gen.io_case(r) if r.random() < .5 else gen.par_case(r)
        l = c['line']
        if not cmd or l.split()[0] == cmd:
            out.add(l)
        if len(out) >= n:
            break
    out = sorted(out)
    with open(f + '.%d' % os.getpid(), 'w') as g:
        json.dump(out, g)
    os.rename(f + '.%d' % os.getpid(), f)
    return out


def argv(inv):
    return render(inv, lambda v: 'v%s' % v)


def plain(line):
    """[mentions, words, words of what each parallelizer builds] or None"""
    q = Query(line)
    if q.with_io is None:
        return None
    v, ms = to_iovars(q.with_io, Vars())
    res = [[repr(m) for m in ms] + [q.other_outputs, {k: a.kind.name for k, a in v.access_map.items()}], argv(v), []]
    acc = list(v.access_map.values())
    if q.other_outputs or sum(a.is_stream_input() for a in acc) != 1 or sum(a.is_stream_output() for a in acc) != 1:
        return res
    for p in q.parallelizers()[0]:
        if not p.are_all_parts_implemented():
            continue
        n = p.get_info_mapper_aggregator()
        m = p.get_actual_mapper(v, 5000, 5001, [6000 + i for i in range(n)])
        if n:
            a = p.get_actual_2_ary_aggregator_with_aux(7000, list(range(7100, 7100 + n)), 7001, list(range(7200, 7200 + n)), 7002, list(range(7300, 7300 + n)))
        else:
            a = p.get_actual_aggregator(v, [7000, 7001], 7002)
        s = p.get_splitter()
        res[2].append([str(s.kind if hasattr(s, 'kind') else s), argv(m), argv(a)])
    return res


def normal(words):
    i = parse(shlex.join(words))
    return [i.cmd_name] + [[f.get_name(), f.get_arg() if hasattr(f, 'get_arg') else None] for f in i.flag_option_list] + [[o.get_name() for o in i.operand_list]]


def main():
    out, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    if seed < 0:        # put the words found in a file into a normal form
        with open(out) as f:
            d = json.load(f)
        for r in d.values():
            for x in [r] if r and r[0] != 'raised' else []:
                r[1][0] = normal(r[1][0])
                for p in r[2]:
                    for a in p[1:]:
                        a[0] = normal(a[0])
        with open(out, 'w') as f:
            json.dump(d, f)
        return
    res = {}
    for l in lines(seed, n, sys.argv[4] if len(sys.argv) > 4 else ''):
        try:
            res[l] = plain(l)
        except (Exception, lib.Violation) as e:
            res[l] = ['raised', type(e).__name__]
    json.dump(res, open(out, 'w'))


main()
