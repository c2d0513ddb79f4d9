"""C10: queries are isolated across threads and histories.  C11: an interrupted query leaves no trace."""
import json
import random
import sys

from . import gen, lib, threads
from .base import Prop
from .isolate import in_child, reference, Stuck, TooLong, Died
from .kernel import HarnessError
from .lib import Violation

_pools = {}
UNKNOWN = ['basename -s .c a.c', 'ls -l d', 'foo -x --long=3 a b', 'ln -s a b', 'cp a b', 'date +%s', 'foo', 'split -l 2 a', 'nl -b a x', 'dd if=a of=b']


def pool(k):
    """lines by command"""
    if k not in _pools:
        r = random.Random('pool-%s' % k)
        by = {}
        seen = set()

        def add(line):
            if line not in seen and '\0' not in line:
                seen.add(line)
                by.setdefault(line.split()[0], []).append(line)
        for _ in range(260):
            add(gen.par_case(r)['line'])
        for _ in range(420):
            add(gen.io_case(r)['line'])
        for u in UNKNOWN:
            add(u)
        # invocations nobody should write: words missing, repeated or out of place
        for l in r.sample(sorted(seen), 160):
            w = l.split(' ')
            for _ in range(r.choice([1, 1, 2])):
                i = r.randrange(1, len(w) + 1)
                what = r.randrange(4)
                if what == 0 and i < len(w):
                    del w[i]
                elif what == 1 and i < len(w):
                    w.insert(r.randrange(1, len(w) + 1), w[i])
                elif what == 2:
                    w.insert(i, r.choice(['a', '-', '--', '-x', '--no-such', "''", 'a b', '-n', '-o']))
                else:
                    w = w[:i]
            add(' '.join(w))
        # too few and too many words
        for c in sorted(by):
            for n in range(5):
                add(' '.join([c] + ['f%d' % i for i in range(1, n + 1)]))
        if len(_pools) > 3:
            _pools.clear()
        _pools[k] = by
    return _pools[k]


def draw_lines(r, k):
    by = pool(k)
    cmds = sorted(by)
    w = [min(len(by[c]), 12) for c in cmds]
    mine = r.choices(cmds, w, k=r.choice([1, 1, 1, 2]))
    cand = [l for c in sorted(set(mine)) for l in by[c]]
    lines = r.sample(cand, min(len(cand), r.choice([1, 2, 2, 3, 4])))
    if r.random() < .25:
        c = r.choices(cmds, w)[0]
        lines.append(r.choice(by[c]))
    return lines


def draw_question(r, lines):
    k = r.choices(['parse', 'io', 'par', 'build', 'plumb', 'cat'], [2, 4, 3, 5, 2, .4])[0]
    if k == 'cat':
        return ['cat', r.choice([1, 2, 3]), r.choice([1, 2])]
    l = r.choice(lines)
    if k == 'build':
        return [k, l, r.choice([0, 0, 1, 2]), r.choice([1, 2])]
    if k == 'plumb':
        return [k, l, r.choice([1, 2])]
    return [k, l]


def draw_steps(r, lines, n, use=.25):
    res = []
    for _ in range(n):
        if res and r.random() < use:
            res.append(['use', r.randrange(12), r.randrange(6)])
        res.append(['ask', draw_question(r, lines), r.random() < .5])
    return res


def questions(steps):
    return [s[1] for s in steps if s[0] == 'ask']


class Iso(Prop):
    time_unit = 'traced library steps (lines or bytecodes)'
    real = ['the whole library: parser, data files, all generators, annotation objects, parallelizers, mappers, aggregators',
            'CPython threads, exceptions and memory']
    stubs = ['thread scheduler (decides which thread runs after which line or bytecode)', 'threading.Lock/RLock/Condition and time.sleep (cooperative)']
    assumptions = ['references are computed by asking the question alone in a fork of a process which has imported the library and never called it',
                   'attributes whose name starts with an underscore are private and not part of an answer',
                   'preemption inside C code and inside the import system is not simulated']

    def within(self, case, ch, stats, body):
        """body(stats) in a child; its decisions and statistics come back"""
        def child():
            st = {}
            try:
                with threads.patched():
                    out = body(st)
                v = None
            except Violation as e:
                out, v = None, str(e)
            return {'out': out, 'v': v, 'log': ch.log, 'stats': {k: sorted(x) if isinstance(x, set) else x for k, x in st.items()}}
        try:
            res = in_child(child)
        except Stuck:
            return 'undecided: no progress'
        except TooLong:
            return 'undecided: too slow'
        except Died as e:
            return 'undecided: interpreter died'
        ch.log[:] = res['log']
        for k, v in res['stats'].items():
            stats[k] = set(v) if isinstance(v, list) else v
        if res['v'] is not None:
            raise Violation(res['v'])
        return res['out']

    def ref(self, q):
        return reference(q)


def text(x, n=400):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + '...'


def first_difference(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return first_difference(a.get(k), b.get(k), path + '.' + k)
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: %s instead of %s' % (path, text(a), text(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_difference(x, y, path + '[%d]' % i)
    return '%s: %s instead of %s' % (path, text(a), text(b))


class C10(Iso):
    pid = 'C10'
    quick_n = 14000
    thorough_n = 600000
    rule = ('case = warm-up history, 1 to 3 threads of questions and uses of results over a few related command lines, objects shared between threads; '
            'schedule = every preemption; non-trivial = at least two threads with at least one preemption inside the library, or a history of at '
            'least two questions')
    interleaving_measure = 'distinct hashes of the sequence of (thread, source line) at which the running thread was switched'

    def gen(self, r):
        k = r.randrange(2)
        lines = draw_lines(r, k)
        nt = r.choices([1, 2, 3], [2, 6, 2])[0]
        case = {'pool': k, 'lines': lines,
                'share': [l for l in lines if r.random() < .4],
                'warm': draw_steps(r, lines, r.choice([0, 0, 1, 2])),
                'threads': [draw_steps(r, lines, r.choice([1, 1, 2, 3]) if nt > 1 else r.choice([2, 3, 5])) for _ in range(nt)],
                'everywhere': r.random() < .25, 'opcodes': r.random() < .3, 'targets': r.choice([0, 1, 2, 4]) if nt > 1 else 0}
        if nt > 1 and r.random() < .3:
            case['threads'][1] = [list(s) for s in case['threads'][0]]
        return case

    def measure(self, case):
        return [case['share'], case['warm'], case['threads']]

    def shrink(self, case):
        for i in range(len(case['threads'])):
            if len(case['threads']) > 1:
                yield dict(case, threads=case['threads'][:i] + case['threads'][i + 1:])
        for i in range(len(case['share'])):
            yield dict(case, share=case['share'][:i] + case['share'][i + 1:])
        for i in range(len(case['warm'])):
            yield dict(case, warm=case['warm'][:i] + case['warm'][i + 1:])
        for t, steps in enumerate(case['threads']):
            for i in range(len(steps)):
                if len(steps) > 1:
                    yield dict(case, threads=case['threads'][:t] + [steps[:i] + steps[i + 1:]] + case['threads'][t + 1:])
        for t, steps in enumerate(case['threads']):
            for i, s in enumerate(steps):
                if s[0] == 'ask' and s[1][0] in ('build', 'plumb', 'par', 'io'):
                    for q in (['parse', s[1][1]], ['io', s[1][1]], ['par', s[1][1]]):
                        if q[0] != s[1][0] and (q[0] == 'parse' or s[1][0] in ('build', 'plumb')):
                            yield dict(case, threads=case['threads'][:t] + [steps[:i] + [['ask', q, s[2]]] + steps[i + 1:]] + case['threads'][t + 1:])
        if case['opcodes']:
            yield dict(case, opcodes=False)
        if case['everywhere']:
            yield dict(case, everywhere=False)
        if case['targets']:
            yield dict(case, targets=0)

    def run(self, case, ch, stats):
        qs = []
        for steps in [case['warm']] + case['threads']:
            for q in questions(steps):
                if q not in qs:
                    qs.append(q)
        refs = {json.dumps(q): self.ref(q) for q in qs}
        return self.within(case, ch, stats, lambda st: self.child(case, refs, ch, st, qs))

    def child(self, case, refs, ch, st, qs):
        from .ask import Ask
        main = Ask()
        asks = [main]
        errs = []

        def do(ask, steps, who):
            for s in steps:
                if s[0] == 'use':
                    ask.use(s[1], s[2])
                    continue
                got = json.loads(json.dumps(ask.answer(s[1], s[2])))
                want = refs[json.dumps(s[1])]
                if got != want:
                    errs.append('answer differs: question %s in %s: %s' % (s[1], who, first_difference(got, want) + (ask.trace if got[0] == 'raised' else '')))
                    return

        def verdict():
            if errs:
                raise Violation(errs[0])
            for a, who in zip(asks, ['main thread'] + ['thread %d' % i for i in range(9)]):
                c = a.changed()
                if c:
                    raise Violation('object changed: %s (handed out in %s) at %s' % (c[0], who, first_difference(c[2], c[1])))
        do(main, case['warm'], 'the warm-up')
        verdict()
        for l in case['share']:
            main.share(l)
        st['questions'] = len(qs)
        s = threads.Sched(ch, lib.REPO, case['everywhere'], case['opcodes'], case['targets'])
        bodies = []
        for i, steps in enumerate(case['threads']):
            a = Ask()
            a.shared = main.shared
            asks.append(a)
            bodies.append(lambda a=a, steps=steps, i=i: do(a, steps, 'thread %d' % i))
        stop = s.run(bodies)
        st['steps'] = s.steps
        st['sim_time'] = s.steps
        st['preemptions'] = s.preemptions
        st['threads'] = len(bodies)
        st['places_preempted'] = set(s.places)
        st['hash'] = repr(s.trail)
        st['nontrivial'] = s.preemptions > 0 or len(qs) > 1
        if errs:
            raise Violation(errs[0])
        if stop:
            raise Violation('%s: threads %s' % (stop, case['threads']))
        for t in s.threads:
            if t.error is not None:
                raise HarnessError('thread failed: %r' % t.error)
        verdict()
        # and once more, alone
        for q in qs:
            do(main, [['ask', q, False]], 'the main thread afterwards')
            do(main, [['ask', q, True]], 'the main thread afterwards, with shared objects')
        verdict()
        return 'ok'


class Timeout(Exception):
    """raised by a signal handler"""


class Abort(BaseException):
    """raised by a signal handler, not an Exception"""


EXCEPTIONS = [KeyboardInterrupt, MemoryError, RecursionError, Timeout, Abort, SystemExit]


def acceptable(got, want):
    """got is want, or parts of it are missing"""
    if got == want or got[:1] == ['raised']:
        return True
    if not any(x is None and (i >= len(want) or want[i] is not None) for i, x in enumerate(got)):
        return False
    rest = iter(want)
    return all(any(x == y for y in rest) for x in got if x is not None)


_counts = {}


class C11(Iso):
    pid = 'C11'
    quick_n = 12000
    thorough_n = 700000
    rule = ('case = history, a question interrupted (an exception at a drawn line or bytecode, a shallow stack, or failing allocations), follow-up '
            'questions; non-trivial = the interruption took place')
    interleaving_measure = 'distinct (question kind, exception, source line) interrupted'
    stubs = ['delivery of exceptions (from the trace function)', 'allocation failures (_testcapi.set_nomemory)', 'threading.Lock/RLock/Condition']
    assumptions = Iso.assumptions + ['no exception is delivered between entering a with or try statement and the start of its protection (CPython bpo-29988)']

    def gen(self, r):
        k = r.randrange(2)
        lines = draw_lines(r, k)
        hits = []
        for _ in range(r.choice([1, 1, 1, 2])):
            hits.append({'q': draw_question(r, lines), 'shared': r.random() < .5, 'exc': r.randrange(len(EXCEPTIONS)),
                         'how': r.choices(['count', 'line', 'stack', 'memory'], [5, 5, 1, .7])[0],
                         'everywhere': r.random() < .35, 'opcodes': r.random() < .4})
        return {'pool': k, 'lines': lines, 'share': [l for l in lines if r.random() < .4],
                'warm': draw_steps(r, lines, r.choice([0, 0, 1, 2, 3]), use=.15),
                'hits': hits, 'after': draw_steps(r, lines, r.choice([0, 1, 2]), use=.1)}

    def measure(self, case):
        return [case['share'], case['warm'], case['hits'], case['after']]

    def shrink(self, case):
        for k in ('hits', 'warm', 'after', 'share'):
            for i in range(len(case[k])):
                if k != 'hits' or len(case[k]) > 1:
                    yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})
        for i, h in enumerate(case['hits']):
            for c in ('everywhere', 'opcodes', 'shared'):
                if h[c]:
                    yield dict(case, hits=case['hits'][:i] + [dict(h, **{c: False})] + case['hits'][i + 1:])

    def count(self, h):
        """steps of the question alone"""
        k = json.dumps([h['q'], h['everywhere'], h['opcodes']])
        if k not in _counts:
            def fn():
                from .ask import Ask
                t = threads.Interrupter(lib.REPO, None, None, h['everywhere'], h['opcodes'])
                a = Ask(keep=False)
                with t:
                    a.answer(h['q'])
                return [t.steps, sorted(t.places.items())]
            if len(_counts) > 1500:
                _counts.clear()
            _counts[k] = in_child(fn)
        return _counts[k]

    def run(self, case, ch, stats):
        qs = []
        for q in [h['q'] for h in case['hits']] + questions(case['warm']) + questions(case['after']):
            if q not in qs:
                qs.append(q)
        refs = {json.dumps(q): self.ref(q) for q in qs}
        counts = [self.count(h) if h['how'] in ('count', 'line') else None for h in case['hits']]
        return self.within(case, ch, stats, lambda st: self.child(case, refs, ch, st, counts))

    def child(self, case, refs, ch, st, counts):
        with threads.single():
            try:
                return self.story(case, refs, ch, st, counts)
            except threads.Deadlock as e:
                raise Violation('deadlock: %s: %s' % (e, case['hits']))

    def story(self, case, refs, ch, st, counts):
        from .ask import Ask
        a = Ask()
        fired = []

        def context():
            return ' (interrupted: %s)' % fired if fired else ''

        def do(steps, who):
            for s in steps:
                if s[0] == 'use':
                    a.use(s[1], s[2])
                    continue
                got = json.loads(json.dumps(a.answer(s[1], s[2])))
                want = refs[json.dumps(s[1])]
                if got != want:
                    raise Violation('answer differs: question %s %s%s: %s%s' % (
                        s[1], who, context(), first_difference(got, want), a.trace if got[0] == 'raised' else ''))

        def unchanged(who):
            c = a.changed()
            if c:
                raise Violation('object changed: %s %s%s at %s' % (c[0], who, context(), first_difference(c[2], c[1])))
        do(case['warm'], 'before any interruption')
        for l in case['share']:
            a.share(l)
        st['steps'] = 0
        for h, n in zip(case['hits'], counts):
            exc = EXCEPTIONS[h['exc']]
            old = t = None
            res = ['raised', 'nothing']
            name = exc.__name__
            try:
                if h['how'] == 'stack':
                    name = 'shallow stack'
                    old = sys.getrecursionlimit()
                    depth = 0
                    f = sys._getframe()
                    while f is not None:
                        depth, f = depth + 1, f.f_back
                    sys.setrecursionlimit(depth + 4 + ch.choose(20))
                    try:
                        res = a.answer(h['q'], h['shared'])
                    finally:
                        sys.setrecursionlimit(old)
                    t = None
                elif h['how'] == 'memory':
                    import _testcapi
                    name = 'no memory'
                    start = 1 + ch.choose([100, 1000, 6000][ch.choose(3)])
                    n = 1 + ch.choose(3) * ch.choose(400)
                    t = None
                    _testcapi.set_nomemory(start, start + n)
                    try:
                        res = a.answer(h['q'], h['shared'])
                    finally:
                        _testcapi.remove_mem_hooks()
                else:
                    if h['how'] == 'count':
                        t = threads.Interrupter(lib.REPO, 1 + ch.choose(max(1, n[0])), exc, h['everywhere'], h['opcodes'])
                    else:
                        place, m = n[1][ch.choose(len(n[1]))] if n[1] else (None, 1)
                        t = threads.Interrupter(lib.REPO, 1 + ch.choose(m, .4), exc, h['everywhere'], h['opcodes'], place)
                    with t:
                        res = a.answer(h['q'], h['shared'])
            except (Timeout, Abort, KeyboardInterrupt, SystemExit, MemoryError, RecursionError):
                res = ['raised', name]
            if t is not None:
                st['steps'] += t.steps
            hit = (t is not None and t.fired) or (t is None and res[0] == 'raised')
            if hit:
                where = t.fired if t is not None else h['how']
                fired.append('%s by %s at %s' % (h['q'], name, where))
                st['interrupted: ' + name] = st.get('interrupted: ' + name, 0) + 1
                st.setdefault('places_interrupted', set()).add(where)
            got = json.loads(json.dumps(res))
            want = refs[json.dumps(h['q'])]
            if not acceptable(got, want):
                raise Violation('partial answer: question %s%s: %s' % (h['q'], context(), first_difference(got, want)))
            if got[:1] != ['raised']:
                st['answered_nevertheless'] = st.get('answered_nevertheless', 0) + 1
            unchanged('during the interrupted question')
        st['sim_time'] = st['steps']
        st['hash'] = repr(fired)
        st['nontrivial'] = bool(fired)
        for h in case['hits']:
            do([['ask', h['q'], False], ['ask', h['q'], h['shared']]], 'asked again')
        do(case['after'], 'afterwards')
        for q in refs:
            do([['ask', json.loads(q), False]], 'in the end')
        unchanged('in the end')
        return 'ok' if fired else 'not interrupted'
