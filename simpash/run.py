"""Check driver: seeded search over many simulated runs, replay, minimisation, evidence."""
import argparse
import hashlib
import json
import multiprocessing
import os
import random
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

from .kernel import Chooser, HarnessError  # noqa: E402
from .lib import Violation, REPO  # noqa: E402
from . import registry  # noqa: E402
from .isolate import bounded, in_child, Died, Stuck, TooLong  # noqa: E402

CPU_LIMIT = 30      # seconds of CPU one simulated run may use
CHUNK = 40


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


def h64(s):
    return hashlib.blake2b(s.encode('utf-8', 'surrogatepass'), digest_size=8).digest()


def in_repo(tb):
    """was library code involved in this exception?"""
    last = None
    for f in traceback.extract_tb(tb):
        last = f.filename
        if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep):
            return True
    return last is not None and os.path.basename(last) == 'lib.py' and os.path.dirname(last) == os.path.dirname(os.path.abspath(__file__))


def run_case(prop, case, ch, stats):
    """'ok'/reason, raises Violation or HarnessError"""
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        return prop.run(case, ch, stats)
    except (Violation, HarnessError):
        raise
    except Hang as e:
        signal.setitimer(signal.ITIMER_PROF, 0)
        if in_repo(e.__traceback__):
            raise Violation('library call does not return: %s' % case.get('line', ''))
        raise HarnessError('simulated run exceeded %d s of CPU: %s' % (CPU_LIMIT, json.dumps(case)[:2000]))
    except Exception as e:
        if in_repo(e.__traceback__):
            raise Violation('unusable answer: %r for %s' % (e, case.get('line', '')))
        if not isinstance(e, (OSError, MemoryError, EOFError)):
            # what the library reported is of a kind that never occurs as long as the property holds
            where = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation('the answer cannot be used: %r at %s:%d for %s' % (e, os.path.basename(where.filename), where.lineno, case.get('line', '')))
        raise HarnessError('%s in case %s' % (traceback.format_exc(), json.dumps(case)[:3000]))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def make(prop, seed, i):
    r = random.Random('case-%s-%s-%d' % (prop.pid, seed, i))
    return prop.gen(r), 'sched-%s-%s-%d' % (prop.pid, seed, i)


def vclass(msg):
    """class of a violation: what failed, without the particulars"""
    return msg.split(':', 1)[0]


class Acc:
    """what a batch covered"""

    def __init__(self):
        self.n = 0
        self.outcomes = {}
        self.sums = {}
        self.hashes = set()
        self.measures = set()
        self.samples = []
        self.sets = {}

    def add(self, prop, case, outcome, stats):
        self.n += 1
        self.outcomes[outcome] = self.outcomes.get(outcome, 0) + 1
        nt = stats.pop('nontrivial', False)
        hs = stats.pop('hash', None)
        for k, v in stats.items():
            if isinstance(v, set):
                self.sets.setdefault(k, set()).update(v)
            else:
                self.sums[k] = self.sums.get(k, 0) + v
        if nt:
            self.measures.add(h64(json.dumps(prop.measure(case))))
            if hs is not None:
                self.hashes.add(h64(str(hs)))
            if len(self.samples) < 2:
                self.samples.append(case)

    def merge(self, o):
        self.n += o.n
        for a, b in ((self.outcomes, o.outcomes), (self.sums, o.sums)):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
        for k, v in o.sets.items():
            self.sets.setdefault(k, set()).update(v)
        self.hashes |= o.hashes
        self.measures |= o.measures
        if len(self.samples) < 4:
            self.samples += o.samples[:1]


_done = []      # what this process has run so far


def batch(arg):
    pid, seed, lo, hi = arg
    prop = registry.get(pid)
    acc = Acc()
    _done.append([lo, hi])
    for i in range(lo, hi):
        case, sched = make(prop, seed, i)
        stats = {}
        try:
            outcome = run_case(prop, case, Chooser(sched), stats)
        except Violation as v:
            if prop.known(case, str(v)):
                acc.add(prop, case, 'known finding', stats)
                continue
            _done[-1][1] = i
            return acc, ('violation', i, str(v), list(_done))
        except HarnessError as e:
            return acc, ('error', i, str(e), [])
        acc.add(prop, case, outcome, stats)
    return acc, None


def attempt(prop, case, decisions):
    """(violation message or None, decisions taken)"""
    ch = Chooser(replay=decisions)
    try:
        run_case(prop, case, ch, {})
    except Violation as v:
        return str(v), ch.log
    except HarnessError:
        return None, ch.log
    return None, ch.log


def minimise(prop, case, decisions, msg, budget=60.0):
    """smaller case, then smaller schedule, same class of violation"""
    t0 = time.time()
    tries = 0
    cls = vclass(msg)

    def good(c, d):
        nonlocal tries
        tries += 1
        m, log = attempt(prop, c, d)
        if m is not None and vclass(m) == cls and not prop.known(c, m):
            return m, log
        return None, None
    # an all-zero schedule first: is the fault schedule needed at all?
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        for cand in prop.shrink(case):
            if time.time() - t0 > budget:
                break
            for d in ([], decisions):
                m, log = good(cand, d)
                if m:
                    case, decisions, msg, changed = cand, log, m, True
                    break
            if changed:
                break
    m, log = good(case, [])
    if m:
        decisions, msg = log, m
    # shorten and zero the schedule
    step = max(1, len(decisions) // 2)
    while step >= 1 and time.time() - t0 < 2 * budget:
        i = 0
        while i < len(decisions) and time.time() - t0 < 2 * budget:
            if any(decisions[i:i + step]):
                d = decisions[:i] + [0] * len(decisions[i:i + step]) + decisions[i + step:]
                m, log = good(case, d)
                if m:
                    decisions, msg = d, m
            i += step
        if step == 1:
            break
        step //= 2
        if len(decisions) > 3000 and step < len(decisions) // 256:
            break
    while decisions and decisions[-1] == 0:
        decisions = decisions[:-1]
    m, log = attempt(prop, case, decisions)
    if m is None:
        raise HarnessError('minimised schedule does not fail again')
    return case, decisions, m, tries


def write_replay(prop, seed, i, case, decisions, msg, sub='replays', before=()):
    d = os.path.join(VERIF, sub)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-seed%s-%s.json' % (prop.pid, seed, i))
    with open(path, 'w') as f:
        o = {'property': prop.pid, 'seed': str(seed), 'index': i, 'violation': msg, 'case': case, 'decisions': decisions}
        if before:
            o['before'] = before        # runs that come first in the same process
        json.dump(o, f, indent=1)
        f.write('\n')
    return path


def replay(path, quiet=False):
    with open(path) as f:
        o = json.load(f)
    prop = registry.get(o['property'])
    for b in o.get('before', []):
        attempt(prop, b['case'], b['decisions'])
    m, log = attempt(prop, o['case'], o['decisions'])
    if m is None:
        print('not reproduced')
        return 0
    print('VIOLATION property=%s replay=%s' % (prop.pid, path))
    print(m)
    return 1


def alone(prop, seed, before, case, sched):
    """[violation or None, decisions of all runs] of runs one after another in a fresh copy of this process"""
    def go():
        log = []
        for b in before:
            c, s = make(prop, seed, b) if isinstance(b, int) else b
            ch = Chooser(s)
            try:
                run_case(prop, c, ch, {})
            except (Violation, HarnessError):
                pass
            log.append([c, ch.log])
        ch = Chooser(sched)
        try:
            run_case(prop, case, ch, {})
        except Violation as v:
            return [str(v), log, ch.log]
        except HarnessError:
            pass
        return [None, log, ch.log]
    return in_child(go, stuck=60, limit=400)


def with_history(prop, seed, i, case, sched, msg, done, budget):
    """the violation needs what the same process has done before: which of it?"""
    t0 = time.time()
    items = []
    for a, b in done:
        items += range(a, b) if isinstance(b, int) else [[a, b]]
    k = 1
    found = None
    while True:
        sub = items[-k:]
        m, log, last = alone(prop, seed, sub, case, sched)
        if m is not None:
            found = sub
            break
        if k >= len(items) or time.time() - t0 > 3 * budget:
            break
        k *= 4
    if found is None:
        for _ in range(10):
            m, log, last = alone(prop, seed, [], case, sched)
            if m is not None:
                print('the code under test is not deterministic: the violation of run %s comes back only now and then' % i)
                found = []
                break
    if found is None:
        raise HarnessError('violation of run %s does not repeat: %s' % (i, msg[:500]))
    print('violation in run %s of seed %s after %d others in the same process, minimising: %s' % (i, seed, len(found), m[:600]), flush=True)
    t0 = time.time()
    step = max(1, len(found) // 2)
    while found and time.time() - t0 < 2 * budget:
        j = 0
        while j < len(found) and time.time() - t0 < 2 * budget:
            sub = found[:j] + found[j + step:]
            r = alone(prop, seed, sub, case, sched)
            if r[0] is not None and vclass(r[0]) == vclass(m):
                found, (m, log, last) = sub, r
            else:
                j += step
        if step == 1:
            break
        step //= 2
    path = write_replay(prop, seed, i, case, last, m, before=[{'case': c, 'decisions': d} for c, d in log])
    confirm(prop, path, m, 'after %d others' % len(log))


def report(prop, seed, i, case, sched, budget, done=(), first=''):
    try:
        m = alone(prop, seed, [], case, sched)[0] if isinstance(sched, str) and done else ''
    except (Died, Stuck, TooLong):
        m = ''
    if m is None:
        return with_history(prop, seed, i, case, sched, first, done, budget)
    ch = Chooser(sched) if isinstance(sched, str) else Chooser(replay=sched)
    try:
        run_case(prop, case, ch, {})
        raise HarnessError('violation of run %s does not repeat' % i)
    except Violation as v:
        msg = str(v)
    decisions = ch.log
    m, _ = attempt(prop, case, decisions)
    if m is None:
        raise HarnessError('replayed decisions do not fail: %s' % msg)
    print('violation in run %s of seed %s, minimising: %s' % (i, seed, msg[:600]), flush=True)
    case, decisions, msg, tries = minimise(prop, case, decisions, msg, budget)
    path = write_replay(prop, seed, i, case, decisions, msg)
    confirm(prop, path, msg, 'in %d runs' % tries)


def confirm(prop, path, msg, told):
    """replay in a fresh process"""
    r = subprocess.run([sys.executable, '-m', 'simpash.run', 'replay', path], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=300)
    ok = r.returncode == 1 and ('\n' + msg[:80]) in '\n' + r.stdout
    print('minimised %s; fresh process %s' % (told, 'reproduces it' if ok else 'DIFFERS: ' + r.stdout[-500:]))
    print(msg[:3000])
    print('VIOLATION property=%s replay=%s' % (prop.pid, path), flush=True)


def fixed_cases(prop):
    """explicit cases run every time: regressions of repaired defects and hand-made hard cases"""
    p = os.path.join(VERIF, 'corpus', prop.pid + '.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def corpus_job(arg):
    pid, what, i, case, seed, n = arg
    prop = registry.get(pid)
    acc = Acc()
    for s in range(n):
        _done.append([case, 'sched-%s-%s-%s%d-%d' % (pid, seed, what, i, s)])
        stats = {}
        sched = 'sched-%s-%s-%s%d-%d' % (pid, seed, what, i, s)
        try:
            outcome = run_case(prop, case, Chooser(sched), stats)
        except Violation as v:
            return acc, ('violation', i, str(v), sched)
        except HarnessError as e:
            return acc, ('error', i, str(e), sched)
        acc.add(prop, case, outcome, stats)
    return acc, None


def check(pid, tier, seed, n=None, workers=None, cap=None):
    t0 = time.time()
    prop = registry.get(pid)
    n = n or (prop.quick_n if tier == 'quick' else prop.thorough_n)
    cap = cap or (480 if tier == 'quick' else 5400)
    workers = workers or int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    print('property %s tier %s seed %s runs %d workers %d' % (pid, tier, seed, n, workers), flush=True)
    total = Acc()
    failure = None
    nfind = 0
    ncorpus = 0
    stopped = False
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(workers, bounded) as pool:
        # listed findings: still failing, and only those
        jobs = []
        finds = [f for f in known_findings() if f['property'] == pid]
        for i, f in enumerate(finds):
            jobs.append((pid, 'known', i, f['case'], seed, f.get('runs', 60)))
        fix = fixed_cases(prop)
        cj = [(pid, 'corpus', i, c, seed, prop.corpus_runs) for i, c in enumerate(fix)]
        for f, (acc, bad) in zip(finds, pool.imap(corpus_job, jobs)):
            if bad is None:
                print('listed finding no longer fails: %s' % f['what'])
            elif bad[0] == 'violation':
                nfind += 1
                print('KNOWN-FINDING: property=%s %s' % (pid, f['what']), flush=True)
            else:
                print('HARNESS-ERROR', bad[2])
                return 2
        for job, (acc, bad) in zip(cj, pool.imap(corpus_job, cj)):
            total.merge(acc)
            ncorpus += 1
            if bad is not None:
                failure = (bad[0], 'corpus%d' % bad[1], bad[2], job[3], bad[3])
                break
        if failure is None:
            jobs = ((pid, seed, lo, min(n, lo + CHUNK)) for lo in range(0, n, CHUNK))
            it = pool.imap(batch, jobs)
            pids = sorted(p.pid for p in pool._pool)
            while True:
                try:
                    acc, bad = it.next(20)
                except StopIteration:
                    break
                except multiprocessing.TimeoutError:
                    if sorted(p.pid for p in pool._pool) != pids:
                        print('HARNESS-ERROR a worker died')
                        return 2
                    if time.time() - t0 > cap + 120:
                        print('HARNESS-ERROR no progress')
                        return 2
                    continue
                total.merge(acc)
                if bad is not None:
                    kind, i, msg, done = bad
                    case, sched = make(prop, seed, i)
                    failure = (kind, i, msg, case, sched, done)
                    break
                if time.time() - t0 > cap:
                    stopped = True
                    break
        pool.terminate()
        pool.join()
    wall = time.time() - t0
    evidence(prop, tier, seed, total, wall, 1 if failure and failure[0] == 'violation' else 0, nfind, ncorpus, stopped, workers)
    if failure is not None:
        kind, i, msg, case, sched = failure[:5]
        if kind == 'error':
            print('HARNESS-ERROR run %s: %s' % (i, msg))
            return 2
        report(prop, seed, i, case, sched, 40 if tier == 'quick' else 300, failure[5] if len(failure) > 5 else (), msg)
        return 1
    decided = total.outcomes.get('ok', 0)
    print('runs %d decided %d distinct %d interleavings %d outcomes %s wall %.1f s' % (
        total.n, decided, len(total.measures), len(total.hashes), total.outcomes, wall))
    if not decided:
        print('HARNESS-ERROR nothing was decided')
        return 2
    return 0


def evidence(prop, tier, seed, acc, wall, violations, nfind, ncorpus, stopped, workers):
    faults = {k: v for k, v in sorted(acc.sums.items()) if k not in ('sim_time', 'steps', 'runs')}
    runs = acc.sums.get('runs', 0) + acc.n
    cov = {
        'evaluations': acc.n,
        'distinct_nontrivial': len(acc.measures),
        'rule': prop.rule,
        'samples': acc.samples[:3] or ['none'],
        'outcomes': acc.outcomes,
        'runs_per_hour': round(acc.n / wall * 3600) if wall else 0,
        'seeds_per_hour': round(acc.n / wall * 3600) if wall else 0,
        'simulated_steps': acc.sums.get('steps', 0),
        'simulated_time': acc.sums.get('sim_time', 0),
        'simulated_time_unit': prop.time_unit,
        'simulated_executions': runs,
        'injected': faults,
        'distinct': {k: len(v) for k, v in sorted(acc.sets.items())},
        'distinct_interleavings': len(acc.hashes),
        'interleaving_measure': prop.interleaving_measure,
        'explicit_cases': ncorpus,
        'known_findings_seen': nfind,
        'stopped_by_time_cap': stopped,
        'workers': workers,
        'real_components': prop.real,
        'stub_components': prop.stubs,
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    out = {'property': prop.pid, 'tier': tier, 'seed': int(seed), 'level': 'exploration', 'coverage': cov,
           'assumptions': prop.assumptions, 'wall_s': round(wall, 2), 'violations': violations}
    tmp = os.path.join(d, '.%s.%d.tmp' % (prop.pid, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(out, f, indent=1)
    os.replace(tmp, os.path.join(d, prop.pid + '.json'))


def digest(pid, seed, lo, hi):
    """determinism proof: one hash over cases, outcomes, decisions and statistics of a range of runs"""
    prop = registry.get(pid)
    h = hashlib.sha256()
    for i in range(lo, hi):
        case, sched = make(prop, seed, i)
        ch = Chooser(sched)
        stats = {}
        try:
            o = run_case(prop, case, ch, stats)
        except Violation as v:
            o = 'V ' + str(v)
        h.update(json.dumps([case, o, ch.log, sorted((k, str(sorted(v) if isinstance(v, set) else v)) for k, v in stats.items())]).encode())
    return h.hexdigest()


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest='what', required=True)
    c = sub.add_parser('check')
    c.add_argument('pid')
    c.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    c.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    c.add_argument('-n', type=int)
    c.add_argument('--workers', type=int)
    c.add_argument('--cap', type=float)
    r = sub.add_parser('replay')
    r.add_argument('path')
    g = sub.add_parser('digest')
    g.add_argument('pid')
    g.add_argument('seed')
    g.add_argument('lo', type=int)
    g.add_argument('hi', type=int)
    a = ap.parse_args()
    if os.environ.get('PYTHONHASHSEED') != '0' and a.what != 'digest':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-m', 'simpash.run'] + sys.argv[1:])
    try:
        if a.what == 'check':
            seed = a.seed if a.seed.lstrip('-').isdigit() else '1'
            rc = check(a.pid, a.tier, int(seed), a.n, a.workers, a.cap)
        elif a.what == 'replay':
            rc = replay(a.path)
        else:
            print(digest(a.pid, a.seed, a.lo, a.hi))
            rc = 0
    except HarnessError as e:
        print('HARNESS-ERROR', e)
        rc = 2
    except Exception:
        print('HARNESS-ERROR', traceback.format_exc())
        rc = 2
    from .base import clean_up
    clean_up()
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
