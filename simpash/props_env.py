"""C12: answers do not depend on the process environment."""
import ctypes
import json
import os
import random
import select
import shutil
import signal
import subprocess
import sys
import time

from . import lib
from .base import Prop, SCRATCH, scratch
from .isolate import bounded, in_child, Died, Stuck, TooLong
from .kernel import HarnessError
from .lib import Violation
from .props_iso import draw_lines, draw_question, first_difference, pool, text

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NAMES = ['HOME', 'PATH', 'LANG', 'LANGUAGE', 'LC_ALL', 'LC_CTYPE', 'LC_COLLATE', 'LC_NUMERIC', 'LC_MESSAGES', 'TZ', 'TMPDIR', 'COLUMNS', 'LINES', 'TERM', 'USER', 'LOGNAME',
         'SHELL', 'PWD', 'OLDPWD', 'POSIXLY_CORRECT', 'GREP_OPTIONS', 'GREP_COLORS', 'BLOCKSIZE', 'BLOCK_SIZE', 'XDG_CONFIG_HOME', 'XDG_DATA_HOME', 'PASH_TOP', 'PASH_DEBUG',
         'PASH_ANNOTATIONS_PATH', 'DEBUG', 'VERBOSE', 'NO_COLOR', 'FORCE_COLOR', 'CI', 'EDITOR', 'DISPLAY', 'IFS', 'CDPATH', 'ENV', 'BASH_ENV']
VALUES = ['', '0', '1', 'true', 'no', '/nonexistent', '.', 'C', 'POSIX', 'C.UTF-8', 'tr_TR.UTF-8', 'de_DE', 'UTC', 'Pacific/Kiritimati', 'EST5EDT', '-r', 'x' * 5000, 'caf\u00e9', 'a b',
          '$HOME', 'dumb']
PYTHON = [('PYTHONOPTIMIZE', ['1', '2']), ('PYTHONUTF8', ['0', '1']), ('PYTHONIOENCODING', ['ascii', 'latin-1', 'utf-8:replace']), ('PYTHONUNBUFFERED', ['1']),
          ('PYTHONDEVMODE', ['1']), ('PYTHONMALLOC', ['malloc', 'debug']), ('PYTHONINSPECT', ['']), ('PYTHONNODEBUGRANGES', ['1']), ('PYTHONWARNINGS', ['ignore', 'always', 'default']),
          ('PYTHONCOERCECLOCALE', ['0']), ('PYTHONFAULTHANDLER', ['1']), ('PYTHONASYNCIODEBUG', ['1']), ('PYTHONNOUSERSITE', ['1']), ('PYTHONTRACEMALLOC', ['1'])]
DECOY = json.dumps({'flag': [['-n', '--n'], ['-r'], ['-x', '--long']], 'option': [['-a', ''], ['-i', '']]})
_modules = []


def modules():
    """every module of the library that can be imported on its own"""
    if not _modules:
        root = os.path.dirname(lib.PKG)
        for d, ds, fs in os.walk(lib.PKG):
            ds.sort()
            for f in sorted(fs):
                if f.endswith('.py') and f not in ('annotation_cli.py', '__init__.py'):
                    _modules.append(os.path.relpath(os.path.join(d, f[:-3]), root).replace(os.sep, '.'))
        ok = [m for m in _modules if all(p.isidentifier() for p in m.split('.')) and 'converter' not in m and 'test' not in m.lower().split('.')[-1][:4]]
        _modules[:] = [m for m in ok if '.tests.' not in m]
    return _modules


_refs = {}


def reference(q):
    """the answer in the environment of this process (fixed by run.py), alone"""
    k = json.dumps(q)
    if k not in _refs:
        from .ask import Ask
        if len(_refs) > 30000:
            _refs.clear()
        _refs[k] = in_child(lambda: json.loads(json.dumps(Ask(keep=False, show=True).answer(q))))
    return _refs[k]


class C12(Prop):
    pid = 'C12'
    quick_n = 2400
    thorough_n = 120000
    time_unit = 'questions answered'
    interleaving_measure = 'distinct environments'
    rule = ('case = a whole process environment (hash seed, variables, locale, clock, randomness, working directory and its files, interpreter options, standard '
            'streams, order of imports, identity and address layout) and an order of 20-60 questions; always non-trivial')
    real = ['a new interpreter per run, the whole library, its data files']
    stubs = ['os.environ lookups by the library of variables that are not set (answered with drawn values)', 'files outside of the library that it asks for and that do not exist '
             '(drawn: missing, in its own format, other text, a folder)', 'time, datetime, random, os.urandom, id, isatty, uname, '
             'cpu_count, getpid']
    assumptions = ['the reference is the answer in one fixed environment', 'a file that makes Python import other code instead of the library is outside of the property',
                   'answers are compared as plain data and in printed form, addresses removed']

    def gen(self, r):
        k = r.randrange(3)
        lines = []
        for _ in range(r.choice([4, 6, 8])):
            lines += draw_lines(r, k)
        bare = sorted(pool(k))
        lines += [' '.join([c] + ['f%d' % i for i in range(1, r.randrange(5) + 1)]) for c in r.choices(bare, k=3)]
        qs = [draw_question(r, lines) for _ in range(r.choice([20, 30, 40, 60]))]
        qs += r.sample(qs, 4)
        r.shuffle(qs)
        py = {n: r.choice(v) for n, v in PYTHON if r.random() < (.3 if n == 'PYTHONOPTIMIZE' else .12)}
        return {'pool': k, 'questions': qs, 'seed': r.randrange(1 << 32), 'hashseed': r.choice([0, 1, 42, r.randrange(1, 4294967295), r.randrange(1, 4294967295)]),
                'variables': {n: r.choice(VALUES) for n in NAMES if r.random() < r.choice([0, .1, .4])}, 'python': py,
                'cwd': r.choice(['clean', 'decoys', 'decoys', 'operands', 'operands', 'root', 'gone', 'unreadable', 'package', 'tool']),
                'locale': r.choice([None, None, '', 'C', 'C.UTF-8', 'POSIX']), 'clock': r.choice([0, 1e9, 1.7e9, 2 ** 31 - 2, 2 ** 31 + 5, 4e9 * r.random()]),
                'umask': r.choice([0o22, 0, 0o777, 0o77]), 'recursion': r.choice([1000, 1000, 3000, 100000]), 'gc': r.choice([None, None, [1, 1, 1], [0, 0, 0], [700, 1, 1]]),
                'mask': r.choice([0, 0, 0xffff0, 0x7fffffff0, 0x123450, 0xff0]), 'pad': r.choice([0, 0, 100, 3000]), 'noise': r.random() < .2, 'tty': r.random() < .5,
                'argv': r.choice([['x'], [''], ['prog', '--help'], ['-c', '-r', '-n'], []]), 'close_std': r.random() < .15, 'thread': r.random() < .15,
                'imports': r.sample(modules(), r.choice([0, 0, 1, 2, 5, len(modules())])), 'tool': r.random() < .15, 'nofile': r.choice([0, 0, 0, 20, 64]), 'elsewhere': r.random() < .5}

    def measure(self, case):
        return {k: v for k, v in case.items() if k != 'questions'}

    def shrink(self, case):
        qs = case['questions']
        n = len(qs)
        while n > 1:
            n //= 2
            for i in range(0, len(qs), n):
                if len(qs) > n:
                    yield dict(case, questions=qs[:i] + qs[i + n:])
        plain = {'hashseed': 0, 'variables': {}, 'python': {}, 'cwd': 'clean', 'locale': None, 'clock': 1e9, 'umask': 0o22, 'recursion': 1000, 'gc': None, 'mask': 0, 'pad': 0, 'noise': False,
                 'tty': False, 'argv': ['x'], 'close_std': False, 'thread': False, 'imports': [], 'tool': False, 'nofile': 0, 'elsewhere': False}
        for k, v in plain.items():
            if case[k] != v:
                yield dict(case, **{k: v})
        for k in ('variables', 'python'):
            for n in sorted(case[k]):
                yield dict(case, **{k: {a: b for a, b in case[k].items() if a != n}})
        n = len(case['imports'])
        while n > 1:
            n //= 2
            for i in range(0, len(case['imports']), n):
                yield dict(case, imports=case['imports'][:i] + case['imports'][i + n:])

    def names(self, case):
        """the commands asked about"""
        names = {q[1].split()[0] for q in case['questions'] if isinstance(q[1], str) and q[1].split()} | {'_default_data_for_commands', 'cat', 'grep'}
        return sorted(n for n in names if '/' not in n and '\0' not in n and len(n) < 100)

    def folder(self, case, base):
        """(working directory, directory that disappears)"""
        c = case['cwd']
        d = os.path.join(base, 'cwd')
        os.makedirs(d)
        if c == 'decoys':
            for p in ('', 'data', 'command_flag_option_info/data', 'parser/command_flag_option_info/data', 'pash_annotations/parser/command_flag_option_info/data'):
                os.makedirs(os.path.join(d, p), exist_ok=True)
                for q in self.names(case):
                    with open(os.path.join(d, p, q + '.json'), 'w') as f:
                        f.write(DECOY)
        elif c == 'operands':
            import shlex
            r = random.Random(case['seed'])
            for q in case['questions']:
                try:
                    ws = shlex.split(q[1])[1:] if isinstance(q[1], str) else []
                except ValueError:
                    continue
                for w in ws:
                    for w in {w, w.split('=', 1)[-1]}:
                        p = os.path.normpath(os.path.join(d, w))
                        if not w or '\0' in w or not p.startswith(d + '/') or len(w) > 200:
                            continue
                        try:
                            os.makedirs(os.path.dirname(p), exist_ok=True)
                            what = r.randrange(5)
                            if what == 0:
                                os.mkdir(p)
                            elif what == 1:
                                os.symlink('nowhere', p)
                            elif what == 2:
                                os.mkfifo(p)
                            else:
                                with open(p, 'x') as f:
                                    f.write('a\nb\n' if what == 3 else '')
                        except OSError:
                            pass
        elif c == 'unreadable':
            os.chmod(d, 0)
        elif c == 'root':
            return '/', None
        elif c == 'package':
            return os.path.dirname(lib.PKG), None
        elif c == 'tool':
            return lib.PKG, None
        elif c == 'gone':
            return d, d
        return d, None

    def run(self, case, ch, stats):
        base = scratch('c12')
        try:
            status, answers, asked = self.process(case, base)
        finally:
            shutil.rmtree(base, ignore_errors=True)
        told = self.told(case)
        if status == 'undecided':
            return 'undecided: too slow'
        if status.startswith('error'):
            raise HarnessError(status)
        if status != 'ok':
            raise Violation('environment matters: %s (%s)' % (status, told))
        for q, got in zip(case['questions'], answers):
            want = reference(q)
            if got != want:
                raise Violation('environment matters: question %s: %s (%s)' % (q, first_difference(got, want), told))
        for k, v in asked.items():
            stats[k] = v
        stats['sim_time'] = len(answers)
        for k in ('cwd', 'locale', 'hashseed'):
            if case[k]:
                stats[k if k == 'hashseed' else '%s: %s' % (k, case[k])] = 1
        for k in ('close_std', 'thread', 'tool', 'mask', 'noise', 'nofile', 'elsewhere'):
            if case[k]:
                stats[k] = 1
        for k in case['python']:
            stats['interpreter: ' + k] = 1
        stats['variables set'] = len(case['variables'])
        stats['modules imported first'] = len(case['imports'])
        stats['nontrivial'] = True
        stats['hash'] = json.dumps(self.measure(case))
        return 'ok'

    def told(self, case):
        plain = {'seed': 0, 'pool': 0, 'questions': 0, 'clock': 0, 'imports': 0}
        return ', '.join('%s=%s' % (k, text(v, 200)) for k, v in case.items() if k not in plain and v)

    def process(self, case, base):
        cwd, gone = self.folder(case, base)
        decoys = ''
        if case['elsewhere']:
            decoys = os.path.join(base, 'decoys')
            os.makedirs(os.path.join(decoys, 'folder'))
            for n, t in [('a.json', DECOY), ('text', 'a\nb\n'), ('empty', '')] + [('folder/%s.json' % q, DECOY) for q in self.names(case)]:
                with open(os.path.join(decoys, n), 'w') as f:
                    f.write(t)
        env = {'PYTHONHASHSEED': str(case['hashseed'])}
        for k, v in list(case['variables'].items()) + list(case['python'].items()):
            env[k] = v
        env.pop('PYTHONINSPECT', None)
        env['VERIF_REPO'] = os.path.dirname(lib.PKG)
        env['PYTHONPYCACHEPREFIX'] = SCRATCH + '/cache'
        spec = {k: case[k] for k in ('seed', 'clock', 'umask', 'recursion', 'locale', 'gc', 'mask', 'pad', 'noise', 'tty', 'argv', 'close_std', 'thread', 'imports', 'tool', 'questions')}
        spec.update(repo=os.path.dirname(lib.PKG), gone=gone, decoys=decoys, base=base)
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        null = os.open('/dev/null', os.O_RDWR)
        boot = 'import sys; sys.path.insert(0, %r); from simpash import envchild; sys.path.pop(0); sys.path.append(%r); envchild.main()' % (HERE, HERE)
        pid = os.fork()
        if pid == 0:
            try:
                bounded()
                signal.setitimer(signal.ITIMER_PROF, 0)
                for s in (signal.SIGPROF, signal.SIGPIPE):
                    signal.signal(s, signal.SIG_DFL)
                try:
                    ctypes.CDLL(None).personality(0x40000)      # no address randomisation, where this is allowed
                except Exception:
                    pass
                os.set_inheritable(r1, True)
                os.set_inheritable(w2, True)
                for fd in (0, 1, 2):
                    os.dup2(null, fd)
                os.close(w1)
                os.close(r2)
                if case['nofile']:
                    import resource
                    resource.setrlimit(resource.RLIMIT_NOFILE, (case['nofile'] + max(r1, w2), case['nofile'] + max(r1, w2)))
                os.chdir(cwd)
                os.execve(sys.executable, [sys.executable, '-P', '-S' if case['seed'] % 4 == 0 else '-s', '-c', boot, str(r1), str(w2)], env)
            finally:
                os._exit(99)
        for fd in (r1, w2, null):
            os.close(fd)
        out = []
        t0 = time.monotonic()
        try:
            data = json.dumps(spec).encode()
            try:
                while data:
                    data = data[os.write(w1, data[:65536]):]
            except BrokenPipeError:
                pass
            os.close(w1)
            while True:
                rd, _, _ = select.select([r2], [], [], 1)
                if rd:
                    d = os.read(r2, 1 << 20)
                    if not d:
                        break
                    out.append(d)
                elif time.monotonic() - t0 > 60:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    return 'undecided', [], {}
        finally:
            os.close(r2)
        _, st = os.waitpid(pid, 0)
        if not out:
            return 'no answer: the process ended with status %s' % st, [], {}
        return json.loads(b''.join(out))
