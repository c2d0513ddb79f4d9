"""One process whose whole environment is simulated: sets it up, imports the library, answers questions.  See props_env.py.

Must not import the library, nor anything that reads the environment, before `setup` has run."""
import builtins
import json
import os
import random
import sys
import time

PAD = []


def caller_in(pkg, depth=5):
    """is the library asking (directly or through the standard library)?"""
    f = sys._getframe(2)
    while f is not None and depth:
        fn = f.f_code.co_filename
        if fn.startswith(pkg):
            return True
        if '/simpash/' in fn:
            return False
        f = f.f_back
        depth -= 1
    return False


class Seams:
    def __init__(self, spec):
        self.spec = spec
        self.r = random.Random(spec['seed'])
        self.pkg = os.path.join(spec['repo'], 'pash_annotations') + os.sep
        self.asked = {}
        self.now = spec['clock']

    def count(self, what):
        self.asked[what] = self.asked.get(what, 0) + 1

    # ---- environment variables nobody has thought of
    def variable(self, key):
        """value of a variable the process was not started with, or None"""
        r = random.Random('%s %s' % (self.spec['seed'], key))
        return r.choice([None, None, '', '0', '1', 'true', 'yes', '/nonexistent', 'C', 'x', '-r', '100', 'f1:f2'])

    def environ(self):
        sim = self
        real = os.environ
        base = type(real)

        class Env(base):
            def __getitem__(self, key):
                try:
                    return base.__getitem__(self, key)
                except KeyError:
                    if isinstance(key, str) and caller_in(sim.pkg, 8):
                        sim.count('environment variable asked')
                        v = sim.variable(key)
                        if v is not None:
                            return v
                    raise

            def __contains__(self, key):
                try:
                    self[key]
                    return True
                except KeyError:
                    return False
        os.environ = Env(real._data, real.encodekey, real.decodekey, real.encodevalue, real.decodevalue)

    # ---- the clock
    def tick(self):
        self.count('clock read')
        self.now += self.r.choice([0, 1e-6, .001, 1, 3600, 86400, -1, -86400, 1e9 * self.r.random(), -.001])
        self.now = min(max(self.now, 0), 4e9)
        return self.now

    def clock(self):
        s = self
        real = {n: getattr(time, n) for n in ('localtime', 'gmtime', 'ctime', 'strftime', 'asctime')}
        for n in ('time', 'monotonic', 'perf_counter', 'process_time', 'thread_time'):
            setattr(time, n, s.tick)
            setattr(time, n + '_ns', lambda: int(s.tick() * 10 ** 9))
        for n in ('localtime', 'gmtime', 'ctime'):
            setattr(time, n, (lambda f: lambda secs=None: f(s.tick() if secs is None else secs))(real[n]))
        time.strftime = lambda fmt, t=None: real['strftime'](fmt, time.localtime() if t is None else t)
        time.asctime = lambda t=None: real['asctime'](time.localtime() if t is None else t)
        time.sleep = lambda secs: s.tick() and None
        import datetime
        real_dt, real_date = datetime.datetime, datetime.date

        class Datetime(real_dt):
            @classmethod
            def now(cls, tz=None):
                return real_dt.fromtimestamp(s.tick(), tz)

            @classmethod
            def utcnow(cls):
                return real_dt.utcfromtimestamp(s.tick())

            @classmethod
            def today(cls):
                return real_dt.fromtimestamp(s.tick())

        class Date(real_date):
            @classmethod
            def today(cls):
                return real_date.fromtimestamp(s.tick())
        datetime.datetime, datetime.date = Datetime, Date

    # ---- randomness, identity, machine
    def rest(self):
        s = self
        random.seed(self.spec['seed'])
        pool = random.Random('%s urandom' % self.spec['seed'])

        def urandom(n):
            s.count('randomness read')
            return pool.randbytes(n)
        os.urandom = urandom
        mask = self.spec['mask']
        real_id = builtins.id
        if mask:
            builtins.id = lambda x: real_id(x) ^ mask
        ids = self.r.randrange(2, 4000000)
        cpus = self.r.choice([1, 2, 3, 64, 1000, None])
        tty = self.spec['tty']

        def const(what, v):
            def f(*a, **k):
                s.count(what)
                return v
            return f
        os.getpid = const('machine asked', ids)
        os.cpu_count = const('machine asked', cpus)
        os.sched_getaffinity = const('machine asked', set(range(cpus or 1)))
        os.getloadavg = const('machine asked', (self.r.random() * 50, 1.0, 1.0))
        os.isatty = const('terminal asked', tty)
        os.get_terminal_size = const('terminal asked', os.terminal_size((self.r.choice([0, 1, 20, 80, 1000]), self.r.choice([0, 1, 24]))))
        os.uname = const('machine asked', os.uname_result((self.r.choice(['Linux', 'Darwin', 'FreeBSD', 'CYGWIN']), 'host%d' % ids, '1.0', '#1', 'x86_64')))
        os.getlogin = const('machine asked', 'user%d' % ids)
        for st in (sys.stdin, sys.stdout, sys.stderr):
            if st is not None:
                try:
                    st.isatty = const('terminal asked', tty)
                except AttributeError:
                    pass

    # ---- files nobody has thought of
    def files(self):
        """A file that does not exist, outside of the library's own folder, may exist elsewhere: with content of the library's own format, other text, as a folder."""
        s = self
        decoys = self.spec['decoys']
        if not decoys:
            return
        import io
        plumbing = ('genericpath', 'posixpath', 'pathlib', 'os', 'io', 'codecs', '_pyio', 'glob', 'fnmatch', 'ntpath', '__init__', '_abc', '_local')
        keep = (self.spec['repo'] + os.sep, sys.prefix + os.sep, sys.base_prefix + '/lib/', '/proc/', '/dev/', '/sys/')
        real_lstat = os.lstat
        fspath = os.fspath

        def asking():
            f = sys._getframe(2)
            for _ in range(12):
                if f is None:
                    return False
                fn = f.f_code.co_filename
                if fn.startswith(s.pkg):
                    return True
                name = fn.replace('<frozen ', '').rstrip('>').rsplit('/', 1)[-1]
                if name.endswith('.py'):
                    name = name[:-3]
                if fn != __file__ and name not in plumbing:
                    return False
                f = f.f_back
            return False

        def other(path):
            """the path to look at instead"""
            try:
                p = fspath(path)
            except TypeError:
                return path
            if isinstance(p, bytes) or not p or '\0' in p:
                return path
            try:
                full = os.path.normpath(p if p[0] == '/' else os.getcwd() + '/' + p)
            except OSError:
                return path
            if full.startswith(keep):
                return path
            try:
                real_lstat(full)
                return path
            except OSError:
                pass
            s.count('file elsewhere asked')
            r = random.Random('%s file %s' % (s.spec['seed'], full.replace(s.spec['base'], '')))    # the name of the scratch folder differs from run to run
            if full.endswith('.json') and r.random() < .6:
                return decoys + '/a.json'
            return r.choice([path, path, decoys + '/a.json', decoys + '/text', decoys + '/empty', decoys + '/folder', decoys + '/folder'])

        def over(mod, name):
            real = getattr(mod, name)

            def f(path='.', *a, **k):
                if asking():
                    return real(other(path), *a, **k)
                return real(path, *a, **k)
            setattr(mod, name, f)
        for n in ('stat', 'lstat', 'access', 'listdir', 'scandir', 'readlink'):
            over(os, n)
        real_open, real_os_open = io.open, os.open

        def sim_open(file, mode='r', *a, **k):
            if isinstance(mode, str) and not set(mode) & set('wax+') and not isinstance(file, int) and asking():
                return real_open(other(file), mode, *a, **k)
            return real_open(file, mode, *a, **k)

        def sim_os_open(path, flags, *a, **k):
            if not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) and asking():
                return real_os_open(other(path), flags, *a, **k)
            return real_os_open(path, flags, *a, **k)
        io.open = builtins.open = sim_open
        os.open = sim_os_open

    def layout(self):
        """other addresses for the objects to come"""
        r = self.r
        for _ in range(self.spec['pad']):
            PAD.append(bytearray(r.randrange(1, 600)))
        r.shuffle(PAD)
        del PAD[:len(PAD) // 2]


def setup(spec):
    s = Seams(spec)
    os.umask(spec['umask'])
    sys.setrecursionlimit(spec['recursion'])
    if spec['locale'] is not None:
        import locale
        try:
            locale.setlocale(locale.LC_ALL, spec['locale'])
        except locale.Error:
            pass
    if spec['gc']:
        import gc
        gc.set_threshold(*spec['gc'])
    sys.argv = spec['argv']
    s.environ()
    s.clock()
    s.rest()
    s.files()
    s.layout()
    time.tzset()
    return s


def import_first(spec):
    import importlib
    sys.path.insert(0, spec['repo'])
    if spec['tool']:
        sys.path.insert(0, os.path.join(spec['repo'], 'pash_annotations'))
    for m in spec['imports']:
        try:
            importlib.import_module(m)
        except Exception:
            pass        # a module nobody uses any more; what the queries need has to be importable afterwards
    from . import ask
    return ask


def main():
    spec_fd, out_fd = int(sys.argv[1]), int(sys.argv[2])
    data = b''
    while True:
        d = os.read(spec_fd, 1 << 16)
        if not d:
            break
        data += d
    spec = json.loads(data)
    if spec['close_std']:
        for fd in (0, 1, 2):
            os.close(fd)
        sys.stdin = sys.stdout = sys.stderr = None
    if spec['gone']:
        os.rmdir(spec['gone'])
    sims = setup(spec)
    status = 'ok'
    answers = []

    def work():
        nonlocal status
        try:
            ask = import_first(spec)
        except BaseException as e:
            import traceback
            status = 'import failed: %s: %s' % (type(e).__name__, traceback.format_exc()[-600:])
            return
        try:
            a = ask.Ask(keep=False, show=True)
            for q in spec['questions']:
                answers.append(a.answer(q))
                if spec['noise']:
                    sims.layout()
        except BaseException:
            import traceback
            status = 'error: ' + traceback.format_exc()
    if spec['thread']:
        import threading
        threading.stack_size(1 << 24)
        t = threading.Thread(target=work)
        t.start()
        t.join()
    else:
        work()
    out = json.dumps([status, answers, sims.asked]).encode()
    while out:
        out = out[os.write(out_fd, out):]
    os._exit(0)
