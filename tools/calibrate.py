"""Development aid, not a check: compares the program models with the real tools in a scratch directory.
usage: calibrate.py FIRST LAST [cmd,...]"""
import os
import random
import shutil
import subprocess
import sys
import tempfile
import collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from simpash import gen, par  # noqa: E402

HAVE = {'cat', 'cut', 'head', 'tail', 'tr', 'uniq', 'comm', 'wc', 'tee', 'rm', 'mv', 'mkfifo', 'seq', 'sort', 'grep', 'sed', 'diff', 'xargs', 'cp',
        'touch', 'echo'}


def real(case):
    d = tempfile.mkdtemp(prefix='calib')
    try:
        w = os.path.join(d, 'w')
        os.makedirs(os.path.join(w, 'd'))
        open(os.path.join(w, '.keep'), 'w').close()
        open(os.path.join(w, 'd', '.keep'), 'w').close()
        for n, t in case['files'].items():
            p = os.path.join(w, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(t.encode('latin-1'))
        os.chmod(d, 0o777)
        os.chmod(w, 0o777)
        r = subprocess.run([x.encode('latin-1') for x in case['argv']], input=(case['stdin'] or '').encode('latin-1'), cwd=w, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=10, env={'PATH': '/usr/bin:/bin', 'LC_ALL': 'C'})
        files = {}
        for base, ds, fs in os.walk(w):
            for f in fs + ds:
                p = os.path.join(base, f)
                rel = os.path.relpath(p, w)
                files['/w/' + rel] = open(p, 'rb').read() if os.path.isfile(p) else 'fifo' if not os.path.isdir(p) else 'dir'
        return r.returncode, r.stdout, files, r.stderr
    finally:
        shutil.rmtree(d)


def model(case):
    out, status, k, p = par.sequential(case)
    files = {q: bytes(n.data) if n.kind == 'file' else n.kind for q, n in k.nodes.items() if q.startswith('/w/') and q != '/w/__stdin'}
    return status, out, files, bytes(p.stderr)


def main():
    a, b = int(sys.argv[1]), int(sys.argv[2])
    cmds = sys.argv[3].split(',') if len(sys.argv) > 3 and sys.argv[3] else None
    which = sys.argv[4] if len(sys.argv) > 4 else 'par'
    bad = collections.Counter()
    ok = 0
    for s in range(a, b):
        r = random.Random('cal-%d' % s)
        if which == 'par':
            case = gen.par_case(r, cmds)
        else:
            case = gen.io_case(r, cmds)
        if case['argv'][0] not in HAVE or any('/w/' in x for x in case['argv']):
            continue
        try:
            m = model(case)
        except Exception as e:
            m = (repr(e), b'', {}, b'')
        try:
            x = real(case)
        except subprocess.TimeoutExpired:
            print('TIMEOUT', case['argv'])
            continue
        if m[:3] != x[:3]:
            bad[case['argv'][0]] += 1
            if bad[case['argv'][0]] < 12:
                print(s, case['argv'], 'stdin', case['stdin'], {n: d for n, d in case['files'].items()})
                print('   model', m[0], m[1][:200], m[3][:100])
                print('   real ', x[0], x[1][:200], x[3][:100])
                for f in set(m[2]) | set(x[2]):
                    if m[2].get(f) != x[2].get(f):
                        print('   file', f, m[2].get(f), x[2].get(f))
        else:
            ok += 1
    print('agree', ok, 'disagree', dict(bad))


if __name__ == '__main__':
    main()
