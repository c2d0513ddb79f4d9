#!/usr/bin/env python3
"""Creates and verifies planted bugs.

  plant.py make            write seeded/<id>/ for every entry of tools/plants.py (patch made from the edits)
  plant.py verify [ids]    patch applies, builds, stable tests pass, demo 0 without and nonzero with it
  plant.py try [ids]       run this property's quick check against a patched scratch copy

Scratch copies live under /tmp/plant.* and are removed.  /opt/vp/test.sh is run on /repo's location, so `verify`
runs the same pytest command in the scratch copy instead."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'
PY = '/opt/venv/bin/python'
sys.path.insert(0, HERE)
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent/pycache')


def sh(cmd, cwd=None, env=None, timeout=1000):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def scratch():
    d = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    w = os.path.join(d, 'repo')
    subprocess.check_call(['cp', '-a', REPO, w])
    return d, w


def make():
    from plants import PLANTS
    for p in PLANTS:
        d, w = scratch()
        try:
            for fn, old, new in p['edits']:
                path = os.path.join(w, 'pash_annotations', fn)
                s = open(path).read()
                assert s.count(old) == 1, (p['id'], fn, s.count(old), old)
                open(path, 'w').write(s.replace(old, new))
            rc, diff = sh(['git', 'diff', '--no-color'], cwd=w)
            out = os.path.join(VERIF, 'seeded', p['id'])
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, 'patch.diff'), 'w').write(diff)
            open(os.path.join(out, 'demo.py'), 'w').write(p['demo'].lstrip('\n'))
            open(os.path.join(out, 'demo.sh'), 'w').write(
                '#!/bin/bash\n# run with cwd /repo; exit 0 if the property holds for this demonstration\n'
                'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
                'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(out, 'demo.sh'), 0o755)
            json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']},
                      open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        finally:
            shutil.rmtree(d)


def ids(args):
    return args or sorted(os.listdir(os.path.join(VERIF, 'seeded')))


def verify(names):
    base = json.load(open('/opt/vp/BASELINE.json'))
    bad = []
    for n in names:
        sd = os.path.join(VERIF, 'seeded', n)
        d, w = scratch()
        try:
            r0, o0 = sh(['bash', os.path.join(sd, 'demo.sh')], cwd=w)
            ra, oa = sh(['git', 'apply', os.path.join(sd, 'patch.diff')], cwd=w)
            rt, ot = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--continue-on-collection-errors'], cwd=w)
            r1, o1 = sh(['bash', os.path.join(sd, 'demo.sh')], cwd=w)
            last = ot.strip().splitlines()[-1]
            ok = r0 == 0 and ra == 0 and r1 != 0 and '43 passed' in last
            print('%-34s %s  clean=%d apply=%d patched=%d tests: %s | %s' % (n, 'ok ' if ok else 'BAD', r0, ra, r1, last, o1.strip().splitlines()[-1][:100] if o1.strip() else ''))
            if not ok:
                bad.append(n)
                print((o0 if r0 else '')[-600:], oa)
        finally:
            shutil.rmtree(d)
    print('bad:', bad)


def attempt(names):
    for n in names:
        sd = os.path.join(VERIF, 'seeded', n)
        meta = json.load(open(os.path.join(sd, 'meta.json')))
        d, w = scratch()
        try:
            sh(['git', 'apply', os.path.join(sd, 'patch.diff')], cwd=w)
            v = os.path.join(d, 'verif')
            subprocess.check_call(['cp', '-a', VERIF, v])
            shutil.rmtree(os.path.join(v, 'seeded'))
            rc, o = sh(['bash', 'checks/run.sh', meta['property'], 'quick'], cwd=v, env=dict(ENV, VERIF_REPO=w), timeout=1000)
            lines = [l for l in o.splitlines() if l.startswith(('VIOLATION', 'violation'))]
            print('%-34s %s rc=%d %s' % (n, meta['property'], rc, (lines or o.strip().splitlines()[-2:])[:2]), flush=True)
        finally:
            shutil.rmtree(d)


if __name__ == '__main__':
    {'make': lambda a: make(), 'verify': lambda a: verify(ids(a)), 'try': lambda a: attempt(ids(a))}[sys.argv[1]](sys.argv[2:])
