"""Systematic small changes of the library, to see which ones no check notices.

  mutate.py list                      number of changes by file
  mutate.py run OUT [seed] [count]    draws `count` changes, drops those the repository's tests notice, runs the checks against the others

Works on copies under /tmp/mut.*; nothing in /repo changes."""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1', LC_ALL='C.UTF-8')
SKIP = ('tests', 'converter', 'args-to-json', 'annotation_cli', 'ForTest', 'TestOne', 'TestTwo', 'CommandInvocationPrefix')
# quick looks, the most telling first
CHECKS = [('C13', 6000), ('C07', 10000), ('C06', 10000), ('C01', 20000), ('C02', 10000), ('C03', 10000), ('C04', 8000), ('C10', 60), ('C05', 4000), ('C11', 30), ('C12', 100), ('C08', 150)]


def files():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, 'pash_annotations')):
        ds.sort()
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), REPO)
            if any(s in p for s in SKIP):
                continue
            if f.endswith('.py') or (f.endswith('.json') and '/data/' in p):
                out.append(p)
    return out


SWAP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
COPIES = ('list', 'tuple', 'sorted', 'set', 'deepcopy', 'copy', 'dict', 'reversed')


def enums():
    """attribute name -> names it may be exchanged with"""
    out = {}
    for p in files():
        if not p.endswith('.py'):
            continue
        for c in ast.walk(ast.parse(open(os.path.join(REPO, p)).read())):
            if isinstance(c, ast.ClassDef):
                if any('Enum' in ast.unparse(b) for b in c.bases):
                    ns = [t.id for s in c.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)]
                else:
                    fs = [f for f in c.body if isinstance(f, ast.FunctionDef) and not f.name.startswith('_')]
                    for f in fs:
                        a = (len(f.args.args), bool(f.decorator_list))
                        sim = [g.name for g in fs if g is not f and (len(g.args.args), bool(g.decorator_list)) == a and set(g.name.split('_')) & set(f.name.split('_')) - {'get', 'is'}]
                        out.setdefault(f.name, sim)
                    continue
                for n in ns:
                    out[n] = [m for m in ns if m != n]
    return out


SIB = enums()


def sites(tree):
    """(path of field names to the node, list of labels)"""
    res = []

    def visit(n, path):
        ks = []
        if isinstance(n, ast.Compare) and type(n.ops[0]) in SWAP:
            ks.append('swap')
        if isinstance(n, ast.BoolOp):
            ks += ['andor'] + ['drop %d' % i for i in range(len(n.values))]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            ks.append('unnot')
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                ks.append('bool')
            elif isinstance(n.value, int):
                ks += ['plus', 'minus']
            elif isinstance(n.value, str) and n.value:
                ks.append('str')
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)) and isinstance(getattr(n, 'ctx', ast.Load()), ast.Load):
            ks += ['elt %d' % i for i in range(len(n.elts))]
        if isinstance(n, (ast.If, ast.IfExp)):
            ks += ['true', 'false']
        if isinstance(n, ast.Call):
            ks += ['kw %d' % i for i in range(len(n.keywords))]
            if len(n.args) == 2:
                ks.append('swapargs')
            name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
            if name in COPIES and len(n.args) <= 1:
                ks.append('uncopy')
            if isinstance(n.func, ast.Attribute) and n.func.attr in SIB:
                ks += ['call %s' % m for m in SIB[n.func.attr]]
        if isinstance(n, ast.Attribute) and n.attr in SIB and n.attr.isupper():
            ks += ['attr %s' % m for m in SIB[n.attr]]
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            ks.append('noslice')
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            ks.append('except')
        for f, v in ast.iter_fields(n):
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.stmt):
                        if isinstance(x, (ast.Raise, ast.AugAssign, ast.Assign, ast.Continue, ast.Break, ast.Assert, ast.If, ast.For, ast.Delete)) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Call):
                            res.append((path + [(f, i)], 'delete'))
                        if isinstance(x, ast.Return) and x.value is not None:
                            res.append((path + [(f, i)], 'return None'))
                        if isinstance(x, ast.If) and x.orelse:
                            res.append((path + [(f, i)], 'noelse'))
                    if isinstance(x, ast.AST) and f not in ('decorator_list',) and not (f == 'args' and isinstance(n, ast.arguments)):
                        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                            continue
                        if isinstance(x, (ast.Import, ast.ImportFrom)):
                            continue
                        visit(x, path + [(f, i)])
            elif isinstance(v, ast.AST) and f not in ('annotation', 'returns'):
                visit(v, path + [(f, None)])
        res.extend((path, k) for k in ks)
    visit(tree, [])
    return res


def apply(tree, path, k):
    parent = None
    n = tree
    for f, i in path:
        parent, pf, pi = n, f, i
        n = getattr(n, f) if i is None else getattr(n, f)[i]

    def put(new):
        if pi is None:
            setattr(parent, pf, new)
        else:
            getattr(parent, pf)[pi] = new
    line = getattr(n, 'lineno', 0)
    w = k.split(' ')
    before = ast.unparse(n)
    if k == 'swap':
        n.ops[0] = SWAP[type(n.ops[0])]()
    elif k == 'andor':
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif w[0] == 'drop':
        del n.values[int(w[1])]
        if len(n.values) == 1:
            put(n.values[0])
    elif k == 'unnot':
        put(n.operand)
    elif k == 'bool':
        n.value = not n.value
    elif k == 'plus':
        n.value += 1
    elif k == 'minus':
        n.value -= 1
    elif k == 'str':
        n.value = n.value[:-1]
    elif w[0] == 'elt':
        del n.elts[int(w[1])]
        if isinstance(n, ast.Set) and not n.elts:
            put(ast.parse('set()').body[0].value)
    elif k in ('true', 'false'):
        n.test = ast.Constant(k == 'true')
    elif w[0] == 'kw':
        del n.keywords[int(w[1])]
    elif k == 'swapargs':
        n.args.reverse()
    elif k == 'uncopy':
        put(n.args[0] if n.args else n.func.value)
    elif w[0] == 'call':
        n.func.attr = w[1]
    elif w[0] == 'attr':
        n.attr = w[1]
    elif k == 'noslice':
        put(n.value)
    elif k == 'except':
        n.type = ast.Name('Exception', ast.Load())
    elif k == 'delete':
        put(ast.Pass())
    elif k == 'return None':
        n.value = ast.Constant(None)
    elif k == 'noelse':
        n.orelse = []
    after = '' if k == 'delete' else ast.unparse(n)
    return '%d: %s: %s => %s' % (line, k, before[:160].replace('\n', '; '), after[:160].replace('\n', '; '))


def json_sites(d):
    res = []
    for kind in ('flag', 'option'):
        for i, e in enumerate(d.get(kind, [])):     # leaving one out only makes it unknown
            names = [x for x in e if isinstance(x, str) and x.startswith('-')]
            if len(names) > 1:
                res.append((kind, i, 'alias 0'))
            if kind == 'option':
                res.append((kind, i, 'toflag'))
            else:
                res.append((kind, i, 'tooption'))
    return res


def apply_json(d, s):
    kind, i, k = s
    e = d[kind][i]
    if k == 'remove':
        del d[kind][i]
    elif k.startswith('alias'):
        del e[int(k.split()[1])]
    elif k == 'toflag':
        del d[kind][i]
        d['flag'].append([x for x in e if isinstance(x, str) and x.startswith('-')])
    else:
        del d[kind][i]
        d['option'].append(e + [''])
    return '%s %s %s' % (kind, e, k)


def everything():
    out = []
    for p in files():
        s = open(os.path.join(REPO, p)).read()
        if p.endswith('.json'):
            out += [(p, x) for x in json_sites(json.loads(s))]
        else:
            out += [(p, x) for x in sites(ast.parse(s))]
    return out


NAMES = {'SetDiff': 'set_diff', 'CustomSort': 'custom_sort', 'CustomTr': 'custom_tr', 'AltBigramsAux': 'alt_bigrams_aux', 'BigramsAux': 'bigrams_aux', 'AltBigramAuxReduce': 'alt_bigram_aux_reduce'}


def command(p):
    """the command a file is about, or ''"""
    b = os.path.basename(p).rsplit('.', 1)[0]
    if p.endswith('.json'):
        return b
    for pre in ('InputOutputInfoGenerator', 'ParallelizabilityInfoGenerator'):
        if b.startswith(pre) and not b.endswith('_Interface'):
            b = b[len(pre):]
            return NAMES.get(b, b.lower())
    return ''


def answers(repo, cmd, out=None):
    f = out or '/tmp/answers.%s' % (cmd or 'all')
    if out or not os.path.exists(f):
        g = f + '.%d' % random.randrange(1 << 40)
        subprocess.run([PY, os.path.join(VERIF, 'tools', 'answers.py'), g, '1', '800' if cmd else '2500', cmd], env=dict(ENV, VERIF_REPO=repo), check=True, timeout=120,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        subprocess.run([PY, os.path.join(VERIF, 'tools', 'answers.py'), g, '-1', '0'], env=dict(ENV, VERIF_REPO=REPO), check=True, timeout=120)
        os.rename(g, f)
    return json.load(open(f))


def one(job):
    num, p, site = job
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    w = os.path.join(d, 'repo')
    rec = {'num': num, 'file': p}
    try:
        subprocess.check_call(['cp', '-a', REPO, w])
        f = os.path.join(w, p)
        s = open(f).read()
        if p.endswith('.json'):
            data = json.loads(s)
            rec['change'] = apply_json(data, site)
            new = json.dumps(data)
        else:
            tree = ast.parse(s)
            rec['change'] = apply(tree, site[0], site[1])
            new = ast.unparse(ast.fix_missing_locations(tree))
            try:
                compile(new, f, 'exec')
            except SyntaxError:
                rec['result'] = 'syntax'
                return rec
        open(f, 'w').write(new)
        o = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60'], cwd=w, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200).stdout
        if '43 passed' not in o.strip().splitlines()[-1]:
            rec['result'] = 'tests'
            return rec
        kind = 'other'
        cmd = command(p)
        a = answers(REPO, cmd)
        try:
            b = answers(w, cmd, os.path.join(d, 'answers'))
            diff = [l for l in a if a[l] != b[l]]
            rec['differ'] = [len(diff), diff[:3]]
            more = [l for l in diff if not (b[l] is None or a[l] and a[l][:2] == b[l][:2] and all(x in a[l][2] for x in b[l][2]))]
            rec['differ'] = [len(diff), len(more), more[:4]]
            if not diff:
                kind = 'same'
            elif not more:
                kind = 'less'
        except (subprocess.CalledProcessError, subprocess.TimeoutExpired) as e:
            rec['differ'] = str(e)[-100:]
        rec['kind'] = kind
        if kind == 'less' or kind == 'same' and not (site[-1] == 'uncopy' or p.endswith('BasicDatatypes.py')):
            rec['result'] = kind
            return rec
        v = os.path.join(d, 'verif')
        os.mkdir(v)
        for n in os.listdir(VERIF):
            if n not in ('seeded', '.git', 'evidence', 'tools'):
                subprocess.check_call(['cp', '-a', os.path.join(VERIF, n), v])
        os.makedirs(os.path.join(v, 'evidence'), exist_ok=True)
        for pid, n in CHECKS:
            r = subprocess.run([PY, '-m', 'simpash.run', 'check', pid, '-n', str(n), '--workers', '1', '--cap', '200'], cwd=v, env=dict(ENV, VERIF_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=900)
            if r.returncode:
                ls = [l for l in r.stdout.splitlines() if l.startswith(('VIOLATION', 'violation'))]
                rec.update(result=pid if r.returncode == 1 else 'rc%d %s' % (r.returncode, pid), told=(ls or r.stdout.splitlines()[-3:])[-1][:300])
                return rec
        rec['result'] = 'SURVIVED'
        return rec
    except Exception as e:
        rec['result'] = 'error %s %s' % (type(e).__name__, str(e)[:300])
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


def deep(num, pids):
    """the registered quick checks against one change"""
    p, site = everything()[num]
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    w = os.path.join(d, 'repo')
    try:
        subprocess.check_call(['cp', '-a', REPO, w])
        f = os.path.join(w, p)
        s = open(f).read()
        if p.endswith('.json'):
            data = json.loads(s)
            print(p, apply_json(data, site))
            new = json.dumps(data)
        else:
            tree = ast.parse(s)
            print(p, apply(tree, site[0], site[1]))
            new = ast.unparse(ast.fix_missing_locations(tree))
        open(f, 'w').write(new)
        v = os.path.join(d, 'verif')
        os.mkdir(v)
        for n in os.listdir(VERIF):
            if n not in ('seeded', '.git', 'evidence', 'tools'):
                subprocess.check_call(['cp', '-a', os.path.join(VERIF, n), v])
        for pid in pids:
            r = subprocess.run(['bash', 'checks/run.sh', pid, 'quick'], cwd=v, env=dict(ENV, VERIF_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print(num, pid, r.returncode, r.stdout.strip().splitlines()[-2:], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    al = everything()
    if sys.argv[1] == 'deep':
        return deep(int(sys.argv[2]), sys.argv[3:])
    if sys.argv[1] == 'list':
        c = {}
        for p, _ in al:
            c[p] = c.get(p, 0) + 1
        for p in c:
            print(c[p], p)
        print(len(al))
        return
    out = sys.argv[2]
    r = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    count = int(sys.argv[4]) if len(sys.argv) > 4 else len(al)
    idx = list(range(len(al)))
    r.shuffle(idx)
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)['num'] for l in open(out)}
    for c in sorted({command(p) for p, _ in al}):
        answers(REPO, c)
    jobs = [(i,) + al[i] for i in idx[:count] if i not in done]
    with ThreadPoolExecutor(int(os.environ.get('MUT_WORKERS', '8'))) as ex:
        for f in as_completed([ex.submit(one, j) for j in jobs]):
            rec = f.result()
            with open(out, "a") as g:
                g.write(json.dumps(rec) + '\n')


if __name__ == '__main__':
    main()
