"""Models of the annotated programs (C locale). Every program is a generator over system calls."""
import re
import functools
import errno as E
from .kernel import SimError, Kernel
from .io import In, Out, write_all, open_in, read_file, err
from .getopt import getopt, longs, Usage

REG = {}


def cmd(*names):
    def deco(f):
        for n in names:
            REG[n] = f
        return f
    return deco


def program(argv):
    """generator function of a command line"""
    f = REG.get(argv[0])

    def main(p):
        if f is None:
            return 127
        try:
            r = yield from f(p, argv[1:])
            return r or 0
        except Usage as u:
            p.usage = True
            err(p, str(u))
        except SimError as e:
            err(p, argv[0] + ': ' + str(e.errno))
        except (ValueError, IndexError, re.error) as e:
            err(p, argv[0] + ': ' + repr(e))
        # buffered output still leaves the program
        p.early = True
        for o in p.outs:
            if o.fd in p.fds:
                yield from o.flush()
        return 2 if argv[0] in ('grep', 'diff', 'sort') else 1
    return main


def b(s):
    return s.encode('latin-1', 'replace')


def o2d(opts):
    """last value of every option"""
    return dict(opts)


def num(s):
    if not re.fullmatch(r'\d+', s):
        raise Usage('invalid number ' + s)
    return int(s)


MULT = {'': 1, 'b': 512, 'K': 1024, 'k': 1024, 'M': 1 << 20, 'kB': 1000, 'KB': 1000}


def count(s):
    m = re.fullmatch(r'\+?(\d+)([a-zA-Z]*)', s)
    if not m or m.group(2) not in MULT:
        raise Usage('invalid number ' + s)
    return int(m.group(1)) * MULT[m.group(2)]


def each_input(p, ops):
    """(name, fd or None)"""
    return ops if ops else ['-']


# ------------------------------------------------------------------------------------------------ cat
@cmd('cat')
def cat(p, a):
    opts, ops = getopt(a, 'AbeEnstTuv', longs('show-all=A number-nonblank=b show-ends=E number=n squeeze-blank=s show-tabs=T show-nonprinting=v'))
    k = set(x for x, _ in opts)
    if 'A' in k:
        k |= set('vET')
    if 'e' in k:
        k |= set('vE')
    if 't' in k:
        k |= set('vT')
    if 'b' in k:
        k.discard('n')
    out = Out(p)
    st = 0
    n = 0
    blanks = 0
    newline = True
    plain = not (k & set('bEnsTv'))
    for name in each_input(p, ops):
        try:
            fd = yield from open_in(p, name)
            inp = In(p, fd)
            while True:
                l = yield from (inp.block() if plain else inp.line())
                if not l:
                    break
                if plain:
                    yield from out.write(l)
                    continue
                if newline:
                    if l == b'\n':
                        blanks += 1
                        if 's' in k and blanks > 1:
                            continue
                    else:
                        blanks = 0
                body = l[:-1] if l.endswith(b'\n') else l
                o = b''
                if newline and ('n' in k or 'b' in k and body != b''):
                    n += 1
                    o += b'%6d\t' % n
                for c in body:
                    if c == 9:
                        o += b'^I' if 'T' in k else b'\t'
                    elif 'v' in k:
                        if c >= 128:
                            o += b'M-'
                            c -= 128
                        o += b'^' + bytes([c + 64]) if c < 32 else b'^?' if c == 127 else bytes([c])
                    else:
                        o += bytes([c])
                newline = l.endswith(b'\n')
                if newline:
                    o += b'$\n' if 'E' in k else b'\n'
                yield from out.write(o)
            if fd:
                yield ('close', fd)
        except SimError as e:
            err(p, name)
            st = 1
    yield from out.flush()
    return st


# ------------------------------------------------------------------------------------------------ cut
def range_of(i, rs, comp):
    """start of the (merged) selected range that holds position i"""
    if comp:
        while i > 1 and not in_ranges(i - 1, rs):
            i -= 1
        return i
    merged = []
    for lo, hi in sorted((lo, 10 ** 9 if hi is None else hi) for lo, hi in rs):
        if merged and lo <= merged[-1][1]:
            merged[-1][1] = max(hi, merged[-1][1])
        else:
            merged.append([lo, hi])
    for lo, hi in merged:
        if lo <= i <= hi:
            return lo
    return None


def ranges(s):
    res = []
    for part in re.split('[, ]', s):
        m = re.fullmatch(r'(\d*)(-?)(\d*)', part)
        if not m or part in ('', '-'):
            raise Usage('invalid list ' + s)
        lo, d, hi = m.groups()
        lo_ = int(lo) if lo else 1
        hi_ = (int(hi) if hi else None) if d else lo_
        if lo_ == 0 or hi_ == 0 or (hi_ is not None and hi_ < lo_):
            raise Usage('invalid range')
        res.append((lo_, hi_))
    return res


def in_ranges(i, rs):
    return any(lo <= i and (hi is None or i <= hi) for lo, hi in rs)


@cmd('cut')
def cut(p, a):
    opts, ops = getopt(a, 'b:c:d:f:nsz', longs('bytes:=b characters:=c fields:=f delimiter:=d only-delimited=s complement output-delimiter: zero-terminated=z'))
    d = o2d(opts)
    modes = [x for x in 'bcf' if x in d]
    if len(modes) != 1:
        raise Usage('one list needed')
    mode = modes[0]
    if mode != 'f' and ('d' in d or 's' in d):
        raise Usage('only with fields')
    rs = ranges(d[mode])
    comp = '--complement' in d
    delim = d.get('d', '\t')
    if len(delim) > 1:
        raise Usage('delimiter must be a single character')
    delim = b(delim) or b'\0'
    od = d.get('--output-delimiter')
    if od is not None:
        od = b(od) or b'\0'
    eol = b'\0' if 'z' in d else b'\n'
    out = Out(p)
    st = 0
    for name in each_input(p, ops):
        try:
            fd = yield from open_in(p, name)
            inp = In(p, fd, eol)
            if mode == 'f' and delim == eol:
                data = yield from inp.all()
                if data:
                    fs = data.split(eol)
                    if data.endswith(eol):
                        fs.pop()
                    if len(fs) == 1:
                        if 's' not in d:
                            yield from out.write(fs[0] + eol)
                        fs = []
                    sel = [x for i, x in enumerate(fs, 1) if in_ranges(i, rs) != comp]
                    if not fs:
                        continue
                    yield from out.write((od if od is not None else delim).join(sel) + eol)
                if fd:
                    yield ('close', fd)
                continue
            while True:
                l = yield from inp.line()
                if not l:
                    break
                body = l[:-1] if l.endswith(eol) else l
                if mode == 'f':
                    if delim not in body:
                        if 's' in d:
                            continue
                        o = body
                    else:
                        fs = body.split(delim)
                        o = (od if od is not None else delim).join(
                            x for i, x in enumerate(fs, 1) if in_ranges(i, rs) != comp)
                else:
                    o = b''
                    prev = None
                    for i in range(1, len(body) + 1):
                        if in_ranges(i, rs) != comp:
                            if od is not None and prev is not None and range_of(i, rs, comp) != prev:
                                o += od
                            o += body[i - 1:i]
                            prev = range_of(i, rs, comp)
                yield from out.write(o + eol)
            if fd:
                yield ('close', fd)
        except SimError:
            st = 1
    yield from out.flush()
    return st


# ------------------------------------------------------------------------------------------------ head, tail
def header(out, d, name, first, many):
    if 'v' in d or many and 'q' not in d:
        nm = 'standard input' if name == '-' else name
        yield from out.write((b'' if first else b'\n') + b'==> ' + b(nm) + b' <==\n')


def last_qv(opts):
    d = {}
    for k, v in opts:
        if k == 'q':
            d.pop('v', None)
        if k == 'v':
            d.pop('q', None)
        if k == 'n':
            d.pop('c', None)
        if k == 'c':
            d.pop('n', None)
        d[k] = v
    return d


@cmd('head')
def head(p, a):
    opts, ops = getopt(a, 'n:c:qvz', longs('lines:=n bytes:=c quiet=q silent=q verbose=v zero-terminated=z'))
    d = last_qv(opts)
    eol = b'\0' if 'z' in d else b'\n'
    bym = 'c' in d
    s = d['c'] if bym else d.get('n', '10')
    neg = s.startswith('-')
    n = count(s.lstrip('-'))
    out = Out(p)
    st = 0
    first = True
    for name in each_input(p, ops):
        try:
            fd = yield from open_in(p, name)
        except SimError:
            st = 1
            continue
        yield from header(out, d, name, first, len(ops) > 1)
        first = False
        inp = In(p, fd, eol)
        if neg:
            data = yield from inp.all()
            if bym:
                yield from out.write(data[:max(0, len(data) - n)])
            else:
                ls = data.split(eol)
                tail = ls.pop()
                ls = [x + eol for x in ls] + ([tail] if tail else [])
                for x in ls[:max(0, len(ls) - n)]:
                    yield from out.write(x)
        elif bym:
            left = n
            while left:
                x = yield from inp.block()
                if not x:
                    break
                yield from out.write(x[:left])
                left -= min(left, len(x))
            else:
                p.early = True
        else:
            for _ in range(n):
                x = yield from inp.line()
                if not x:
                    break
                yield from out.write(x)
            else:
                p.early = True
        p.used_stdin |= fd == 0
        if fd:
            yield ('close', fd)
    yield from out.flush()
    return st


@cmd('tail')
def tail(p, a):
    opts, ops = getopt(a, 'n:c:qvzs:f::F', longs('lines:=n bytes:=c quiet=q silent=q verbose=v zero-terminated=z sleep-interval:=s retry pid: max-unchanged-stats: follow::=f'))
    d = last_qv(opts)
    for k in ('s', '--pid', '--max-unchanged-stats'):
        if k in d:
            if k == 's':
                float(d[k])
            else:
                num(d[k])
    eol = b'\0' if 'z' in d else b'\n'
    bym = 'c' in d
    s = d['c'] if bym else d.get('n', '10')
    plus = s.startswith('+')
    n = count(s.lstrip('+-'))
    if n == 0 and not plus:
        p.early = True
        return 0
    out = Out(p)
    st = 0
    first = True
    for name in each_input(p, ops):
        try:
            fd = yield from open_in(p, name)
        except SimError:
            st = 1
            continue
        yield from header(out, d, name, first, len(ops) > 1)
        first = False
        inp = In(p, fd, eol)
        data = yield from inp.all()
        if bym:
            o = data[max(0, n - 1):] if plus else data[max(0, len(data) - n):]
        else:
            ls = data.split(eol)
            t = ls.pop()
            ls = [x + eol for x in ls] + ([t] if t else [])
            o = b''.join(ls[max(0, n - 1):] if plus else ls[max(0, len(ls) - n):])
        yield from out.write(o)
        if fd:
            yield ('close', fd)
    yield from out.flush()
    return st


# ------------------------------------------------------------------------------------------------ tr
CLASSES = {'alnum': 'A-Za-z0-9', 'alpha': 'A-Za-z', 'blank': '\t ', 'cntrl': None, 'digit': '0-9', 'graph': None,
           'lower': 'a-z', 'print': None, 'punct': None, 'space': None, 'upper': 'A-Z', 'xdigit': '0-9A-Fa-f'}


def tr_class(n):
    f = {'alnum': lambda c: chr(c).isalnum(), 'alpha': lambda c: chr(c).isalpha(), 'blank': lambda c: c in (9, 32),
         'cntrl': lambda c: c < 32 or c == 127, 'digit': lambda c: 48 <= c <= 57, 'graph': lambda c: 33 <= c < 127,
         'lower': lambda c: 97 <= c <= 122, 'upper': lambda c: 65 <= c <= 90, 'print': lambda c: 32 <= c < 127,
         'punct': lambda c: 33 <= c < 127 and not chr(c).isalnum(), 'space': lambda c: 9 <= c <= 13 or c == 32,
         'xdigit': lambda c: chr(c) in '0123456789abcdefABCDEF'}
    if n not in f:
        raise Usage('invalid character class')
    return [c for c in range(128) if f[n](c)]


def tr_set(s, complete_to=None):
    """expand a tr set to a list of byte values"""
    return list(tr_expand(s, complete_to)[0])


@functools.lru_cache(None)
def tr_expand(s, complete_to=None):
    """(byte values, [(class name, position)])"""
    marks = []
    s = b(s)
    toks = []
    i = 0
    esc = {ord('n'): 10, ord('t'): 9, ord('r'): 13, ord('a'): 7, ord('b'): 8, ord('f'): 12, ord('v'): 11, ord('\\'): 92}
    while i < len(s):
        c = s[i]
        if c == 92 and i + 1 < len(s):
            m = re.match(rb'[0-3][0-7]{0,2}|[0-7]{1,2}', s[i + 1:])
            if m:
                toks.append((int(m.group(), 8), True))
                i += 1 + m.end()
            else:
                toks.append((esc.get(s[i + 1], s[i + 1]), True))
                i += 2
        else:
            toks.append((c, False))
            i += 1
    res = []
    i = 0
    n = len(toks)

    def lit(j, ch):
        return j < n and toks[j] == (ord(ch), False)
    star = None
    while i < n:
        if lit(i, '[') and lit(i + 1, ':'):
            j = i + 2
            while j < n and not (lit(j, ':') and lit(j + 1, ']')):
                j += 1
            if j < n:
                cl = bytes(t[0] for t in toks[i + 2:j]).decode('latin-1')
                marks.append((cl, len(res)))
                res += tr_class(cl)
                i = j + 2
                continue
        if lit(i, '[') and lit(i + 1, '=') and lit(i + 3, '=') and lit(i + 4, ']'):
            res.append(toks[i + 2][0])
            i += 5
            continue
        if lit(i, '[') and lit(i + 2, '*'):
            j = i + 3
            while j < n and not toks[j][1] and chr(toks[j][0]).isdigit():
                j += 1
            if lit(j, ']'):
                ds = bytes(t[0] for t in toks[i + 3:j]).decode()
                k = int(ds, 8 if ds.startswith('0') else 10) if ds else 0
                if k:
                    res += [toks[i + 1][0]] * k
                else:
                    star = (len(res), toks[i + 1][0])
                i = j + 1
                continue
        if lit(i + 1, '-') and i + 2 < n:
            lo, hi = toks[i][0], toks[i + 2][0]
            if lo > hi:
                raise Usage('range in reverse order')
            res += list(range(lo, hi + 1))
            i += 3
            continue
        res.append(toks[i][0])
        i += 1
    if star is not None:
        k = max(0, (complete_to or 0) - len(res))
        res[star[0]:star[0]] = [star[1]] * k
    return res, marks


@cmd('tr')
def tr(p, a):
    opts, ops = getopt(a, 'cCdst', longs('complement=c delete=d squeeze-repeats=s truncate-set1=t'), permute=True)
    k = set('c' if x == 'C' else x for x, _ in opts)
    need = 1 if ('d' in k) != ('s' in k) else 2
    if len(ops) < need or len(ops) > 2 or ('d' in k and 's' not in k and len(ops) > 1):
        raise Usage('operands')
    s1 = tr_set(ops[0])
    if 'c' in k:
        ss = set(s1)
        s1 = [c for c in range(256) if c not in ss]
    s2 = tr_set(ops[1], len(s1)) if len(ops) == 2 else None
    table = None
    dele = None
    sq = None
    if 'd' in k:
        dele = set(s1)
        if 's' in k:
            if re.search(r'\[.[^]]?\*\d*\]', ops[1]):
                raise Usage('[c*] only when translating')
            sq = set(s2)
    elif s2 is not None:
        if not s2:
            raise Usage('empty set2')
        t1 = s1
        t2 = list(s2)
        m1, m2 = tr_expand(ops[0])[1], tr_expand(ops[1], len(s1))[1]
        if any(m not in ('upper', 'lower') for m, _ in m2):
            raise Usage('class in string2')
        if any('c' in k or not any(q == pos and n in ('upper', 'lower') for n, q in m1) for m, pos in m2):
            raise Usage('misaligned')
        if 't' in k:
            t1 = t1[:len(t2)]
        elif len(t2) < len(t1) and m2 and m2[-1][1] + 26 == len(t2):
            raise Usage('string2 ends with a class')
        if 'c' in k and m1 and not ((len(t2) == len(s1) or 't' not in k) and len(set(t2)) == 1):
            raise Usage('complemented class')
        if 't' not in k:
            t2 += [t2[-1]] * (len(t1) - len(t2))
        table = list(range(256))
        for x, y in zip(t1, t2):
            table[x] = y
        table = bytes(table)
        if 's' in k:
            sq = set(s2)
    else:
        sq = set(s1)
    inp = In(p, 0)
    out = Out(p)
    lastc = None
    while True:
        x = yield from inp.block()
        if not x:
            break
        if dele is not None:
            x = bytes(c for c in x if c not in dele)
        if table is not None:
            x = x.translate(table)
        if sq is not None:
            y = bytearray()
            for c in x:
                if c == lastc and c in sq:
                    continue
                y.append(c)
                lastc = c
            x = bytes(y)
        if x:
            yield from out.write(x)
    yield from out.flush()
    return 0


@cmd('custom_tr')
def custom_tr(p, a):
    # the tr of PaSh's examples, used on line-separable sets only
    r = yield from tr(p, a)
    return r


# ------------------------------------------------------------------------------------------------ uniq
@cmd('uniq')
def uniq(p, a):
    opts, ops = getopt(a, 'cdDiuzf:s:w:', longs('count=c repeated=d all-repeated::=D ignore-case=i unique=u zero-terminated=z skip-fields:=f skip-chars:=s check-chars:=w group::'))
    d = o2d(opts)
    eol = b'\0' if 'z' in d else b'\n'
    f = num(d['f']) if 'f' in d else 0
    s = num(d['s']) if 's' in d else 0
    w = num(d['w']) if 'w' in d else None
    if len(ops) > 2:
        raise Usage('extra operand')
    gm = None
    if '--group' in d:
        gm = d['--group'] or 'separate'
        if gm not in ('separate', 'prepend', 'append', 'both') or set(d) & set('cdDu'):
            raise Usage('group')
    dm = None
    if 'D' in d:
        dm = d['D'] or 'none'
        if dm not in ('none', 'prepend', 'separate') or 'c' in d:
            raise Usage('all-repeated')

    def key(l):
        i = 0
        for _ in range(f):
            while i < len(l) and l[i] in b' \t':
                i += 1
            while i < len(l) and l[i] not in b' \t':
                i += 1
        x = l[i + s:]
        if w is not None:
            x = x[:w]
        return x.lower() if 'i' in d else x
    fd = yield from open_in(p, ops[0] if ops else '-')
    ofd = 1
    if len(ops) == 2 and ops[1] != '-':
        ofd = yield ('open', ops[1], 'w')
    out = Out(p, ofd)
    inp = In(p, fd, eol)
    groups_out = 0
    cur = []

    def emit():
        nonlocal groups_out
        n = len(cur)
        if gm:
            if gm in ('prepend', 'both') or gm == 'separate' and groups_out:
                if not (gm == 'both' and groups_out):
                    yield from out.write(eol)
            for l in cur:
                yield from out.write(l + eol)
            if gm in ('append', 'both'):
                yield from out.write(eol)
            groups_out += 1
            return
        if dm:
            if n > 1 and 'u' not in d:
                if dm == 'prepend' or dm == 'separate' and groups_out:
                    yield from out.write(eol)
                for l in cur:
                    yield from out.write(l + eol)
                groups_out += 1
            elif n > 1:
                for l in cur[:-1]:
                    yield from out.write(l + eol)
            return
        if 'd' in d and n == 1 or 'u' in d and n > 1:
            return
        yield from out.write((b'%7d ' % n if 'c' in d else b'') + cur[0] + eol)
    while True:
        l = yield from inp.line()
        if not l:
            break
        if l.endswith(eol):
            l = l[:-1]
        if cur and key(cur[0]) == key(l):
            cur.append(l)
        else:
            if cur:
                yield from emit()
            cur = [l]
    if cur:
        yield from emit()
    yield from out.flush()
    return 0


# ------------------------------------------------------------------------------------------------ comm
@cmd('comm')
def comm(p, a):
    opts, ops = getopt(a, '123z', longs('check-order nocheck-order total output-delimiter: zero-terminated=z'))
    d = o2d(opts)
    if len(ops) != 2:
        raise Usage('operands')
    eol = b'\0' if 'z' in d else b'\n'
    od = b(d.get('--output-delimiter', '\t')) if d.get('--output-delimiter') != '' else b'\0'
    fds = []
    for o in ops:
        fd = yield from open_in(p, o)
        fds.append(fd)
    i1, i2 = In(p, fds[0], eol), In(p, fds[1], eol)
    out = Out(p)
    tot = [0, 0, 0]
    pre2 = b'' if '1' in d else od
    pre3 = (b'' if '1' in d else od) + (b'' if '2' in d else od)
    st = 0
    prev = [None, None]
    unpair = [False]
    order = [k for k, _ in opts if k.endswith('check-order')][-1:]
    check = order != ['--nocheck-order']
    strict = order == ['--check-order']
    if len(set(v for k, v in opts if k == '--output-delimiter')) > 1:
        raise Usage('multiple output delimiters')

    def nxt(i, inp):
        nonlocal st
        l = yield from inp.line()
        if not l:
            return None
        x = l[:-1] if l.endswith(eol) else l
        if check and prev[i] is not None and x < prev[i] and (strict or unpair[0]):
            if strict:
                raise ValueError('not in sorted order')
            st = 1
        prev[i] = x
        return x
    l1 = yield from nxt(0, i1)
    l2 = yield from nxt(1, i2)
    try:
        while l1 is not None or l2 is not None:
            if l2 is None or l1 is not None and l1 < l2:
                tot[0] += 1
                unpair[0] = True
                if '1' not in d:
                    yield from out.write(l1 + eol)
                l1 = yield from nxt(0, i1)
            elif l1 is None or l2 < l1:
                tot[1] += 1
                unpair[0] = True
                if '2' not in d:
                    yield from out.write(pre2 + l2 + eol)
                l2 = yield from nxt(1, i2)
            else:
                tot[2] += 1
                if '3' not in d:
                    yield from out.write(pre3 + l1 + eol)
                l1 = yield from nxt(0, i1)
                l2 = yield from nxt(1, i2)
        if '--total' in d:
            yield from out.write(b'%d' % tot[0] + od + b'%d' % tot[1] + od + b'%d' % tot[2] + od + b'total' + eol)
    except Usage:
        st = 1
        # real comm stops here without reading the rest; drain so that both variants behave alike
        yield from i1.all()
        yield from i2.all()
    yield from out.flush()
    return st


# ------------------------------------------------------------------------------------------------ wc
@cmd('wc')
def wc(p, a):
    opts, ops = getopt(a, 'clmLw', longs('bytes=c chars=m lines=l words=w max-line-length=L files0-from:'))
    d = o2d(opts)
    k = [x for x in 'lwmcL' if x in d] or ['l', 'w', 'c']
    if '--files0-from' in d:
        data = yield from read_file(p, d['--files0-from'])
        ops = [x.decode('latin-1') for x in data.split(b'\0') if x]
    out = Out(p)
    tot = dict.fromkeys('lwmcL', 0)
    st = 0
    for name in each_input(p, ops):
        try:
            data = yield from read_file(p, name)
        except SimError:
            st = 1
            continue
        r = {'l': data.count(b'\n'), 'w': len(data.split()), 'm': len(data), 'c': len(data),
             'L': max([len(x.expandtabs(8)) for x in data.decode('latin-1').split('\n')])}
        for x in 'lwmc':
            tot[x] += r[x]
        tot['L'] = max(tot['L'], r['L'])
        # unlike the real one, the columns have a fixed width: the real width depends on stat of the operands
        o = ' '.join('%7d' % r[x] for x in k) + (' ' + name if ops else '')
        yield from out.write(b(o) + b'\n')
    if len(ops) > 1:
        yield from out.write(b(' '.join('%7d' % tot[x] for x in k)) + b' total\n')
    yield from out.flush()
    return st


# ------------------------------------------------------------------------------------------------ tee
@cmd('tee')
def tee(p, a):
    opts, ops = getopt(a, 'aip', longs('append=a ignore-interrupts=i output-error::=p'))
    d = o2d(opts)
    if d.get('p') not in (None, 'warn', 'warn-nopipe', 'exit', 'exit-nopipe'):
        raise Usage('output-error')
    fds = [1]
    st = 0
    for o in ops:
        try:
            fd = yield ('open', o, 'a' if 'a' in d else 'w')
            fds.append(fd)
        except SimError:
            st = 1
            if (d.get('p') or '').startswith('exit'):
                return 1
    inp = In(p, 0)
    while True:
        x = yield from inp.block()
        if not x:
            return st
        for fd in fds:
            yield from write_all(fd, x)


# ------------------------------------------------------------------------------------------------ rm, mv, mkfifo, touch, cp, seq
def walk_rm(p, path, d):
    kind, _ = yield ('lstat', path)
    if kind == 'dir':
        if 'r' in d:
            for n in (yield ('listdir', path)):
                yield from walk_rm(p, path + '/' + n, d)
            yield ('rmdir', path)
        elif 'd' in d:
            yield ('rmdir', path)
        else:
            raise SimError(E.EISDIR, path)
    else:
        yield ('unlink', path)
    if 'v' in d:
        yield from write_all(1, b("removed '%s'\n" % path))


@cmd('rm')
def rm(p, a):
    opts, ops = getopt(a, 'fiIrRdv', longs('force=f interactive::=i one-file-system no-preserve-root preserve-root:: recursive=r dir=d verbose=v'))
    d = {('r' if k == 'R' else k): v for k, v in opts}
    order = [k for k, _ in opts if k in 'fiI']
    ask = bool(order) and (order[-1] != 'f') and d.get('i') not in ('never', 'no', 'none')
    if order and order[-1] == 'I' and len(ops) <= 3 and 'r' not in d:
        ask = False
    st = 0
    answers = In(p, 0)
    for o in ops:
        try:
            if ask:
                l = yield from answers.line()
                if not l.lower().startswith(b'y'):
                    continue
            yield from walk_rm(p, o, d)
        except SimError as e:
            if not ('f' in d and e.errno == E.ENOENT):
                st = 1
    return st


@cmd('mv')
def mv(p, a):
    opts, ops = getopt(a, 'bfinS:t:TuvZ', longs('backup::=b force=f interactive=i no-clobber=n suffix:=S target-directory:=t no-target-directory=T update=u verbose=v context=Z strip-trailing-slashes'))
    d = o2d(opts)
    suf = d.get('S', '~')
    last = [k for k, _ in opts if k in 'fin']
    noclob = bool(last) and last[-1] == 'n'
    ops = [o.rstrip('/') or '/' for o in ops]
    if 't' in d:
        srcs, dst, isdir = ops, d['t'], True
        if not srcs:
            raise Usage('missing operand')
    else:
        if len(ops) < 2:
            raise Usage('missing operand')
        srcs, dst = ops[:-1], ops[-1]
        isdir = False
        if 'T' not in d:
            try:
                kind, _ = yield ('stat', dst)
                isdir = kind == 'dir'
            except SimError:
                pass
        if len(srcs) > 1 and not isdir:
            raise Usage('not a directory')
    st = 0
    for s in srcs:
        t = dst + '/' + s.rsplit('/', 1)[-1] if isdir else dst
        try:
            yield ('lstat', s)
            if Kernel.norm(s, '/' + p.cwd) == Kernel.norm(t, '/' + p.cwd):
                st = 1
                continue
            ex = True
            try:
                yield ('lstat', t)
            except SimError:
                ex = False
            if ex and noclob:
                continue
            if ex and ('b' in d or 'S' in d):
                yield ('rename', t, t + suf)
            yield ('rename', s, t)
            if 'v' in d:
                yield from write_all(1, b("renamed '%s' -> '%s'\n" % (s, t)))
        except SimError:
            st = 1
    return st


@cmd('mkfifo')
def mkfifo(p, a):
    opts, ops = getopt(a, 'm:Z', longs('mode:=m context::=Z'))
    d = o2d(opts)
    mode = int(d['m'], 8) if 'm' in d else 0o644
    st = 0
    for o in ops:
        try:
            yield ('mknod', o, mode)
        except SimError:
            st = 1
    return st


@cmd('touch')
def touch(p, a):
    opts, ops = getopt(a, 'c', longs('no-create=c'))
    for o in ops:
        if opts:
            try:
                yield ('stat', o)
            except SimError:
                continue
        fd = yield ('open', o, 'a')
        yield ('close', fd)
    return 0


@cmd('cp')
def cp(p, a):
    opts, ops = getopt(a, 'fv', longs('force=f verbose=v'))
    if len(ops) != 2:
        raise Usage('operands')
    if Kernel.norm(ops[0], '/' + p.cwd) == Kernel.norm(ops[1], '/' + p.cwd):
        return 1
    if any(k == 'v' for k, _ in opts):
        yield from write_all(1, b("'%s' -> '%s'\n" % tuple(ops)))
    data = yield from read_file(p, ops[0])
    fd = yield ('open', ops[1], 'w')
    yield from write_all(fd, data)
    return 0


@cmd('echo')
def echo(p, a):
    yield from write_all(1, b(' '.join(a)) + b'\n')
    return 0


@cmd('seq')
def seq(p, a):
    # operands may be negative numbers
    i = 0
    opts = []
    ar = []
    while i < len(a):
        x = a[i]
        if re.fullmatch(r'-?\d+', x):
            break
        o, rest = getopt(a[i:i + 1], 'f:s:w', longs('format:=f separator:=s equal-width=w')) if not (
            x in ('-f', '-s', '--format', '--separator')) else getopt(a[i:i + 2], 'f:s:w', longs('format:=f separator:=s equal-width=w'))
        opts += o
        i += 2 if x in ('-f', '-s', '--format', '--separator') else 1
    d = o2d(opts)
    if 'f' in d and 'w' in d:
        raise Usage('format and equal width')
    v = [int(x) for x in a[i:]]
    if not 1 <= len(v) <= 3:
        raise Usage('operands')
    lo = v[0] if len(v) > 1 else 1
    step = v[1] if len(v) == 3 else 1
    hi = v[-1]
    if step == 0:
        raise Usage('zero increment')
    ns = list(range(lo, hi + (1 if step > 0 else -1), step))
    if 'f' in d:
        s = [d['f'] % float(n) for n in ns]
    else:
        w = max([len(str(lo)), len(str(ns[-1]))]) if 'w' in d and ns else 0
        s = [('%0' + str(w) + 'd') % n if w else str(n) for n in ns]
    if s:
        yield from write_all(1, b(d.get('s', '\n').join(s)) + b'\n')
    return 0


# ------------------------------------------------------------------------------------------------ col
@cmd('col')
def col(p, a):
    opts, ops = getopt(a, 'bfhpxl:', longs('no-backspaces=b fine=f tabs=h pass=p spaces=x lines:=l'))
    d = o2d(opts)
    order = [k for k, _ in opts if k in 'hx']
    spaces = order and order[-1] == 'x'
    if 'l' in d:
        num(d['l'])
    if ops:
        raise Usage('bad usage')
    inp = In(p, 0)
    out = Out(p)
    while True:
        l = yield from inp.line()
        if not l:
            break
        nl = l.endswith(b'\n')
        body = l[:-1] if nl else l
        cells = {}
        x = 0
        for c in body:
            if c == 8:
                x = max(0, x - 1)
            elif c == 13:
                x = 0
            elif c == 9:
                x = (x // 8 + 1) * 8
            elif c == 32:
                x += 1
            elif c < 32 and 'p' not in d:
                pass
            else:
                cells.setdefault(x, []).append(c)
                x += 1
        o = bytearray()
        pos = 0
        for x in sorted(cells):
            if not spaces:
                while (pos // 8 + 1) * 8 <= x and x - pos > 1:
                    o += b'\t'
                    pos = (pos // 8 + 1) * 8
            o += b' ' * (x - pos)
            cs = cells[x]
            if 'b' in d:
                cs = cs[-1:]
            for i, c in enumerate(cs):
                if i:
                    o += b'\b'
                o.append(c)
            pos = x + 1
        yield from out.write(bytes(o) + b'\n')
    yield from out.flush()
    return 0


# ------------------------------------------------------------------------------------------------ set_diff and the bigram family
@cmd('set_diff')
def set_diff(p, a):
    if len(a) != 1:
        raise Usage('one operand')
    data = yield from read_file(p, a[0])
    have = set(data.split(b'\n'))
    inp = In(p, 0)
    out = Out(p)
    while True:
        l = yield from inp.line()
        if not l:
            break
        if l.rstrip(b'\n') not in have:
            yield from out.write(l.rstrip(b'\n') + b'\n')
    yield from out.flush()
    return 0


def lines_of(data):
    ls = data.split(b'\n')
    if ls[-1] == b'':
        ls.pop()
    return ls


@cmd('bigrams_aux')
def bigrams_aux(p, a):
    if a:
        raise Usage('no operands')
    ls = lines_of((yield from In(p, 0).all()))
    out = Out(p)
    for x, y in zip(ls, ls[1:]):
        yield from out.write(x + b'\t' + y + b'\n')
    yield from out.flush()
    return 0


@cmd('bigram_aux_map')
def bigram_aux_map(p, a):
    """IN OUT AUX_FIRST AUX_LAST"""
    if len(a) != 4:
        raise Usage('operands')
    ifd = yield ('open', a[0], 'r')
    fds = []
    for x in a[1:]:
        fd = yield ('open', x, 'w')
        fds.append(fd)
    ls = lines_of((yield from In(p, ifd).all()))
    yield from write_all(fds[0], b''.join(x + b'\t' + y + b'\n' for x, y in zip(ls, ls[1:])))
    yield ('close', fds[0])
    if ls:
        yield from write_all(fds[1], ls[0] + b'\n')
    yield ('close', fds[1])
    if ls:
        yield from write_all(fds[2], ls[-1] + b'\n')
    yield ('close', fds[2])
    return 0


@cmd('bigram_aux_reduce')
def bigram_aux_reduce(p, a):
    """IN1 FIRST1 LAST1 IN2 FIRST2 LAST2 OUT FIRST LAST"""
    if len(a) != 9:
        raise Usage('operands')
    fds = []
    for x in a[:6]:
        fd = yield ('open', x, 'r')
        fds.append(fd)
    ofds = []
    for x in a[6:]:
        fd = yield ('open', x, 'w')
        ofds.append(fd)
    d = []
    for fd in fds:
        d.append((yield from In(p, fd).all()))
    mid = b''
    if d[2] and d[4]:
        mid = d[2].rstrip(b'\n') + b'\t' + d[4].rstrip(b'\n') + b'\n'
    yield from write_all(ofds[0], d[0] + mid + d[3])
    yield ('close', ofds[0])
    yield from write_all(ofds[1], d[1] or d[4])
    yield ('close', ofds[1])
    yield from write_all(ofds[2], d[5] or d[2])
    yield ('close', ofds[2])
    return 0


@cmd('alt_bigrams_aux')
def alt_bigrams_aux(p, a):
    """pairs of adjacent lines; the last line is paired with nothing"""
    if a:
        raise Usage('no operands')
    ls = lines_of((yield from In(p, 0).all()))
    out = Out(p)
    for i, x in enumerate(ls):
        yield from out.write(x + b'\t' + (ls[i + 1] if i + 1 < len(ls) else b'') + b'\n')
    yield from out.flush()
    return 0


@cmd('alt_bigram_aux_reduce')
def alt_bigram_aux_reduce(p, a):
    """IN1 IN2: complete the last pair of IN1 with the first line of IN2"""
    if len(a) != 2:
        raise Usage('operands')
    d1 = yield from read_file(p, a[0])
    d2 = yield from read_file(p, a[1])
    l1, l2 = lines_of(d1), lines_of(d2)
    if l1 and l2:
        l1[-1] = l1[-1].split(b'\t')[0] + b'\t' + l2[0].split(b'\t')[0]
    yield from write_all(1, b''.join(x + b'\n' for x in l1 + l2))
    return 0
