"""Models of sort, grep, sed, awk (a small family of programs), diff and xargs."""
import re
import functools
import errno as E
from .kernel import SimError
from .io import In, Out, write_all, open_in, read_file, err
from .getopt import getopt, longs, Usage
from .cmds import cmd, b, o2d, num, program, each_input, REG

# ------------------------------------------------------------------------------------------------ sort
MONTHS = {m: i + 1 for i, m in enumerate(b'JAN FEB MAR APR MAY JUN JUL AUG SEP OCT NOV DEC'.split())}
BLANK = b' \t\n'


class Key:
    __slots__ = ('sw', 'sc', 'ew', 'ec', 'o', 'skips', 'skipe')


def parse_key(s):
    m = re.fullmatch(r'(\d+)(?:\.(\d+))?([bdfgiMhnRrV]*)(?:,(\d+)(?:\.(\d+))?([bdfgiMhnRrV]*))?', s)
    if not m or m.group(1) == '0' or m.group(4) == '0' or m.group(2) == '0':
        raise Usage('invalid key ' + s)
    k = Key()
    k.sw = int(m.group(1)) - 1
    k.sc = int(m.group(2) or 1) - 1
    k.ew = int(m.group(4)) if m.group(4) else None
    k.ec = int(m.group(5) or 0) if m.group(4) else 0
    k.o = set((m.group(3) or '') + (m.group(6) or ''))
    k.skips = 'b' in (m.group(3) or '')
    k.skipe = 'b' in (m.group(6) or '')
    return k


def key_bounds(l, k, tab):
    n = len(l)
    p = 0
    sw = k.sw
    if tab is not None:
        while p < n and sw:
            while p < n and l[p:p + 1] != tab:
                p += 1
            if p < n:
                p += 1
            sw -= 1
    else:
        while p < n and sw:
            while p < n and l[p] in BLANK:
                p += 1
            while p < n and l[p] not in BLANK:
                p += 1
            sw -= 1
    if k.skips:
        while p < n and l[p] in BLANK:
            p += 1
    beg = min(n, p + k.sc)
    if k.ew is None:
        return beg, n
    ew, ec = k.ew, k.ec
    p = 0
    if ec:
        ew -= 1
    if tab is not None:
        while p < n and ew:
            while p < n and l[p:p + 1] != tab:
                p += 1
            if p < n and (ew > 1 or ec):
                p += 1
            ew -= 1
    else:
        while p < n and ew:
            while p < n and l[p] in BLANK:
                p += 1
            while p < n and l[p] not in BLANK:
                p += 1
            ew -= 1
    if ec:
        if k.skipe:
            while p < n and l[p] in BLANK:
                p += 1
        p = min(n, p + ec)
    return beg, max(beg, p)


def num_key(t):
    m = re.match(rb'[ \t\n]*(-?)(\d*)(?:\.(\d*))?', t)
    neg, i, f = m.group(1), m.group(2), m.group(3) or b''
    if not i and not f:
        return 0
    from fractions import Fraction
    v = Fraction(int((i or b'0') + f), 10 ** len(f))
    return -v if neg else v


def gen_key(t):
    m = re.match(rb'[ \t\n]*([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)', t)
    if not m:
        return (0, 0.0)
    return (2, float(m.group(1)))


SUF = b'KMGTPEZY'


def human_key(t):
    m = re.match(rb'[ \t\n]*(-?)(\d*\.?\d*)([kKMGTPEZY]?)', t)
    v = num_key(t)
    if v == 0:
        return (0, 0)
    u = SUF.find(m.group(3).upper()) + 1 if m.group(3) else 0
    return (-u, v) if v < 0 else (u, v)


def month_key(t):
    return MONTHS.get(t.lstrip(b' \t\n')[:3].upper(), 0)


def ver_order(c):
    if 48 <= c <= 57:
        return 0
    if 65 <= c <= 90 or 97 <= c <= 122:
        return c
    if c == 126:
        return -1
    return c + 256


def verrev(a, x):
    i = j = 0
    while i < len(a) or j < len(x):
        while i < len(a) and not 48 <= a[i] <= 57 or j < len(x) and not 48 <= x[j] <= 57:
            ca = ver_order(a[i]) if i < len(a) else 0
            cb = ver_order(x[j]) if j < len(x) else 0
            if ca != cb:
                return -1 if ca < cb else 1
            i += 1
            j += 1
        m = re.match(rb'\d*', a[i:]).group()
        n = re.match(rb'\d*', x[j:]).group()
        i += len(m)
        j += len(n)
        u, v = int(m or 0), int(n or 0)
        if u != v:
            return -1 if u < v else 1
    return 0


def filevercmp(a, x):
    if a == x:
        return 0
    for s, d in ((a, -1), (x, 1)):
        if s == b'':
            return d
    for nm in (b'.', b'..'):
        if a == nm:
            return -1
        if x == nm:
            return 1
    if a[:1] == b'.' and x[:1] != b'.':
        return -1
    if a[:1] != b'.' and x[:1] == b'.':
        return 1

    def cutsuf(s):
        m = re.search(rb'(\.[A-Za-z~][A-Za-z0-9~]*)*$', s)
        return s[:m.start()]
    ca, cb = cutsuf(a), cutsuf(x)
    if ca == cb:
        r = verrev(a, x)
    else:
        r = verrev(ca, cb)
        if r == 0:
            r = verrev(a, x)
    return r


def cmpv(x, y):
    return (x > y) - (x < y)


def hashkey(t):
    h = 5381
    for c in t:
        h = (h * 33 + c) & 0xffffffff
    return h


def key_value(t, o):
    """(class, comparable) for one key text"""
    if 'n' in o:
        return num_key(t)
    if 'g' in o:
        return gen_key(t)
    if 'h' in o:
        return human_key(t)
    if 'M' in o:
        return month_key(t)
    if 'd' in o:
        t = bytes(c for c in t if 48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122 or c in BLANK)
    if 'i' in o:
        t = bytes(c for c in t if 32 <= c < 127)
    if 'f' in o:
        t = t.upper()
    if 'R' in o:
        return (hashkey(t), t)
    if 'V' in o:
        return VKey(t)
    return t


@functools.total_ordering
class VKey:
    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return filevercmp(self.t, o.t) == 0

    def __lt__(self, o):
        return filevercmp(self.t, o.t) < 0


SORTW = {'general-numeric': 'g', 'human-numeric': 'h', 'month': 'M', 'numeric': 'n', 'random': 'R', 'version': 'V'}


@cmd('sort', 'custom_sort')
def sort(p, a):
    opts, ops = getopt(a, 'bdfgiMhnRrVcCmsuzk:o:S:t:T:', longs(
        'ignore-leading-blanks=b dictionary-order=d ignore-case=f general-numeric-sort=g ignore-nonprinting=i month-sort=M '
        'human-numeric-sort=h numeric-sort=n random-sort=R reverse=r version-sort=V check::=c debug merge=m stable=s unique=u '
        'zero-terminated=z random-source: sort: batch-size: compress-program: files0-from: key:=k output:=o buffer-size:=S '
        'field-separator:=t temporary-directory:=T parallel:'))
    d = o2d(opts)
    g = set(k for k, _ in opts if k in 'bdfgiMhnRrV')
    for k, v in opts:
        if k == '--sort':
            if v not in SORTW:
                raise Usage('invalid sort ' + v)
            g.add(SORTW[v])
        elif k in ('--batch-size', '--parallel'):
            if num(v) < 1:
                raise Usage('number')
        elif k == 'S':
            if not re.fullmatch(r'\d+[bKMG%]?', v):
                raise Usage('size')
    if '--batch-size' in d and num(d['--batch-size']) < 2:
        raise Usage('batch-size')
    if 'o' in d and ('c' in d or 'C' in d or '--debug' in d) or 'c' in d and 'C' in d:
        raise Usage('incompatible options')
    eol = b'\0' if 'z' in d else b'\n'
    tab = None
    if 't' in d:
        tab = b(d['t'])
        if tab == b'\\0':
            tab = b'\0'
        if len(tab) != 1:
            raise Usage('tab')
    ko = 'bdfgiMhnRV'
    keys = []
    for k, v in opts:
        if k == 'k':
            q = parse_key(v)
            # a key without own ordering options takes all the global ones
            if not q.o and not q.skips and not q.skipe:
                q.o = set(g)
                q.skips = q.skipe = 'b' in g
            keys.append(q)
    if not keys and g & set(ko):
        q = Key()
        q.sw = q.sc = 0
        q.ew, q.ec = None, 0
        q.o = set(g)
        q.skips = q.skipe = 'b' in g
        keys.append(q)
    for q in keys:
        kinds = [x for x in 'nghMV' if x in q.o]
        if 'R' in q.o:
            kinds.append('R')
        if len(kinds) > 1 or kinds and kinds[0] in 'nghM' and q.o & set('di'):
            raise Usage('incompatible options')
    if '--random-source' in d:
        yield from read_file(p, d['--random-source'])
    stable = 's' in d or 'u' in d
    rev = 'r' in g
    check = 'c' in d or 'C' in d

    @functools.lru_cache(20000)
    def kv(l):
        return tuple(key_value(l[slice(*key_bounds(l, q, tab))], q.o) for q in keys)

    def compare(x, y):
        kx, ky = kv(x), kv(y)
        for i, q in enumerate(keys):
            r = cmpv(kx[i], ky[i])
            if r:
                return -r if 'r' in q.o else r
        if keys and stable:
            return 0
        r = cmpv(x, y)
        return -r if rev else r
    ck = functools.cmp_to_key(compare)
    if '--files0-from' in d:
        if ops:
            raise Usage('extra operand')
        data = yield from read_file(p, d['--files0-from'])
        ops = [x.decode('latin-1') for x in data.split(b'\0') if x]
        if not ops:
            raise Usage('no input')
    ops = each_input(p, ops)

    def split(data):
        ls = data.split(eol)
        if ls[-1] == b'':
            ls.pop()
        return ls
    if check:
        if len(ops) > 1:
            raise Usage('extra operand')
        ls = split((yield from read_file(p, ops[0])))
        for x, y in zip(ls, ls[1:]):
            r = compare(x, y)
            if r > 0 or r == 0 and 'u' in d:
                return 1
        return 0

    def uniq(it):
        last = None
        for x in it:
            if 'u' in d and last is not None and compare(last, x) == 0:
                continue
            last = x
            yield x
    if 'm' in d:
        fds = []
        for o in ops:
            fds.append((yield from open_in(p, o)))
        if 'o' in d:
            # an output that is also an input is read completely first
            parts = []
            for fd in fds:
                parts.append(split((yield from In(p, fd, eol).all())))
            res = list(uniq(merge(parts, ck)))
            ofd = yield ('open', d['o'], 'w')
            yield from write_all(ofd, b''.join(x + eol for x in res))
            return 0
        ins = [In(p, fd, eol) for fd in fds]
        heads = []

        def nxt(i):
            l = yield from ins[i].line()
            return None if not l else l[:-1] if l.endswith(eol) else l
        for i in range(len(ins)):
            heads.append((yield from nxt(i)))
        out = Out(p)
        last = None
        while True:
            best = None
            for i, h in enumerate(heads):
                if h is not None and (best is None or compare(h, heads[best]) < 0):
                    best = i
            if best is None:
                break
            x = heads[best]
            if not ('u' in d and last is not None and compare(last, x) == 0):
                yield from out.write((b'> ' if '--debug' in d else b'') + x + eol)
            last = x if 'u' not in d or last is None or compare(last, x) != 0 else last
            heads[best] = yield from nxt(best)
        yield from out.flush()
        return 0
    ls = []
    for o in ops:
        ls += split((yield from read_file(p, o)))
    ls.sort(key=ck)
    res = b''.join(x + eol + (b'_' * len(x) + eol if '--debug' in d else b'') for x in uniq(ls))
    ofd = 1
    if 'o' in d:
        ofd = yield ('open', d['o'], 'w')
    yield from write_all(ofd, res)
    return 0


def merge(parts, ck):
    import heapq
    return heapq.merge(*parts, key=ck)


# ------------------------------------------------------------------------------------------------ regular expressions
@functools.lru_cache(4000)
def bre(s, ext, flags=0):
    """POSIX basic/extended regular expression (bytes) to a compiled Python one"""
    o = b''
    i = 0
    n = len(s)
    depth = 0
    start = True
    while i < n:
        c = s[i:i + 1]
        if c == b'\\' and i + 1 < n:
            d = s[i + 1:i + 2]
            i += 2
            if d in (b'(', b')', b'{', b'}', b'|', b'+', b'?'):
                if ext:
                    o += b'\\' + d
                    start = False
                    continue
                c = d
                if c == b'{':
                    j = s.find(b'\\}', i)
                    if j < 0:
                        raise Usage('unmatched {')
                    o += b'{' + (b'0' if s[i:i + 1] == b',' else b'') + s[i:j] + b'}'
                    i = j + 2
                    continue
                if c == b'(':
                    depth += 1
                if c == b')':
                    depth -= 1
                o += c
                start = c in (b'(', b'|')
                continue
            start = False
            if d.isdigit():
                o += b'(?:\\' + d + b')'
            elif d in (b'w', b'W', b's', b'S', b'b', b'B'):
                o += b'\\' + d
            elif d == b'<':
                o += rb'\b(?=\w)'
            elif d == b'>':
                o += rb'\b(?<=\w)'
            elif d == b'n':
                o += b'\\n'
            elif d == b't':
                o += b'\\t'
            else:
                o += re.escape(d)
            continue
        i += 1
        if c == b'[':
            j = i
            neg = s[j:j + 1] == b'^'
            if neg:
                j += 1
            body = b''
            first = True
            while True:
                if j >= n:
                    raise Usage('unmatched [')
                if s[j:j + 1] == b']' and not first:
                    break
                first = False
                m = re.match(rb'\[:(\w+):\]', s[j:])
                if m:
                    cl = {b'alpha': b'A-Za-z', b'digit': b'0-9', b'alnum': b'A-Za-z0-9', b'upper': b'A-Z', b'lower': b'a-z',
                          b'space': b' \\t\\n\\r\\f\\v', b'blank': b' \\t', b'punct': re.escape(b'!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'),
                          b'xdigit': b'0-9A-Fa-f', b'print': b' -~', b'graph': b'!-~', b'cntrl': b'\\x00-\\x1f\\x7f'}
                    if m.group(1) not in cl:
                        raise Usage('invalid class')
                    body += cl[m.group(1)]
                    j += m.end()
                    continue
                ch = s[j:j + 1]
                if s[j + 1:j + 2] == b'-' and s[j + 2:j + 3] not in (b']', b''):
                    if s[j + 2:j + 3] < ch:
                        raise Usage('invalid range')
                    body += re.escape(ch) + b'-' + re.escape(s[j + 2:j + 3])
                    j += 3
                else:
                    body += re.escape(ch)
                    j += 1
            o += b'[' + (b'^' if neg else b'') + body + b']'
            i = j + 1
            start = False
        elif c == b'*':
            o += b'\\*' if start else b'*'
            start = False
        elif c in (b'+', b'?', b'|', b'(', b')', b'{', b'}'):
            if ext:
                if c in (b'+', b'?') and start:
                    o += re.escape(c)
                elif c == b'{' and not re.match(rb'\d*(,\d*)?\}', s[i:]):
                    o += b'\\{'
                elif c == b'{':
                    j = s.find(b'}', i)
                    o += b'{' + (b'0' if s[i:i + 1] == b',' else b'') + s[i:j] + b'}'
                    i = j + 1
                elif c == b'}':
                    o += b'\\}'
                elif c == b')' and depth == 0:
                    raise Usage('unmatched )')
                else:
                    depth += (c == b'(') - (c == b')')
                    o += c
                start = c in (b'(', b'|')
            else:
                o += b'\\' + c
                start = False
        elif c == b'^':
            o += b'^' if ext or start else b'\\^'
        elif c == b'$':
            last = i >= n or (s[i:i + 2] in (b'\\)', b'\\|') if not ext else True)
            o += b'(?!.|\\n)' if last else b'\\$'
        else:
            o += b'.' if c == b'.' else re.escape(c)
            start = False
    if depth:
        raise Usage('unmatched (')
    return re.compile(o, flags | re.S)


# ------------------------------------------------------------------------------------------------ grep
@cmd('grep')
def grep(p, a):
    opts, ops = getopt(a, 'VEFGPiyvwxcLloqsbHhnTuZaIrRUze:f:m:A:B:C:D:d:', longs(
        'version=V extended-regexp=E fixed-strings=F basic-regexp=G perl-regexp=P ignore-case=i no-ignore-case=--nocase '
        'invert-match=v word-regexp=w line-regexp=x count=c files-without-match=L files-with-matches=l only-matching=o quiet=q '
        'silent=q no-messages=s byte-offset=b with-filename=H no-filename=h line-number=n initial-tab=T unix-byte-offsets=u null=Z '
        'no-group-separator text=a recursive=r dereference-recursive=R line-buffered binary=U null-data=z color::=--color '
        'colour::=--color regexp:=e file:=f max-count:=m label: after-context:=A before-context:=B context:=C group-separator: '
        'binary-files: devices:=D directories:=d exclude: exclude-from: exclude-dir: include:'))
    d = {}
    icase = False
    mode = 'G'
    pats = None
    names = None
    for k, v in opts:
        if k in ('i', 'y'):
            icase = True
        elif k == '--nocase':
            icase = False
        elif k in ('E', 'F', 'G', 'P'):
            mode = k
        elif k == 'e':
            pats = (pats or []) + b(v).split(b'\n')
        elif k == 'f':
            data = yield from read_file(p, v)
            ls = data.split(b'\n')
            if ls[-1] == b'':
                ls.pop()
            pats = (pats or []) + ls
        elif k in ('H', 'h'):
            names = k == 'H'
        elif k in ('L', 'l'):
            d.pop('L', None)
            d.pop('l', None)
            d[k] = True
        else:
            d[k] = v
    for k in 'mABC':
        if k in d:
            d[k] = num(d[k])
    if d.get('--binary-files', 'text') not in ('text', 'binary', 'without-match'):
        raise Usage('binary-files')
    if d.get('d', 'read') not in ('read', 'skip', 'recurse') or d.get('D', 'read') not in ('read', 'skip'):
        raise Usage('unknown method')
    if d.get('--color') not in (None, 'always', 'never', 'auto'):
        raise Usage('color')
    for k, v in opts:
        if k == '--exclude-from':
            yield from read_file(p, v)
    if pats is None:
        if not ops:
            raise Usage('pattern')
        pats = b(ops[0]).split(b'\n')
        ops = ops[1:]
    if mode == 'P' and len(pats) > 1:
        raise Usage('the -P option only supports a single pattern')
    fl = re.I if icase else 0
    rs = []
    for s in pats:
        if mode == 'F':
            r = re.compile(re.escape(s), fl)
        elif mode == 'P':
            r = re.compile(s, fl | re.S)
        else:
            r = bre(s, mode == 'E', fl)
        rs.append(r)
    A = d.get('A', d.get('C', 0))
    B = d.get('B', d.get('C', 0))
    ctx = any(k in d for k in 'ABC')
    eol = b'\0' if 'z' in d else b'\n'
    rec = 'r' in d or 'R' in d or d.get('d') == 'recurse'
    if not ops and rec:
        ops = ['.']
    inputs = each_input(p, ops)
    if names is None:
        names = len(inputs) > 1
    out = Out(p)
    st = 0
    any_match = False

    def matches(l):
        res = []
        for r in rs:
            for m in r.finditer(l):
                s, e = m.span()
                if 'x' in d and (s, e) != (0, len(l)):
                    m2 = r.fullmatch(l)
                    if not m2:
                        continue
                    s, e = 0, len(l)
                elif 'w' in d and ((s and re.match(rb'\w', l[s - 1:s])) or re.match(rb'\w', l[e:e + 1])):
                    continue
                res.append((s, e))
                if 'o' not in d and d.get('--color') != 'always':
                    return res
        return sorted(set(res), key=lambda t: (t[0], -t[1]))

    def expand(name):
        if name == '-' or not rec:
            return [name]
        kind, _ = yield ('stat', name)
        if kind != 'dir':
            return [name]
        res = []
        for x in (yield ('listdir', name)):
            res += yield from expand(name.rstrip('/') + '/' + x)
        return res
    for name0 in inputs:
        try:
            names_ = yield from expand(name0)
        except SimError:
            st = 2
            continue
        for name in names_:
            try:
                fd = yield from open_in(p, name)
            except SimError as e:
                if e.errno == E.EISDIR and d.get('d') == 'skip':
                    continue
                st = 2
                continue
            label = b(d.get('--label', '(standard input)') if name == '-' else name)
            inp = In(p, fd, eol)
            cnt = 0
            lineno = 0
            off = 0
            before = []
            after = 0
            lastout = None
            hit = False
            binary = False
            isbin = 'a' not in d and d.get('--binary-files') != 'text' and 'z' not in d

            def prefix(sep, o, ln):
                r = b''
                if names:
                    r += label + (b'\0' if 'Z' in d else sep)
                if 'n' in d:
                    r += b'%d' % ln + sep
                if 'b' in d:
                    r += b'%d' % o + sep
                if 'T' in d:
                    r = r + b'\t' if r else r
                return r
            quiet = 'q' in d or 'l' in d or 'L' in d or 'c' in d
            while True:
                l = yield from inp.line()
                if not l:
                    break
                lineno += 1
                body = l[:-1] if l.endswith(eol) else l
                if isbin and b'\0' in body:
                    binary = True
                ms = matches(body)
                ok = bool(ms) != ('v' in d)
                if ok and d.get('m') == 0:
                    p.early = True
                    break
                if ok:
                    hit = any_match = True
                    cnt += 1
                    if 'q' in d:
                        p.early = True
                        return 0
                    if 'l' in d or 'L' in d:
                        p.early = True
                        break
                    if not quiet and not (binary and isbin):
                        if ctx and 'o' not in d:
                            start = lineno - len(before)
                            if lastout is not None and start > lastout + 1 and '--no-group-separator' not in d:
                                yield from out.write(b(d.get('--group-separator', '--')) + eol)
                            for (o_, ln_, x) in before:
                                yield from out.write(prefix(b'-', o_, ln_) + x + eol)
                            before = []
                        if 'o' in d:
                            if 'v' not in d:
                                for s, e in ms:
                                    if e > s:
                                        yield from out.write(prefix(b':', off + s, lineno) + body[s:e] + eol)
                        else:
                            x = body
                            if d.get('--color') == 'always' and 'v' not in d:
                                x = b''
                                pos = 0
                                for s, e in ms:
                                    if s >= pos and e > s:
                                        x += body[pos:s] + b'\x1b[01;31m\x1b[K' + body[s:e] + b'\x1b[m\x1b[K'
                                        pos = e
                                x += body[pos:]
                            yield from out.write(prefix(b':', off, lineno) + x + eol)
                        lastout = lineno
                    after = A
                    if 'm' in d and cnt >= d['m']:
                        p.early = True
                        break
                elif ctx and not quiet and 'o' not in d:
                    if after:
                        after -= 1
                        yield from out.write(prefix(b'-', off, lineno) + body + eol)
                        lastout = lineno
                    elif B:
                        before.append((off, lineno, body))
                        if len(before) > B:
                            before.pop(0)
                off += len(l)
            if binary and isbin and hit and not quiet:
                yield from out.write(b'Binary file matches\n')
            if 'c' in d and not ('l' in d or 'L' in d or 'q' in d):
                yield from out.write((label + (b'\0' if 'Z' in d else b':') if names else b'') + b'%d\n' % cnt)
            if ('l' in d and hit or 'L' in d and not hit) and 'q' not in d:
                yield from out.write(label + (b'\0' if 'Z' in d else b'\n'))
            if fd:
                yield ('close', fd)
    yield from out.flush()
    return st or (0 if any_match else 1)


# ------------------------------------------------------------------------------------------------ sed
def sed_split(s, i, delim):
    """text up to an unescaped delimiter: (text, next position)"""
    o = ''
    while True:
        if i >= len(s):
            raise Usage('unterminated')
        c = s[i]
        if c == '\\' and i + 1 < len(s):
            if s[i + 1] == delim and delim not in '\\':
                o += delim if delim not in '.*[]^$+?(){}|' else '\\' + delim
            else:
                o += s[i:i + 2]
            i += 2
            continue
        if c == delim:
            return o, i + 1
        o += c
        i += 1


def sed_parse(src, ext):
    """list of (addr1, addr2, negated, command, args)"""
    prog = []
    i = 0
    n = len(src)

    def addr(i):
        if i < n and src[i].isdigit():
            m = re.match(r'\d+', src[i:])
            return ('n', int(m.group())), i + m.end()
        if i < n and src[i] == '$':
            return ('$',), i + 1
        if i < n and src[i] in '/\\':
            dl = '/'
            if src[i] == '\\':
                i += 1
                dl = src[i]
            t, i = sed_split(src, i + 1, dl)
            fl = 0
            if i < n and src[i] == 'I':
                fl = re.I
                i += 1
            return ('/', bre(b(t), ext, fl)), i
        return None, i
    while i < n:
        while i < n and src[i] in ' \t\n;':
            i += 1
        if i >= n:
            break
        if src[i] == '#':
            j = src.find('\n', i)
            i = n if j < 0 else j
            continue
        a1, i = addr(i)
        a2 = None
        if a1 is not None and i < n and src[i] == ',':
            a2, i = addr(i + 1)
            if a2 is None:
                raise Usage('unexpected ,')
        while i < n and src[i] == ' ':
            i += 1
        neg = False
        while i < n and src[i] in '! ':
            neg |= src[i] == '!'
            i += 1
        if i >= n:
            raise Usage('missing command')
        c = src[i]
        i += 1
        args = None
        if c == 's':
            dl = src[i]
            pat, i = sed_split(src, i + 1, dl)
            rep, i = sed_split(src, i, dl)
            m = re.match(r'[gpiIe0-9]*', src[i:])
            fl = m.group()
            i += m.end()
            wf = None
            if i < n and src[i] == 'w':
                j = src.find('\n', i)
                wf = src[i + 1:j if j >= 0 else n].strip()
                i = n if j < 0 else j
            if 'e' in fl:
                raise Usage('e not supported')
            cnt = int(re.sub(r'\D', '', fl) or 1)
            args = (bre(b(pat), ext, re.I if 'i' in fl or 'I' in fl else 0), sed_rep(rep), 'g' in fl, 'p' in fl, cnt, wf)
        elif c == 'y':
            dl = src[i]
            x, i = sed_split(src, i + 1, dl)
            y, i = sed_split(src, i, dl)
            un = lambda t: b(t.replace('\\n', '\n').replace('\\\\', '\\'))
            x, y = un(x), un(y)
            if len(x) != len(y):
                raise Usage('y lengths differ')
            args = bytes.maketrans(x, y)
        elif c in 'aic':
            j = i
            while j < n and src[j] == ' ':
                j += 1
            if j < n and src[j] == '\\':
                j += 1
                if j < n and src[j] == '\n':
                    j += 1
            e = src.find('\n', j)
            e = n if e < 0 else e
            args = b(src[j:e])
            i = e
        elif c in 'rwRW':
            e = src.find('\n', i)
            e = n if e < 0 else e
            args = src[i:e].strip()
            i = e
        elif c in 'qQl':
            m = re.match(r' *(\d*)', src[i:])
            args = int(m.group(1) or 0)
            i += m.end()
        elif c in 'pdDnNgGhHxP=':
            pass
        elif c in '{}':
            args = None
        elif c in ':bt':
            e = re.match(r'[^;\n]*', src[i:])
            args = e.group().strip()
            i += e.end()
        else:
            raise Usage('unknown command: ' + c)
        if c not in '{}' and i < n:
            while i < n and src[i] in ' \t':
                i += 1
            if i < n and src[i] not in ';\n}#':
                raise Usage('extra characters after command')
        prog.append([a1, a2, neg, c, args, False, 0])
    depth = 0
    for q in prog:
        depth += (q[3] == '{') - (q[3] == '}')
    if depth:
        raise Usage('unmatched {')
    return prog


def sed_rep(rep):
    out = []
    s = b(rep)
    i = 0
    while i < len(s):
        c = s[i:i + 1]
        if c == b'\\' and i + 1 < len(s):
            d = s[i + 1:i + 2]
            if d.isdigit():
                out.append(int(d))
            elif d == b'n':
                out.append(b'\n')
            elif d == b't':
                out.append(b'\t')
            else:
                out.append(d)
            i += 2
        else:
            out.append(0 if c == b'&' else c)
            i += 1
    return out


@cmd('sed')
def sed(p, a):
    opts, ops = getopt(a, 'nErsuzi::l:e:f:', longs('quiet=n silent=n debug follow-symlinks posix regexp-extended=E separate=s '
                       'sandbox unbuffered=u null-data=z in-place::=i line-length:=l expression:=e file:=f'))
    d = o2d(opts)
    scripts = []
    for k, v in opts:
        if k == 'e':
            scripts.append(v)
        elif k == 'f':
            t = (yield from read_file(p, v)).decode('latin-1')
            scripts.append(t[:-1] if t.endswith('\n') else t)
        elif k == 'l':
            num(v)
    if not scripts:
        if not ops:
            raise Usage('no script')
        scripts = [ops[0]]
        ops = ops[1:]
    src = '\n'.join(scripts)
    ext = 'E' in d or 'r' in d
    prog = sed_parse(src, ext)
    silent = 'n' in d or src.startswith('#n\n')
    if '--sandbox' in d and any(q[3] in 'rwRW' or q[3] == 's' and q[4][5] for q in prog):
        raise Usage('sandbox')
    eol = b'\0' if 'z' in d else b'\n'
    wfds = {}
    for q in prog:
        w = q[4] if q[3] in 'wW' else q[4][5] if q[3] == 's' else None
        if w and w not in wfds:
            wfds[w] = 1 if w == '/dev/stdout' else (yield ('open', w, 'w'))
    st = [0]
    sep = 's' in d or 'i' in d
    inputs = each_input(p, ops)
    inplace = 'i' in d
    out = [Out(p)]
    if '--debug' in d:
        yield from out[0].write(b'SED PROGRAM:\n  ' + b(src) + b'\n')
    state = {'files': list(inputs), 'inp': None, 'fd': None, 'name': None, 'look': None, 'pending': None}

    missing = [False]

    def close_cur():
        if state['inp'] is not None:
            if state['fd']:
                yield ('close', state['fd'])
            state['inp'] = None
            if inplace:
                data = bytes(out[0].buf)
                if d['i']:
                    suf = d['i']
                    yield ('rename', state['name'], suf.replace('*', state['name']) if '*' in suf else state['name'] + suf)
                fd = yield ('open', state['name'], 'w')
                yield from write_all(fd, data)
                yield ('close', fd)
                out[0] = Out(p)
                missing[0] = False

    class Big(Out):
        def write(self, data):
            self.buf += data
            return
            yield

    def fetch():
        """next raw line of the whole input or None (b'' ends are file changes)"""
        while True:
            if state['inp'] is None:
                if not state['files']:
                    return None
                nm = state['files'].pop(0)
                try:
                    fd = yield from open_in(p, nm)
                except SimError:
                    st[0] = 2
                    continue
                state['inp'], state['fd'], state['name'] = In(p, fd, eol), fd, nm
                if inplace:
                    yield from out[0].flush()
                    out[0] = Big(p)
                    p.outs.remove(out[0])
                state['fresh'] = True
            l = yield from state['inp'].line()
            if l:
                return l
            if sep:
                return b''          # file boundary: handled by the reader
            yield from close_cur()

    def read_line():
        """(line, is_last) or None"""
        if state['look'] is None:
            l = yield from fetch()
            while l == b'':
                yield from close_cur()
                l = yield from fetch()
        else:
            l = state['look']
            state['look'] = None
            while l == b'':
                yield from close_cur()
                l = yield from fetch()
        if l is None:
            return None
        nxt = yield from fetch()
        if nxt is None:
            last = True
        elif nxt == b'':
            last = True
        else:
            last = False
        state['look'] = nxt if nxt is not None else None
        state['end'] = nxt is None
        return l, last
    lineno = 0
    hold = b''

    def put(data, nl=True):
        # a line that had no newline gets it as soon as something follows
        o = (eol if missing[0] else b'') + data + (eol if nl else b'')
        missing[0] = not nl
        yield from out[0].write(o)
    def raw(data):
        o = (eol if missing[0] and data else b'') + data
        if data:
            missing[0] = False
        yield from out[0].write(o)
    cur = yield from read_line()
    while cur is not None:
        l, last = cur
        lineno += 1
        nonl = not l.endswith(eol)
        ps = l[:-1] if not nonl else l
        append = []
        quit_ = False
        deleted = False
        pc = 0
        noprint = False
        tflag = False
        restart = False

        def selected(q):
            a1, a2 = q[0], q[1]

            def one(x):
                return x[0] == 'n' and lineno == x[1] or x[0] == '$' and last or x[0] == '/' and bool(x[1].search(ps))
            if a1 is None:
                r = True
            elif a2 is None:
                r = one(a1)
            elif q[5]:
                r = True
                if a2[0] == 'n':
                    if lineno >= a2[1]:
                        q[5] = False
                        r = lineno <= a2[1] 
                elif one(a2):
                    q[5] = False
            else:
                r = one(a1)
                if r:
                    q[5] = not (a2[0] == 'n' and a2[1] <= lineno)
            return r != q[2]
        while pc < len(prog):
            q = prog[pc]
            c = q[3]
            pc += 1
            if c in '}:':
                continue
            sel = selected(q)
            if c == '{':
                if not sel:
                    depth = 1
                    while depth:
                        depth += (prog[pc][3] == '{') - (prog[pc][3] == '}')
                        pc += 1
                continue
            if not sel:
                continue
            if c == 's':
                rx, rep, glob, pr, cnt, wf = q[4]
                k = 0
                o = b''
                pos = 0
                done = False
                for m in rx.finditer(ps):
                    k += 1
                    if k < cnt:
                        continue
                    o += ps[pos:m.start()] + b''.join((m.group(x) or b'') if isinstance(x, int) else x for x in rep)
                    pos = m.end()
                    done = True
                    if not glob:
                        break
                if done:
                    ps = o + ps[pos:]
                    tflag = True
                    if pr:
                        yield from put(ps, not nonl)
                    if wf:
                        if wfds[wf] == 1:
                            yield from put(ps)
                        else:
                            yield from write_all(wfds[wf], ps + eol)
            elif c == 'y':
                ps = ps.translate(q[4])
            elif c == 'p':
                yield from put(ps, not nonl)
            elif c == 'P':
                yield from put(ps.split(b'\n')[0])
            elif c == 'l':
                yield from put(ps.replace(b'\\', b'\\\\').replace(b'\t', b'\\t').replace(b'\n', b'\\n') + b'$')
            elif c == 'd':
                deleted = True
                break
            elif c == 'D':
                if b'\n' not in ps:
                    deleted = True
                    break
                ps = ps.split(b'\n', 1)[1]
                pc = 0
            elif c == 'q':
                quit_ = True
                break
            elif c == 'Q':
                quit_ = deleted = True
                break
            elif c == '=':
                yield from put(b'%d' % lineno)
            elif c in 'nN':
                nx = None
                if not state.get('end') or True:
                    nx = yield from read_line()
                if nx is None:
                    if c == 'n':
                        quit_ = True
                        break
                    quit_ = True
                    break
                if c == 'n':
                    if not silent:
                        yield from put(ps, not nonl)
                    ps2, last = nx
                    lineno += 1
                    nonl = not ps2.endswith(eol)
                    ps = ps2[:-1] if not nonl else ps2
                else:
                    ps2, last = nx
                    lineno += 1
                    nonl = not ps2.endswith(eol)
                    ps = ps + b'\n' + (ps2[:-1] if not nonl else ps2)
            elif c == 'a':
                append.append(q[4] + b'\n')
            elif c == 'i':
                yield from raw(q[4] + b'\n')
            elif c == 'c':
                if q[1] is None or not q[5]:
                    yield from raw(q[4] + b'\n')
                deleted = True
                break
            elif c == 'g':
                ps = hold
            elif c == 'G':
                ps = ps + b'\n' + hold
            elif c == 'h':
                hold = ps
            elif c == 'H':
                hold = hold + b'\n' + ps
            elif c == 'x':
                ps, hold = hold, ps
            elif c == 'r':
                try:
                    append.append((yield from read_file(p, q[4])))
                except SimError:
                    pass
            elif c == 'w':
                if wfds[q[4]] == 1:
                    yield from put(ps)
                else:
                    yield from write_all(wfds[q[4]], ps + eol)
            elif c in 'bt':
                if c == 'b' or tflag:
                    tflag = False
                    if q[4] == '':
                        break
                    for j, r in enumerate(prog):
                        if r[3] == ':' and r[4] == q[4]:
                            pc = j + 1
                            break
                    else:
                        raise Usage('no label')
        if not deleted and not silent:
            yield from put(ps, not nonl)
        for t in append:
            yield from raw(t)
        if quit_:
            p.early = True
            break
        cur = yield from read_line()
    if inplace and state['inp'] is not None:
        if quit_early(state):
            rest = yield from state['inp'].all()
            yield from out[0].write((state['look'] or b'') + rest)
        yield from close_cur()
    if not isinstance(out[0], Big):
        yield from out[0].flush()
    return st[0]


def quit_early(state):
    return True


# ------------------------------------------------------------------------------------------------ awk
def awk_fields(l, fs):
    if fs == ' ':
        return l.split()
    if len(fs) == 1:
        return l.split(b(fs)) if l else []
    return re.split(b(fs), l) if l else []


def awk_run(prog):
    """prog -> (per line function(env, line, fields, nr) -> list of output lines, end function) for the known programs"""
    P = {
        '{print}': (lambda v, l, f, n: [l], None),
        '{print $0}': (lambda v, l, f, n: [l], None),
        '{print $1}': (lambda v, l, f, n: [f[0] if f else b''], None),
        '{print $2}': (lambda v, l, f, n: [f[1] if len(f) > 1 else b''], None),
        '{print NF}': (lambda v, l, f, n: [b'%d' % len(f)], None),
        '{print NR, $0}': (lambda v, l, f, n: [b'%d ' % n + l], None),
        '{print x, $1}': (lambda v, l, f, n: [b(v.get('x', '')) + b' ' + (f[0] if f else b'')], None),
        '{print x y}': (lambda v, l, f, n: [b(v.get('x', '') + v.get('y', ''))], None),
        '$1 == x': (lambda v, l, f, n: [l] if (f[0] if f else b'') == b(v.get('x', '')) else [], None),
        '/a/': (lambda v, l, f, n: [l] if b'a' in l else [], None),
        'length($0) > 3': (lambda v, l, f, n: [l] if len(l) > 3 else [], None),
        'END {print NR}': (lambda v, l, f, n: [], lambda v, n: [b'%d' % n]),
        '!seen[$0]++': (lambda v, l, f, n: [] if l in v.setdefault('seen', set()) else (v['seen'].add(l), [l])[1], None),
    }
    return P.get(prog.strip())


AWK_PROGRAMS = ['{print}', '{print $0}', '{print $1}', '{print $2}', '{print NF}', '{print NR, $0}', '{print x, $1}', '{print x y}',
                '$1 == x', '/a/', 'length($0) > 3', 'END {print NR}', '!seen[$0]++']


@cmd('awk')
def awk(p, a):
    opts, ops = getopt(a, 'bcCd::D::ghLl:MnNo::Op::PrStVf:F:v:e:E:i:', longs(
        'characters-as-bytes=b traditional=c copyright=C dump-variables::=d debug::=D gen-pot=g help=h lint::=L load:=l bignum=M '
        'non-decimal-data=n use-lc-numeric=N pretty-print::=o optimize=O profile::=p posix=P re-interval=r sandbox=S lint-old=t '
        'version=V file:=f field-separator:=F assign:=v source:=e exec:=E include:=i'), permute=False)
    d = o2d(opts)
    v = {}
    progs = []
    for k, x in opts:
        if k == 'v':
            n, eq, val = x.partition('=')
            if not eq:
                raise Usage('v')
            v[n] = val
        elif k in ('f', 'E'):
            progs.append((yield from read_file(p, x)).decode('latin-1'))
        elif k == 'e':
            progs.append(x)
        elif k == 'i':
            progs.append((yield from read_file(p, x)).decode('latin-1'))
    if not any(k in ('f', 'e', 'E') for k, _ in opts):
        if not ops:
            raise Usage('no program')
        progs.append(ops[0])
        ops = ops[1:]
    runs = []
    wr = None
    for t in progs:
        for s in t.split('\n'):
            if not s.strip():
                continue
            m = re.fullmatch(r'\{print > "(.*)"\}', s.strip())
            if m:
                if 'S' in d:
                    raise Usage('sandbox')
                wr = m.group(1)
                continue
            r = awk_run(s)
            if r is None:
                raise Usage('syntax error')
            runs.append(r)
    if 'd' in d:
        fd = yield ('open', d['d'] or 'awkvars.out', 'w')
        yield from write_all(fd, b'ARGC: 1\n')
        yield ('close', fd)
    for k, dn in (('o', 'awkprof.out'), ('p', 'awkprof.out')):
        if k in d:
            fd = yield ('open', d[k] or dn, 'w')
            yield from write_all(fd, b('\n'.join(progs)) + b'\n')
            yield ('close', fd)
            if k == 'o':
                return 0
    fs = d.get('F', ' ')
    fs = '\t' if fs == 't' else fs.replace('\\t', '\t')
    out = Out(p)
    nr = 0
    st = 0
    wfd = None
    files = []
    for o in ops:
        files.append(o)
    if all(re.match(r'[A-Za-z_]\w*=', o) for o in files):
        files.append('-')
    for name in files:
        m = re.fullmatch(r'([A-Za-z_]\w*)=(.*)', name, re.S)
        if m:
            v[m.group(1)] = m.group(2)
            continue
        try:
            fd = yield from open_in(p, name)
        except SimError:
            st = 2
            continue
        inp = In(p, fd)
        while True:
            l = yield from inp.line()
            if not l:
                break
            nr += 1
            body = l[:-1] if l.endswith(b'\n') else l
            f = awk_fields(body, fs)
            for r in runs:
                for x in r[0](v, body, f, nr):
                    yield from out.write(x + b'\n')
            if wr:
                if wfd is None:
                    wfd = yield ('open', wr, 'w')
                yield from write_all(wfd, body + b'\n')
        if fd:
            yield ('close', fd)
    for r in runs:
        if r[1]:
            for x in r[1](v, nr):
                yield from out.write(x + b'\n')
    yield from out.flush()
    return st


# ------------------------------------------------------------------------------------------------ diff
@cmd('diff')
def diff(p, a):
    opts, ops = getopt(a, 'qsenyptTlrNPiEZbwBadvcuC:U:W:F:x:X:S:I:D:', longs(
        'normal brief=q report-identical-files=s ed=e rcs=n side-by-side=y left-column suppress-common-lines show-c-function=p '
        'expand-tabs=t initial-tab=T suppress-blank-empty paginate=l recursive=r no-dereference new-file=N unidirectional-new-file '
        'ignore-file-name-case no-ignore-file-name-case ignore-case=i ignore-tab-expansion=E ignore-trailing-space=Z '
        'ignore-space-change=b ignore-all-space=w ignore-blank-lines=B text=a strip-trailing-cr minimal=d speed-large-files '
        'context::=C unified::=U color::=--color width:=W show-function-line:=F label: tabsize: exclude:=x exclude-from:=X '
        'starting-file:=S from-file: to-file: ignore-matching-lines:=I ifdef:=D line-format: horizon-lines: palette:'))
    d = o2d(opts)
    labels = [v for k, v in opts if k == '--label']
    for k, v in opts:
        if k == 'X':
            yield from read_file(p, v)
    for k in ('C', 'U', 'W', '--tabsize', '--horizon-lines'):
        if d.get(k) is not None:
            num(d[k])
    if ('C' in d or 'c' in d) and ('U' in d or 'u' in d):
        raise Usage('conflicting output style options')
    for o in ('--from-file', '--to-file'):
        if len(set(v for k, v in opts if k == o)) > 1:
            raise Usage('conflicting')
    if '--from-file' in d and '--to-file' in d:
        raise Usage('both')
    if '--from-file' in d:
        pairs = [(d['--from-file'], o) for o in ops]
    elif '--to-file' in d:
        pairs = [(o, d['--to-file']) for o in ops]
    else:
        if len(ops) != 2:
            raise Usage('operands')
        pairs = [tuple(ops)]
    out = Out(p)
    st = 0
    cache = {}

    def get(nm):
        # an operand given several times is read once (a pipe can be read only once)
        if nm not in cache:
            try:
                cache[nm] = yield from read_file(p, nm)
            except SimError as e:
                if e.errno == E.ENOENT and 'N' in d:
                    cache[nm] = b''
                else:
                    raise
        return cache[nm]

    def norm(l):
        if 'i' in d:
            l = l.lower()
        if 'w' in d:
            l = b''.join(l.split())
        if 'b' in d:
            l = re.sub(rb'[ \t]+', b' ', l).rstrip()
        if 'Z' in d:
            l = l.rstrip()
        if '--strip-trailing-cr' in d:
            l = l.rstrip(b'\r')
        return l
    for x, y in pairs:
        dx = yield from get(x)
        dy = yield from get(y)
        lx, ly = [t for t in (q.split(b'\n') for q in (dx, dy))]
        nx, ny = [norm(t) for t in lx], [norm(t) for t in ly]
        if 'B' in d:
            nx, ny = [t for t in nx if t], [t for t in ny if t]
        if 'I' in d:
            r = bre(b(d['I']), False)
            nx, ny = [t for t in nx if not r.search(t)], [t for t in ny if not r.search(t)]
        nm = labels + [x, y][len(labels):]
        if nx == ny:
            if 's' in d:
                yield from out.write(b('Files %s and %s are identical\n' % (nm[0], nm[1])))
            if 'y' in d and '--suppress-common-lines' not in d:
                for t in lx:
                    yield from out.write(t + (b'' if '--left-column' in d else b'\t\t' + t) + b'\n')
            continue
        st = 1
        if 'q' in d:
            yield from out.write(b('Files %s and %s differ\n' % (nm[0], nm[1])))
            continue
        # the style is abstract: a header naming every option that changes the format, then both files' differing lines
        e = dict(d)
        ctx = max([0] + [3 if v is None else num(v) for k, v in opts if k in ('c', 'C', 'u', 'U')])
        for k, l in (('C', 'c'), ('U', 'u')):
            if k in e or l in e:
                e[k] = str(ctx)
        style = ','.join('%s=%s' % (k, e[k] or '') for k in ('e', 'n', 'y', 'C', 'U', 'D', 'F', 'p', 'W', '--line-format', '--color',
                                                        '--palette', '--tabsize', 't', 'T', 'l', '--left-column', '--suppress-common-lines') if k in e)
        yield from out.write(b('@ %s\n' % style))
        if 'c' in d or 'C' in d or 'u' in d or 'U' in d:
            yield from out.write(b('--- %s\n+++ %s\n' % (nm[0], nm[1])))
        import difflib
        for t in difflib.unified_diff([q.decode('latin-1') for q in nx], [q.decode('latin-1') for q in ny], n=ctx, lineterm=''):
            if not t.startswith(('---', '+++')):
                yield from out.write(b(t) + b'\n')
    yield from out.flush()
    return st


# ------------------------------------------------------------------------------------------------ xargs
@cmd('xargs')
def xargs(p, a):
    opts, ops = getopt(a, '0a:d:E:e::I:i::L:l::n:oP:prs:tx', longs(
        'null=0 arg-file:=a delimiter:=d eof::=e replace::=i max-lines::=l max-args:=n open-tty=o max-procs:=P interactive=p '
        'process-slot-var: no-run-if-empty=r max-chars:=s show-limits verbose=t exit=x'), permute=False)
    d = {}
    for k, v in opts:
        if k == 'I' or k == 'i':
            d['I'] = v or '{}'
            d.pop('L', None)
            d.pop('n', None)
        elif k == 'L' or k == 'l':
            d['L'] = num(v) if v else 1
            d.pop('n', None)
            d.pop('I', None)
        elif k == 'n':
            d['n'] = num(v)
            d.pop('L', None)
        elif k == 'E' or k == 'e':
            d['E'] = v
        else:
            d[k] = v
    argv = ops or ['echo']
    fd = 0
    if 'a' in d:
        fd = yield from open_in(p, d['a'])
    data = yield from In(p, fd).all()
    lines = []
    if '0' in d or 'd' in d:
        dl = b'\0' if '0' in d else b(d['d'].replace('\\n', '\n').replace('\\t', '\t'))
        items = data.split(dl)
        if items and items[-1] == b'':
            items.pop()
        lines = [[x] for x in items]
    elif 'I' in d:
        lines = [[x.lstrip(b' \t')] for x in data.split(b'\n') if x.strip(b' \t')]
    else:
        cont = False
        for l in data.split(b'\n'):
            ws = l.split()
            if ws:
                if cont and 'L' in d:
                    lines[-1] += ws     # a trailing blank continues the logical line
                else:
                    lines.append(ws)
                cont = l[-1:] in (b' ', b'\t')
    if d.get('E'):
        cut = []
        for l in lines:
            if b(d['E']) in l:
                cut.append(l[:l.index(b(d['E']))])
                break
            cut.append(l)
        lines = [l for l in cut if l]
    runs = []
    if 'I' in d:
        for l in lines:
            runs.append([x.replace(d['I'], l[0].decode('latin-1')) for x in argv])
    else:
        if 'L' in d:
            groups = [sum(lines[i:i + d['L']], []) for i in range(0, len(lines), d['L'])]
        else:
            ws = sum(lines, [])
            n = d.get('n') or max(1, len(ws))
            groups = [ws[i:i + n] for i in range(0, len(ws), n)]
        runs = [argv + [x.decode('latin-1') for x in g] for g in groups]
        if not runs and 'r' not in d:
            runs = [argv]
    st = 0
    old = p.fds.pop(0)
    for r in runs:
        if 't' in d:
            err(p, ' '.join(r))
        from .kernel import Handle, Node
        p.fds[0] = Handle(Node('file'), None, True, False)
        if r[0] not in REG:
            st = 127
            break
        s = yield from program(r)(p)
        if s:
            st = 123
    p.fds[0] = old
    return st
