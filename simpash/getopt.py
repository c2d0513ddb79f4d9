"""GNU-style option parsing for the simulated programs, independent of the tables in /repo."""


class Usage(Exception):
    pass


def getopt(argv, short, longs, permute=True):
    """short: 'abc:d::' ; longs: {name: (key, arity)} with arity 0,1,2(optional). Returns ([(key, val)], operands)"""
    ar = {}
    i = 0
    while i < len(short):
        c = short[i]
        n = 0
        while i + 1 < len(short) and short[i + 1] == ':':
            n += 1
            i += 1
        ar[c] = n
        i += 1
    opts = []
    ops = []
    a = list(argv)
    i = 0
    while i < len(a):
        x = a[i]
        i += 1
        if x == '--':
            ops += a[i:]
            break
        if x.startswith('--'):
            name, eq, val = x[2:].partition('=')
            if name not in longs:
                cand = [k for k in longs if k.startswith(name)]
                if len(set(longs[k] for k in cand)) != 1:
                    raise Usage('unrecognized option ' + x)
                name = cand[0]
            key, n = longs[name]
            if n == 0:
                if eq:
                    raise Usage('option does not allow an argument ' + x)
                opts.append((key, None))
            elif eq:
                opts.append((key, val))
            elif n == 2:
                opts.append((key, None))
            else:
                if i >= len(a):
                    raise Usage('option requires an argument ' + x)
                opts.append((key, a[i]))
                i += 1
        elif x.startswith('-') and x != '-':
            j = 1
            while j < len(x):
                c = x[j]
                j += 1
                if c not in ar:
                    raise Usage('invalid option -- ' + c)
                if ar[c] == 0:
                    opts.append((c, None))
                elif j < len(x):
                    opts.append((c, x[j:]))
                    break
                elif ar[c] == 2:
                    opts.append((c, None))
                else:
                    if i >= len(a):
                        raise Usage('option requires an argument -- ' + c)
                    opts.append((c, a[i]))
                    i += 1
        else:
            ops.append(x)
            if not permute:
                ops += a[i:]
                break
    return opts, ops


def longs(spec):
    """'name=key name:=key name::=key name' -> dict; key defaults to '--name'"""
    d = {}
    for w in spec.split():
        name, _, key = w.partition('=')
        n = 0
        while name.endswith(':'):
            name = name[:-1]
            n += 1
        d[name] = (key or '--' + name, n)
    return d
