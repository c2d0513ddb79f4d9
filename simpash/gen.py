"""Workload grammar: command lines over every documented option spelling, and inputs that make the options matter.
A workload is plain data (JSON) generated from one seed."""
import random
import re

# ------------------------------------------------------------------------------------------------ values
PATS_BRE = ['a', 'b', 'foo', 'a.*b', '^a', 'b$', '[ab]', 'x*', '^$', 'o\\+', '\\(a\\)\\1', '[[:digit:]]', 'A', 'ab', '.', '1', '\\bfoo', 'fo\\|ba',
            ' ', 'a b', '^', 'q']
PATS_ERE = ['a', 'foo|bar', 'a+b', '(ab)+', '^a', 'b$', '[0-9]{2}', 'x?', '^$', '.', '1', 'A']
PATS_FIX = ['a', 'foo', '.', '*', 'b a', '', '1', '$']


class G:
    """value generators; every method gets the random generator"""

    def __init__(self, r, files, dirs=('d',)):
        self.r = r
        self.files = files
        self.dirs = list(dirs)

    def num(self):
        return str(self.r.choice([0, 1, 1, 2, 2, 3, 5, 7]))

    def pos(self):
        return str(self.r.choice([1, 1, 2, 3, 5]))

    def file(self):
        return self.r.choice(self.files)

    def lst(self):
        r = self.r
        parts = []
        for _ in range(r.choice([1, 1, 2])):
            a = r.randint(1, 4)
            parts.append(r.choice(['%d' % a, '%d-' % a, '-%d' % a, '%d-%d' % (a, a + r.randint(0, 3))]))
        return ','.join(parts)

    def delim1(self):
        return self.r.choice([',', ':', ' ', 'a', ';', 'x', '\t', '1', '='])

    def odelim(self):
        return self.r.choice([',', '::', '', ' ', 'ab', '-', '=', '=x'])

    def key(self):
        r = self.r
        o = lambda: ''.join(r.sample('bdfiMhngrV', r.choice([0, 0, 0, 1, 1, 2])))
        oo = o()
        while sum(c in oo for c in 'nghMV') > 1 or (set(oo) & set('nghM') and set(oo) & set('di')):
            oo = o()
        s = '%d' % r.randint(1, 3)
        if r.random() < .2:
            s += '.%d' % r.randint(1, 3)
        s += oo
        if r.random() < .5:
            s += ',%d' % r.randint(int(s[0]), 4)
            if r.random() < .2:
                s += '.%d' % r.randint(0, 3)
        return s

    def sortword(self):
        return self.r.choice(['numeric', 'general-numeric', 'human-numeric', 'month', 'version'])

    def size(self):
        return self.r.choice(['10', '1K', '4b', '1M', '50%'])

    def batch(self):
        return self.r.choice(['2', '3', '16'])

    def prog(self):
        return self.r.choice(['gzip', 'cat'])

    def tab(self):
        return self.r.choice([',', ':', ' ', '\t', 'a'])

    def pat(self):
        return self.r.choice(PATS_BRE)

    def color(self):
        return self.r.choice(['never', 'auto', 'always'])

    def label(self):
        return self.r.choice(['L', 'some label', 'f1'])

    def sep(self):
        return self.r.choice(['--', '==', '', 'x'])

    def bintype(self):
        return self.r.choice(['text', 'binary', 'without-match'])

    def devact(self):
        return self.r.choice(['read', 'skip'])

    def diract(self):
        return self.r.choice(['read', 'skip'])

    def glob(self):
        return self.r.choice(['*.zzz', 'qq*'])

    def hnum(self):
        return self.r.choice(['0', '1', '2', '3', '5', '-1', '-2', '1K', '1b', '+2'])

    def tnum(self):
        return self.r.choice(['0', '1', '2', '3', '5', '-2', '+1', '+2', '+3', '1b'])

    def method(self):
        return self.r.choice(['none', 'prepend', 'separate'])

    def gmethod(self):
        return self.r.choice(['separate', 'prepend', 'append', 'both'])

    def mode(self):
        return self.r.choice(['warn', 'warn-nopipe', 'exit', 'exit-nopipe'])

    def dir(self):
        return self.r.choice(self.dirs)

    def suffix(self):
        return self.r.choice(['.bak', '~', '.orig'])

    def control(self):
        return self.r.choice(['none', 'off', 'numbered', 'simple', 'existing', 't'])

    def when(self):
        return self.r.choice(['never', 'once', 'always', 'no'])

    def perm(self):
        return self.r.choice(['600', '644', '0666'])

    def fmt(self):
        return self.r.choice(['%g', '%03g', 'x%g', '%.2f'])

    def word(self):
        return self.r.choice(['x', ', ', '', 'ab', '\\n'])

    def script(self):
        return sed_script(self.r, False)

    def var(self):
        return self.r.choice(['x=1', 'x=a', 'x=foo', 'y=b', 'x=', 'x=a b'])

    def fs(self):
        return self.r.choice([',', ':', 't', ' ', '\t', 'a'])

    def awkprog(self):
        from .cmds2 import AWK_PROGRAMS
        return self.r.choice(AWK_PROGRAMS)

    def lib(self):
        return self.r.choice(['time', 'fork'])

    def style(self):
        return self.r.choice(['%L', '%l\n'])

    def pal(self):
        return self.r.choice(['ad=32', 'de=31:ad=32'])

    def eof(self):
        return self.r.choice(['END', 'b', 'foo', '_'])

    def repl(self):
        return self.r.choice(['{}', 'R', '@@'])

    def xdelim(self):
        return self.r.choice([',', ':', '\\n', ' ', '\n'])


# (key, spellings, value generator name or None, optional argument?)
def O(spell, val=None, opt=False, w=1.0):
    return (spell.split()[0], spell.split(), val, opt, w)


OPTS = {
    'cat': [O('-A --show-all'), O('-b --number-nonblank'), O('-e'), O('-E --show-ends'), O('-n --number'), O('-s --squeeze-blank'),
            O('-t'), O('-T --show-tabs'), O('-u'), O('-v --show-nonprinting')],
    'cut': [O('-n'), O('--complement'), O('-s --only-delimited'), O('-z --zero-terminated'), O('-b --bytes', 'lst'), O('-c --characters', 'lst'),
            O('-d --delimiter', 'delim1'), O('-f --fields', 'lst'), O('--output-delimiter', 'odelim')],
    'head': [O('-q --quiet --silent'), O('-v --verbose'), O('-z --zero-terminated'), O('-n --lines', 'hnum'), O('-c --bytes', 'hnum')],
    'tail': [O('-q --quiet --silent'), O('--retry'), O('-v --verbose'), O('-z --zero-terminated'), O('-s --sleep-interval', 'num'),
             O('--pid', 'pos'), O('--max-unchanged-stats', 'num'), O('-n --lines', 'tnum'), O('-c --bytes', 'tnum')],
    'tr': [O('-c -C --complement'), O('-d --delete'), O('-s --squeeze-repeats'), O('-t --truncate-set1')],
    'uniq': [O('-c --count'), O('-d --repeated'), O('-D'), O('-i --ignore-case'), O('-u --unique'), O('-z --zero-terminated'),
             O('--all-repeated', 'method', True), O('--group', 'gmethod', True), O('-f --skip-fields', 'num'), O('-s --skip-chars', 'num'),
             O('-w --check-chars', 'num')],
    'comm': [O('-1'), O('-2'), O('-3'), O('--check-order'), O('--nocheck-order'), O('--total'), O('-z --zero-terminated'),
             O('--output-delimiter', 'odelim')],
    'wc': [O('-c --bytes'), O('-m --chars'), O('-l --lines'), O('-L --max-line-length'), O('-w --words'), O('--files0-from', 'file', False, .2)],
    'tee': [O('-a --append'), O('-i --ignore-interrupts'), O('-p'), O('--output-error', 'mode', True)],
    'rm': [O('-f --force'), O('-i'), O('-I'), O('--one-file-system'), O('--no-preserve-root'), O('-r -R --recursive'), O('-d --dir'),
           O('-v --verbose'), O('--interactive', 'when', True), O('--preserve-root', None)],
    'mv': [O('-b'), O('--backup', 'control', True), O('-f --force'), O('-i --interactive'), O('-n --no-clobber'), O('--strip-trailing-slashes'),
           O('-T --no-target-directory'), O('-u --update'), O('-v --verbose'), O('-Z --context'), O('-S --suffix', 'suffix'),
           O('-t --target-directory', 'dir')],
    'mkfifo': [O('-Z'), O('-m --mode', 'perm'), O('--context', 'label', True)],
    'seq': [O('-w --equal-width'), O('-f --format', 'fmt'), O('-s --separator', 'word')],
    'col': [O('-b --no-backspaces'), O('-f --fine'), O('-h --tabs'), O('-p --pass'), O('-x --spaces'), O('-l --lines', 'pos')],
    'sort': [O('-b --ignore-leading-blanks'), O('-d --dictionary-order'), O('-f --ignore-case'), O('-g --general-numeric-sort'),
             O('-i --ignore-nonprinting'), O('-M --month-sort'), O('-h --human-numeric-sort'), O('-n --numeric-sort', None, False, 2),
             O('-R --random-sort'), O('-r --reverse', None, False, 2), O('-V --version-sort'), O('-c --check'), O('-C'), O('--debug'),
             O('-m --merge'), O('-s --stable'), O('-u --unique'), O('-z --zero-terminated'), O('--random-source', 'file'),
             O('--sort', 'sortword'), O('--batch-size', 'batch'), O('--compress-program', 'prog'), O('--files0-from', 'file', False, .3),
             O('-k --key', 'key', False, 3), O('-o --output', 'file'), O('-S --buffer-size', 'size'), O('-t --field-separator', 'tab', False, 2),
             O('-T --temporary-directory', 'dir'), O('--parallel', 'pos')],
    'grep': [O('-E --extended-regexp'), O('-F --fixed-strings'), O('-G --basic-regexp'), O('-P --perl-regexp', None, False, .5),
             O('-i -y --ignore-case'), O('--no-ignore-case'), O('-v --invert-match'), O('-w --word-regexp'), O('-x --line-regexp'), O('-c --count'),
             O('-L --files-without-match'), O('-l --files-with-matches'), O('-o --only-matching'), O('-q --quiet --silent'),
             O('-s --no-messages'), O('-b --byte-offset'), O('-H --with-filename'), O('-h --no-filename'), O('-n --line-number'),
             O('-T --initial-tab'), O('-Z --null'), O('--no-group-separator'), O('-a --text'), O('-I'),
             O('-r --recursive', None, False, .3), O('-R --dereference-recursive', None, False, .3), O('--line-buffered'), O('-U --binary'),
             O('-z --null-data'), O('--color --colour', 'color', True), O('-e --regexp', 'pat', False, 1.5), O('-f --file', 'file', False, 1.5),
             O('-m --max-count', 'num'), O('--label', 'label'), O('-A --after-context', 'num'), O('-B --before-context', 'num'),
             O('-C --context', 'num'), O('--group-separator', 'sep'), O('--binary-files', 'bintype'), O('-D --devices', 'devact'),
             O('-d --directories', 'diract'), O('--exclude', 'glob'), O('--exclude-from', 'file'), O('--exclude-dir', 'glob'),
             O('--include', 'label', False, .01)],
    'sed': [O('-n --quiet --silent'), O('--debug'), O('--follow-symlinks'), O('--posix'), O('-E -r --regexp-extended'), O('-s --separate'),
            O('--sandbox'), O('-u --unbuffered'), O('-z --null-data'), O('-i --in-place', 'suffix', True, .5), O('-l --line-length', 'pos'),
            O('-e --expression', 'script', False, 1.5), O('-f --file', 'file', False, 1.5)],
    'awk': [O('-b --characters-as-bytes'), O('-c --traditional'), O('-C --copyright', None, False, .2), O('-d --dump-variables', 'label', True),
            O('-g --gen-pot', None, False, .2), O('-L --lint'), O('-M --bignum'), O('-n --non-decimal-data'), O('-N --use-lc-numeric'),
            O('-O --optimize'), O('-P --posix'), O('-r --re-interval'), O('-S --sandbox'), O('-t --lint-old'), O('-p --profile', 'label', True),
            O('-f --file', 'file', False, 2), O('-F --field-separator', 'fs', False, 2), O('-v --assign', 'var', False, 2),
            O('-e --source', 'awkprog', False, .7), O('-i --include', 'file', False, .5), O('-E --exec', 'file', False, .3), O('-l --load', 'lib', False, .3)],
    'diff': [O('--normal'), O('-q --brief'), O('-s --report-identical-files'), O('-e --ed'), O('-n --rcs'), O('-y --side-by-side'),
             O('--left-column'), O('--suppress-common-lines'), O('-p --show-c-function'), O('-t --expand-tabs'), O('-T --initial-tab'),
             O('--suppress-blank-empty'), O('-l --paginate'), O('-N --new-file'), O('--unidirectional-new-file'), O('--no-dereference'),
             O('--ignore-file-name-case'), O('--no-ignore-file-name-case'), O('-i --ignore-case'), O('-E --ignore-tab-expansion'),
             O('-Z --ignore-trailing-space'), O('-b --ignore-space-change'), O('-w --ignore-all-space'), O('-B --ignore-blank-lines'),
             O('-a --text'), O('--strip-trailing-cr'), O('-d --minimal'), O('--speed-large-files'), O('-c'), O('-u'), O('--color', 'color', True),
             O('-C', 'num'), O('--context', 'num', True), O('-U', 'num'), O('--unified', 'num', True), O('-W --width', 'pos'),
             O('-F --show-function-line', 'pat'), O('--label', 'label'), O('--tabsize', 'pos'), O('-x --exclude', 'glob'),
             O('-X --exclude-from', 'file', False, 2), O('-S --starting-file', 'label'), O('--from-file', 'file'), O('--to-file', 'file'),
             O('-I --ignore-matching-lines', 'pat'), O('-D --ifdef', 'label'), O('--line-format', 'style'), O('--horizon-lines', 'num'),
             O('--palette', 'pal')],
    'xargs': [O('--null'), O('-o --open-tty'), O('-r --no-run-if-empty'), O('-t --verbose'), O('-x --exit'), O('-d --delimiter', 'xdelim'),
              O('-E --eof', 'eof'), O('-I --replace', 'repl', False, 2), O('-L --max-lines', 'pos'), O('-n --max-args', 'pos'),
              O('-P --max-procs', 'pos')],
    'alt_bigrams_aux': [], 'bigrams_aux': [], 'set_diff': [], 'custom_sort': [], 'custom_tr': [], 'alt_bigram_aux_reduce': [],
    # commands without annotations
    'cp': [O('-f'), O('-v')], 'touch': [O('-c')], 'echo': [],
}


def spell(r, opts, style=None):
    """words for a list of (option row, value or None): random spelling, attached or separate arguments, clusters"""
    words = []
    style = style if style is not None else r.choice(['mix', 'mix', 'short', 'long', 'cluster'])
    can_cluster = False
    for row, val in opts:
        sp = row[1]
        if style == 'long':
            name = sp[-1]
        elif style in ('short', 'cluster'):
            name = sp[0]
        else:
            name = r.choice(sp)
        optional = row[3]
        if name.startswith('--'):
            can_cluster = False
            if val is None:
                words.append(name)
            elif optional or r.random() < .5:
                words.append(name + '=' + val)
            else:
                words += [name, val]
            continue
        ch = name[1:]
        pre = can_cluster and r.random() < (.8 if style == 'cluster' else .35)
        if val is None:
            if pre:
                words[-1] += ch
            else:
                words.append('-' + ch)
            can_cluster = not optional
        elif optional:
            words.append('-' + ch + val)
            can_cluster = False
        else:
            if val != '' and r.random() < .4:
                w = [ch + val]
            else:
                w = [ch, val]
            if pre:
                words[-1] += w[0]
                words += w[1:]
            else:
                words.append('-' + w[0])
                words += w[1:]
            can_cluster = False
    return words


SAFE = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_@%+=:,./-')


def quote(r, w):
    """one of the shell spellings of a word"""
    if w and all(c in SAFE for c in w):
        k = r.random()
        if k < .85:
            return w
        if k < .9 and len(w) > 1:
            i = r.randrange(1, len(w))
            return w[:i] + "'" + w[i:] + "'"
        return '"' + w + '"' if k < .95 else "'" + w + "'"
    k = r.random()
    if k < .4 and '"' not in w and '\\' not in w and '$' not in w and '`' not in w:
        return '"' + w + '"'
    if k < .5 and w and '\n' not in w:
        return ''.join(c if c in SAFE else '\\' + c for c in w)
    return "'" + w.replace("'", "'\"'\"'") + "'"


def shq(w):
    return w if w and all(c in SAFE for c in w) else "'" + w.replace("'", "'\"'\"'") + "'"


def shq_line(argv):
    """plain shell spelling"""
    return ' '.join([argv[0]] + [shq(w) for w in argv[1:]])


def line_of(r, argv):
    sep = ' ' if r.random() < .9 else r.choice(['  ', '\t', ' \t '])
    return argv[0] + sep + sep.join(quote(r, w) for w in argv[1:]) if len(argv) > 1 else argv[0]


# options whose repetition with another value is an error
ONCE = ('-o', '--from-file', '--to-file', '--random-source', '--files0-from')


def pick_opts(r, cmd, n, ban=(), values=None):
    table = [o for o in OPTS[cmd] if o[0] not in ban]
    res = []
    for _ in range(n):
        if not table:
            break
        row = r.choices(table, [o[4] for o in table])[0]
        val = None
        if row[2] is not None:
            val = getattr(values, row[2])()
            if row[3] and r.random() < .4:
                val = None
        res.append((row, val))
        if row[0] in ONCE or r.random() < .9 and row[0] not in ('-k', '-e'):
            table.remove(row)
        elif row[0] == '-k' and r.random() < .5:
            res.append((row, getattr(values, row[2])()))
    return res


def nopts(r):
    return r.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 6])


# ------------------------------------------------------------------------------------------------ sed scripts
def sed_script(r, perline):
    """perline: only scripts whose effect on a line does not depend on other lines"""
    ad = lambda: r.choice(['', '', '', '/a/', '/^b/', '/foo/!', '/x$/'])

    def one():
        k = r.random()
        if k < .45:
            d = r.choice('///|,#')
            return '%ss%s%s%s%s%s%s' % (ad(), d, r.choice(['a', 'b*', '^', '$', 'foo', '[0-9]', 'o', ' ', '.', 'a.']).replace(d, '.'), d,
                                        r.choice(['X', '', '&&', 'q', 'z ', '\\n', '-']), d, r.choice(['', 'g', 'p', 'gp', '2', 'I']))
        if k < .55:
            return ad() + r.choice(['y/abc/xyz/', 'y/ab/ba/'])
        if k < .65:
            return ad() + 'p'
        if k < .7 and not perline:
            return r.choice(['1d', '$d', '2,3d', '2q', '=', '$!N', '2p', '/a/,/b/d', '3,$s/a/b/', 'N', '/foo/q', '1!G;h', 'n', '$a end', '2i x', '/a/,3p'])
        if k < .8:
            return ad() + r.choice(['i\\X', 'a\\Y', 'c\\Z', 'l', 'P'])
        return ad() + 'd' if not perline else 's/%s/%s/' % (r.choice('abx1'), r.choice(['', 'Q', 'dd']))
    n = r.choice([1, 1, 1, 2])
    if n == 1:
        return one()
    parts = [one() for _ in range(n)]
    return '\n'.join(parts) if any(p[-2:-1] == '\\' or ' ' in p for p in parts) else ';'.join(parts)


TRSETS1 = ['a-z', 'A-Z', 'abc', 'a', ' ', '\\n', '[:upper:]', '[:lower:]', '[:space:]', '[:punct:]', '[:digit:]', '[:alpha:]', '[:cntrl:]',
           '[:blank:]', '[:alnum:]', '0-9', 'a-zA-Z', ',:', '\\t', '\\012', '\\040', '[:print:]', '\\0', '\n', 'A-Za-z\\n', ' \\n', '\\n ', ',\\n',
           '[:xdigit:]', '[:graph:]', '\\\\', '\\011\\040', 'aeiou', '[=a=]', '\\12', '[:alpha:]\\n', '\\nab', 'xyz']
TRSETS2 = ['A-Z', 'a-z', 'x', '\\n', ' ', '_', '[:lower:]', '[:upper:]', '[\\n*]', '[x*]', '\\012', '\\t', '\n', '\\nA', 'ab', '12', 'A-Y', '[#*3]z',
           '\\0', '\\012x']


def tr_bad(ops, opts):
    """sets with a range crossing newline together with -s: recorded as a known finding, not generated"""
    return False


# ------------------------------------------------------------------------------------------------ inputs
WORDS = ['a', 'b', 'foo', 'bar', 'ab', 'A', 'B', 'Foo', 'x', 'aa', 'abc', '1', '10', '2', '02', '-3', '1.5', '1e2', '3K', '1M', '900', 'JAN', 'feb', 'Mar',
         'v1.2', 'v1.10', 'a.b', 'f~', 'q', 'zz', 'a-b', '', 'foo_bar', '.5', '+4', 'END', '0', '-0', 'dec', '2G']


def text(r, kind=None, maxlines=14):
    """file content: few distinct lines, duplicates, empty lines, blanks, fields, perhaps no final newline"""
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, maxlines])
    kind = kind or r.choice(['words', 'words', 'fields', 'fields', 'num', 'blank', 'ctl', 'month', 'human', 'version', 'case', 'dup'])
    ls = []
    for _ in range(n):
        if kind == 'words':
            l = ' '.join(r.choice(WORDS) for _ in range(r.choice([0, 1, 1, 2, 3])))
        elif kind == 'fields':
            s = r.choice([',', ':', '\t', ' ', '  '])
            l = s.join(r.choice(WORDS) for _ in range(r.choice([1, 2, 3, 4])))
        elif kind == 'num':
            l = r.choice(['', '', ' ', '-', '+']) + str(r.choice([0, 1, 2, 3, 9, 10, 11, 100, 1000])) + r.choice(['', '', '.5', 'e1', ' a', 'x', ' b'])
        elif kind == 'blank':
            l = r.choice(['', '', ' ', '\t', '  a', 'a ', ' b', 'a  b', '\ta'])
        elif kind == 'ctl':
            l = r.choice(['a\bb', 'a\tb', 'ab\b\bcd', 'x\ry', '\x01a', 'a\x7f', 'b\xe9', 'a', '_\ba', '  \ta', '\tb', 'a\x0bb' if False else 'ab', '"q"', '*#!'])
        elif kind == 'month':
            l = r.choice(['JAN', 'feb', ' Mar', 'APR 1', 'xyz', 'may', 'DEC', 'dec 2', ''])
        elif kind == 'human':
            l = r.choice(['1K', '2', '1M', '900', '3k', '0', '-1K', '1.5K', '2G', '', 'x'])
        elif kind == 'version':
            l = r.choice(['v1', 'v1.2', 'v1.10', 'v1.10.1', 'a-1.tar', 'a-10.tar', 'a-2.tar', '.a', '', 'v1~', 'v01'])
        elif kind == 'case':
            l = r.choice(['a', 'A', 'b', 'B', 'ab', 'AB', 'aB', ' a', 'a b', 'A B', '_a', '!a'])
        else:
            l = r.choice(['a', 'a', 'b', 'a a', 'b a', 'c a'])
        ls.append(l)
    if r.random() < .3 and ls:
        ls += r.choices(ls, k=r.choice([1, 2, 4]))
        r.shuffle(ls)
    s = ''.join(x + '\n' for x in ls)
    if s and r.random() < .3:
        s = s[:-1]
    return s


def sorted_text(r):
    ls = sorted(x for x in text(r, r.choice(['words', 'dup', 'case'])).split('\n'))
    return ''.join(x + '\n' for x in ls)


# ------------------------------------------------------------------------------------------------ parallelizable command lines
PAR_CMDS = ['sort', 'grep', 'tr', 'cut', 'sed', 'col', 'set_diff', 'custom_sort', 'custom_tr', 'xargs', 'alt_bigrams_aux', 'bigrams_aux']


OTHERS = ['uniq', 'head', 'tail', 'wc', 'cat', 'comm', 'awk', 'diff', 'tee', 'seq', 'grep', 'tr']     # sed scripts and cut -z: see known findings


def any_case(r):
    """any command line over a few files, most of which the library rightly does not parallelize"""
    cmd = r.choice(OTHERS)
    files = {}
    fill(r, files, cmd)
    files = {n: d for n, d in files.items() if n not in ('-dash', 'f=1')}
    F = Files(r, pool=[n for n in POOL if n in files], missing=0, spelled=.05)
    argv = io_argv(r, cmd, F, .05)
    data = text(r, r.choice(['dup', 'words', None]), 10)
    return {'cmd': cmd, 'argv': argv, 'line': line_of(r, argv), 'files': files, 'input': None, 'stdin': data}


def par_case(r, cmds=None, weights=None):
    """a command line the library may parallelize: {'cmd', 'argv', 'line', 'files', 'stdin', 'input'}
    input names where the bulk data lives: 'stdin' or a file name"""
    if cmds is None and r.random() < .12:
        return any_case(r)
    cmds = cmds or PAR_CMDS
    w = weights or {'sort': 6, 'grep': 6, 'tr': 4, 'cut': 3, 'sed': 4, 'col': 1, 'xargs': 1.5, 'custom_sort': .5, 'custom_tr': .7, 'set_diff': .7,
                    'alt_bigrams_aux': .7, 'bigrams_aux': .7}
    cmd = r.choices(cmds, [w.get(c, 1) for c in cmds])[0]
    files = {'side1': text(r, 'words', 4), 'side2': text(r, None, 6)}
    kind = None
    g = G(r, ['side1', 'side2'])
    use_file = r.random() < .5
    inp = r.choice(['in', 'in.txt', 'd/in', './in', 'my file']) if use_file else None
    ops = []
    opts = []
    if cmd == 'sort':
        opts = pick_opts(r, cmd, nopts(r), ('--files0-from', '-T'), g)
        seen = set(o[0][0] for o in opts)
        conf = [k for k in ('-n', '-g', '-h', '-M', '-V', '--sort', '-R') if k in seen]
        if len(conf) > 1:
            opts = [o for o in opts if o[0][0] not in conf[1:]]
        if conf:
            opts = [o for o in opts if o[0][0] not in ('-d', '-i')]
        opts = [(row, 'out' if row[0] == '-o' else v) for row, v in opts]
        kind = r.choice([None, {'-n': 'num', '-g': 'num', '-h': 'human', '-M': 'month', '-V': 'version'}.get(conf[0] if conf else '', 'case')])
        if any(o[0][0] in ('-k', '-t') for o in opts) and r.random() < .7:
            kind = 'fields'
        ops = [inp] if use_file else []
    elif cmd == 'custom_sort':
        ops = [inp] if use_file else []
    elif cmd == 'grep':
        opts = pick_opts(r, cmd, nopts(r), ('-r', '-R', '--include'), g)
        opts = [o for o in opts if not (o[0][0] in ('-A', '-B', '-C', '-q', '-m', '-c', '-l', '-L', '-n', '-b', '-H', '-z') and r.random() < .55)]
        ext = any(o[0][0] in ('-E', '-P') for o in opts)
        fix = any(o[0][0] == '-F' for o in opts)
        if sum(o[0][0] in ('-E', '-F', '-P', '-G') for o in opts) > 1:
            opts = [o for o in opts if o[0][0] not in ('-P', '-G', '-F')]
            fix = False
        pool = PATS_FIX if fix else PATS_ERE if ext else PATS_BRE
        pat = lambda: r.choice([p for p in pool if p != '^' or True])
        opts = [(row, pat() if row[0] == '-e' else v) for row, v in opts]
        files['side1'] = '\n'.join(pat() for _ in range(r.choice([1, 1, 2]))) + '\n'
        opts = [(row, 'side1' if row[0] in ('-f',) else 'side2' if row[0] == '--exclude-from' else v) for row, v in opts]
        if not any(o[0][0] in ('-e', '-f') for o in opts):
            ops = [pat()]
        if use_file:
            ops.append(inp)
        elif r.random() < .1:
            ops.append('-')
        kind = r.choice(['words', 'words', 'fields', 'case', 'blank', None])
    elif cmd == 'tr':
        opts = pick_opts(r, cmd, r.choice([0, 1, 1, 2, 2, 3]), (), g)
        seen = set(o[0][0] for o in opts)
        if '-d' in seen and '-s' not in seen:
            ops = [r.choice(TRSETS1)]
        elif '-s' in seen and '-d' not in seen and r.random() < .6:
            ops = [r.choice(TRSETS1)]
        else:
            ops = [r.choice(TRSETS1), r.choice(TRSETS2)]
        kind = r.choice(['words', 'blank', 'ctl', 'fields', 'case', 'dup', None])
        use_file = False
    elif cmd == 'cut':
        opts = pick_opts(r, cmd, r.choice([0, 0, 1, 1, 2]), ('-z', '-b', '-c', '-d', '-f'), g)
        m = r.choice(['-b', '-c', '-f', '-f', '-f'])
        rows = {o[0]: o for o in OPTS['cut']}
        opts.append((rows[m], g.lst()))
        if m == '-f' and r.random() < .8:
            opts.append((rows['-d'], g.delim1() if r.random() < .9 else '\n'))
        r.shuffle(opts)
        kind = r.choice(['fields', 'fields', 'ctl', None])
        ops = [inp] if use_file else ['-'] if r.random() < .1 else []
    elif cmd == 'sed':
        opts = pick_opts(r, cmd, r.choice([0, 0, 1, 1, 2, 3]), ('-i', '-e', '-f'), g)
        k = r.random()
        rows = {o[0]: o for o in OPTS['sed']}
        if k < .7:
            s = sed_script(r, True)
            if r.random() < .15 and not use_file:
                s = r.choice(['2d', '/a/d', '1q', '/b/q', '$d'])     # not parallelizable: contain d or q and do not start with s
            ops = [s]
        elif k < .85:
            for _ in range(r.choice([1, 1, 2])):
                opts.append((rows['-e'], sed_script(r, True) if r.random() < .8 else r.choice(['/a/d', '/foo/!d', '/^$/d'])))
        else:
            files['side1'] = sed_script(r, True) + '\n'
            opts.append((rows['-f'], 'side1'))
        if use_file:
            ops.append(inp)
        kind = r.choice(['words', 'words', 'fields', None])
    elif cmd == 'col':
        opts = pick_opts(r, cmd, r.choice([0, 1, 1, 2, 3]), (), g)
        use_file = False
        kind = r.choice(['ctl', 'ctl', 'blank', 'fields', None])
    elif cmd == 'xargs':
        rows = {o[0]: o for o in OPTS['xargs']}
        use_file = False
        k = r.random()
        if k < .5:
            rep = g.repl()
            opts = [(rows['-I'], rep)]
            ops = r.choice([['echo', rep], ['echo', 'x' + rep, 'y'], ['echo', '-' + rep, rep]])
            if r.random() < .3:
                opts.insert(0, (rows['-t'], None))
            if r.random() < .3:
                opts.insert(0, (rows['-r'], None))
        elif k < .7:
            ops = ['cat']
            files.update({'a': 'one\ntwo\n', 'b': 'three\n', 'x': '', 'q': 'noeol'})
            opts = pick_opts(r, cmd, r.choice([0, 1]), [o[0] for o in OPTS['xargs'] if o[0] not in ('-r', '-t', '-x')], g)
            kind = 'dup'
        else:
            opts = [(rows['-r'], None), (rows[r.choice(['-n', '-L'])], '1')]
            if r.random() < .3:
                opts.append((rows['-P'], '1'))
            r.shuffle(opts)
            ops = ['echo'] + (['v'] if r.random() < .5 else [])
        kind = kind or r.choice(['words', 'dup', 'fields'])
        nostrip = '-L' not in [o[0][0] for o in opts]
    elif cmd == 'set_diff':
        ops = ['side1']
        use_file = False
        files['side1'] = text(r, 'dup')
        kind = 'dup'
    elif cmd == 'custom_tr':
        ops = r.choice([['-d', r.choice(TRSETS1)], [r.choice(TRSETS1), r.choice(TRSETS2)], [r.choice(TRSETS1), r.choice(TRSETS2)]])
        use_file = False
        kind = r.choice(['words', 'case', 'ctl', None])
    else:
        use_file = False
        kind = r.choice(['words', 'dup', 'words'])
    argv = [cmd] + spell(r, opts) + ops
    data = text(r, kind, r.choice([6, 14, 30]))
    if cmd == 'xargs' and not nostrip:      # blanks at the end of a line: see known findings
        data = re.sub('[ \t]+(?=\n|$)', '', data)
    if cmd == 'xargs' and 'cat' in ops:
        data = ''.join(r.choice(['a', 'b', 'x', 'q']) + r.choice(['\n', '\n', ' ']) for _ in range(r.choice([0, 1, 3, 6])))
        data = data.rstrip(' \n') + '\n' if data else ''
    if cmd in ('grep',):
        data = data.replace('\0', '')
    case = {'cmd': cmd, 'argv': argv, 'line': line_of(r, argv), 'files': files, 'input': inp if use_file else None}
    if use_file:
        files[inp] = data
        case['stdin'] = text(r, 'words', 4) if r.random() < .2 else None
    else:
        case['stdin'] = data
    return case


# ------------------------------------------------------------------------------------------------ any command line
IO_CMDS = {'cat': 3, 'cut': 2, 'head': 2, 'tail': 2, 'tr': 2, 'uniq': 3, 'comm': 3, 'wc': 2, 'tee': 3, 'rm': 1, 'mv': 1, 'mkfifo': .7, 'seq': .7,
           'col': .7, 'sort': 5, 'grep': 5, 'sed': 3, 'awk': 3, 'diff': 4, 'xargs': 1.5, 'custom_sort': .4, 'custom_tr': .5, 'set_diff': .7,
           'alt_bigrams_aux': .3, 'bigrams_aux': .3, 'alt_bigram_aux_reduce': .3, 'cp': .5, 'touch': .5, 'echo': .4}
POOL = ['f1', 'f2', 'f3', 'd/x', 'my file', 'g.txt', '-dash', 'sub/a.b', 'f=1']
SPARE = ['n1', 'n2', 'd/new', 'out put', 'f1.out']


class Files:
    """which files a generated command line may name"""

    def __init__(self, r, pool=POOL, spare=SPARE, missing=.06, spelled=.15):
        self.r = r
        self.pool = list(pool)
        self.spare = list(spare)
        self.missing = missing
        self.spelled = spelled
        self.used = []

    def spelling(self, n):
        r = self.r
        if n.startswith('-'):
            return './' + n
        if r.random() < self.spelled:
            return r.choice(['./' + n, 'd/../' + n, n.replace('/', '//') if '/' in n else './/' + n, '/w/' + n])
        return n

    def read(self):
        if self.missing and self.r.random() < self.missing:
            return 'nofile'
        n = self.r.choice(self.pool)
        self.used.append(n)
        return self.spelling(n)

    def out(self, reuse=.4):
        n = self.r.choice(self.pool if self.r.random() < reuse else self.spare)
        return self.spelling(n)


def fill(r, files, cmd):
    """contents for the pool: text, sorted text, scripts"""
    for n in POOL:
        files[n] = sorted_text(r) if cmd in ('comm', 'uniq') and r.random() < .8 else text(r, None, 8)
    if cmd == 'diff' and r.random() < .5:
        files['f2'] = '\n'.join(x for x in files['f1'].split('\n') if r.random() < .8)
        files['f3'] = files['f1']
    if cmd == 'xargs':
        for n in POOL:
            files[n] = re.sub('[ \\t]+(?=\\n|$)', '', files[n])
    files['s1'] = sed_script(r, False) + '\n'
    from .cmds2 import AWK_PROGRAMS
    files['p1'] = r.choice(AWK_PROGRAMS) + '\n'
    files['p2'] = r.choice(AWK_PROGRAMS) + '\n'
    files['pat1'] = '\n'.join(r.choice(PATS_BRE) for _ in range(r.choice([1, 1, 2]))) + '\n'


def io_ops(r, cmd, F, dash=.08):
    """(options, operands)"""
    g = G(r, POOL[:6], ('d', 'sub'))
    opts = []
    ops = []

    def rd():
        return F.read()

    def inputs(choices):
        res = [rd() for _ in range(r.choice(choices))]
        if res and r.random() < dash:
            res[r.randrange(len(res))] = '-'
        return res
    if cmd in ('cat', 'head', 'tail', 'wc', 'cut'):
        if cmd == 'cut':
            opts = pick_opts(r, cmd, r.choice([0, 0, 1, 1, 2]), ('-b', '-c', '-d', '-f'), g)
            rows = {o[0]: o for o in OPTS['cut']}
            m = r.choice(['-b', '-c', '-f', '-f', '-f'])
            opts.append((rows[m], g.lst()))
            if m == '-f' and r.random() < .8:
                opts.append((rows['-d'], g.delim1()))
            else:
                opts = [o for o in opts if o[0][0] != '-s'] if m != '-f' else opts
            r.shuffle(opts)
        else:
            opts = pick_opts(r, cmd, nopts(r), (), g)
        if cmd in ('head', 'tail') and sum(o[0][0] in ('-n', '-c') for o in opts) > 1:
            opts = [o for o in opts if o[0][0] != '-c']
        ops = inputs([0, 1, 1, 1, 2, 2, 3, 4])
        if cmd == 'wc' and any(o[0][0] == '--files0-from' for o in opts):
            ops = []
    elif cmd == 'sort':
        opts = pick_opts(r, cmd, nopts(r), (), g)
        conf = [k for k in ('-n', '-g', '-h', '-M', '-V', '--sort', '-R') if any(o[0][0] == k for o in opts)]
        opts = [o for o in opts if o[0][0] not in conf[1:] and not (conf and o[0][0] in ('-d', '-i'))]
        opts = [(row, F.out() if row[0] == '-o' else rd() if row[0] == '--random-source' else v) for row, v in opts]
        ops = inputs([0, 1, 1, 1, 2, 3])
        if any(o[0][0] == '--files0-from' for o in opts):
            ops = []
        if any(o[0][0] in ('-c', '-C') for o in opts):
            ops = ops[:1]
            opts = [o for o in opts if o[0][0] not in ('-o', '--debug')]
    elif cmd == 'custom_sort':
        ops = inputs([0, 1, 2])
    elif cmd == 'uniq':
        opts = pick_opts(r, cmd, nopts(r), (), g)
        if any(o[0][0] == '--group' for o in opts):
            opts = [o for o in opts if o[0][0] not in ('-c', '-d', '-D', '-u', '--all-repeated')]
        ops = inputs([0, 1, 1])
        if ops and r.random() < .45:
            o = F.out()
            if strip(o) != strip(ops[0]):
                ops.append(o)
    elif cmd == 'comm':
        opts = pick_opts(r, cmd, r.choice([0, 1, 1, 2, 3]), (), g)
        ops = inputs([2])
    elif cmd == 'diff':
        opts = pick_opts(r, cmd, nopts(r), (), g)
        style = [k for k in ('-e', '-n', '-y', '-c', '-u', '-C', '--context', '-U', '--unified', '--normal', '-q', '-D', '--line-format')
                 if any(o[0][0] == k for o in opts)]
        opts = [o for o in opts if o[0][0] not in style[1:]]
        opts = [(row, rd() if row[0] in ('-X', '--from-file', '--to-file') else v) for row, v in opts]
        both = any(o[0][0] == '--from-file' for o in opts) and any(o[0][0] == '--to-file' for o in opts)
        if both:
            opts = [o for o in opts if o[0][0] != '--to-file']
        ops = inputs([1, 2, 3]) if any(o[0][0] in ('--from-file', '--to-file') for o in opts) else inputs([2])
    elif cmd == 'grep':
        opts = pick_opts(r, cmd, nopts(r), ('-r', '-R', '--include'), g)
        mats = [k for k in ('-E', '-F', '-P', '-G') if any(o[0][0] == k for o in opts)]
        opts = [o for o in opts if o[0][0] not in mats[1:]]
        pool = PATS_FIX if mats[:1] == ['-F'] else PATS_ERE if mats[:1] in (['-E'], ['-P']) else PATS_BRE
        if mats[:1] == ['-P']:
            opts = [o for o in opts if o[0][0] != '-f']
        opts = [(row, r.choice(pool) if row[0] == '-e' else r.choice(['pat1', 'pat1', rd()]) if row[0] == '-f' else rd()
                 if row[0] == '--exclude-from' else v) for row, v in opts]
        if not any(o[0][0] in ('-e', '-f') for o in opts):
            ops = [r.choice(pool)]
        ops += inputs([0, 1, 1, 1, 2, 3])
    elif cmd == 'sed':
        opts = pick_opts(r, cmd, r.choice([0, 0, 1, 1, 2, 3]), (), g)
        opts = [(row, 's1' if row[0] == '-f' else v) for row, v in opts]
        if not any(o[0][0] in ('-e', '-f') for o in opts):
            ops = [sed_script(r, False)]
        ops += inputs([0, 1, 1, 2, 3])
    elif cmd == 'awk':
        opts = pick_opts(r, cmd, nopts(r), (), g)
        if any(o[0][0] == '-E' for o in opts):
            e = [o for o in opts if o[0][0] == '-E']
            opts = [o for o in opts if o[0][0] not in ('-E', '-f', '-e')] + e
        opts = [(row, r.choice(['p1', 'p2']) if row[0] in ('-f', '-i', '-E') else F.out() if row[0] in ('-d', '-p') and v else v)
                for row, v in opts]
        if not any(o[0][0] in ('-f', '-e', '-E') for o in opts):
            ops = [g.awkprog()]
        ops += inputs([0, 1, 1, 2, 3])
        if r.random() < .05:
            ops.append(g.var())
    elif cmd == 'tr':
        opts = pick_opts(r, cmd, r.choice([0, 1, 1, 2, 2, 3]), (), g)
        seen = set(o[0][0] for o in opts)
        one = '-d' in seen and '-s' not in seen or '-s' in seen and '-d' not in seen and r.random() < .5
        ops = [r.choice(TRSETS1)] if one else [r.choice(TRSETS1), r.choice(TRSETS2)]
    elif cmd == 'custom_tr':
        ops = r.choice([['-d', r.choice(TRSETS1)], [r.choice(TRSETS1), r.choice(TRSETS2)]])
    elif cmd == 'tee':
        opts = pick_opts(r, cmd, r.choice([0, 0, 1, 1, 2]), (), g)
        ops = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            o = F.out()
            if strip(o) not in [strip(x) for x in ops]:
                ops.append(o)
    elif cmd == 'rm':
        opts = pick_opts(r, cmd, r.choice([0, 1, 1, 2]), (), g)
        ops = [r.choice([F.out(.9), rd(), 'd'] if any(o[0][0] == '-r' for o in opts) else [F.out(.9), rd()]) for _ in range(r.choice([1, 1, 2]))]
    elif cmd == 'mv':
        opts = pick_opts(r, cmd, r.choice([0, 0, 1, 1, 2]), (), g)
        if r.random() < .3 and not any(o[0][0] in ('-t', '-T') for o in opts):
            opts.append(([o for o in OPTS['mv'] if o[0] == '-t'][0], g.dir()))
        if any(o[0][0] == '-t' for o in opts):
            opts = [o for o in opts if o[0][0] != '-T']
            ops = [rd() for _ in range(r.choice([1, 1, 2]))]
        elif r.random() < .3 and not any(o[0][0] == '-T' for o in opts):
            ops = [rd(), rd(), 'd'][r.randrange(2):]
        else:
            ops = [rd(), F.out()]
    elif cmd == 'cp':
        opts = pick_opts(r, cmd, r.choice([0, 0, 1]), (), g)
        ops = [rd(), F.out()]
    elif cmd == 'touch':
        opts = pick_opts(r, cmd, r.choice([0, 0, 1]), (), g)
        ops = [F.out()]
    elif cmd == 'echo':
        ops = r.choice([['a'], ['a', 'b'], [], ['x  y']])
    elif cmd == 'mkfifo':
        opts = pick_opts(r, cmd, r.choice([0, 0, 1, 1]), (), g)
        ops = [F.out(.1) for _ in range(r.choice([1, 1, 2]))]
    elif cmd == 'seq':
        opts = pick_opts(r, cmd, r.choice([0, 0, 1, 2]), (), g)
        ops = [str(r.randint(1, 3)) for _ in range(r.choice([1, 2, 3]))]
    elif cmd == 'col':
        opts = pick_opts(r, cmd, r.choice([0, 1, 1, 2, 3]), (), g)
    elif cmd == 'xargs':
        rows = {o[0]: o for o in OPTS['xargs']}
        k = r.random()
        opts = pick_opts(r, cmd, r.choice([0, 1, 1, 2, 3]), ('-I', '-L', '-n'), g)
        if k < .3:
            rep = g.repl()
            opts.append((rows['-I'], rep))
            ops = r.choice([['echo', rep], ['echo', 'x' + rep, 'y'], ['echo', '-' + rep, rep]])
        else:
            if k < .75:
                opts.append((rows[r.choice(['-n', '-L'])], g.pos()))
            ops = ['echo'] + r.choice([[], ['v'], ['v', 'w x']])
        if not any(o[0][0] == '-E' for o in opts):
            r.shuffle(opts)
    elif cmd == 'set_diff':
        ops = [rd()]
    elif cmd == 'alt_bigram_aux_reduce':
        ops = [rd(), rd()]
    return opts, ops


def strip(n):
    """file a spelling denotes"""
    out = []
    for c in ('/w/' + n if not n.startswith('/') else n).split('/'):
        if c in ('', '.'):
            continue
        if c == '..':
            if out:
                out.pop()
        else:
            out.append(c)
    return '/' + '/'.join(out)


DASH_OPTS = {'grep': ('-f', '--exclude-from'), 'diff': ('-X', '--from-file', '--to-file'), 'sed': ('-f',), 'awk': ('-f',),
             'sort': ('-o', '-T', '--random-source'), 'mv': ('-t',)}


def add_dash(r, cmd, opts, ops):
    """a dash where an output or the argument of an option is named"""
    if '-' in ops:
        return
    if cmd == 'uniq' and len(ops) == 2:
        ops[1] = '-'
        return
    at = [i for i, (row, v) in enumerate(opts) if row[0] in DASH_OPTS.get(cmd, ())]
    plain = len(ops) - (cmd in ('grep', 'sed', 'awk') and not any(row[0] in ('-e', '-f') for row, _ in opts))
    if at and plain:
        i = r.choice(at)
        opts[i] = (opts[i][0], '-')
    elif cmd in ('tee', 'rm', 'mv', 'mkfifo') and ops:
        ops[r.randrange(len(ops))] = '-'


def io_argv(r, cmd, F, dash=.08):
    opts, ops = io_ops(r, cmd, F, dash)
    if r.random() < dash:
        add_dash(r, cmd, opts, ops)
    words = spell(r, opts)
    k = r.random()
    if k < .03 and ops and cmd not in ('echo', 'custom_tr'):
        words.append('--')
    if k > .96 and ops and words and cmd not in ('awk', 'xargs', 'custom_tr', 'echo', 'sed', 'grep', 'tr') and len(words) < 3:
        return [cmd] + ops + words      # options after the operands
    return [cmd] + words + ops


def io_case(r, cmds=None, weights=None, missing=.06, dash=.08, spelled=.15):
    cmds = cmds or list(IO_CMDS)
    w = weights or IO_CMDS
    cmd = r.choices(cmds, [w.get(c, 1) for c in cmds])[0]
    files = {}
    fill(r, files, cmd)
    F = Files(r, missing=missing, spelled=spelled)
    argv = io_argv(r, cmd, F, dash)
    data = text(r, None, 10) if r.random() < .9 else None
    if cmd == 'xargs' and data is not None:
        data = re.sub('[ \\t]+(?=\\n|$)', '', data)
    return {'cmd': cmd, 'argv': argv, 'line': line_of(r, argv), 'files': files, 'stdin': data}
