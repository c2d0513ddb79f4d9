"""Writes known_findings.json: every listed finding is one exact command line (the check compares command lines), the input
that shows it, and what fails. 'fixed' records repairs; they suppress nothing."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from simpash.gen import shq_line  # noqa: E402

FILES = {'f1': 'b\na\nc\n', 'f2': 'x\ny\n', 'side1': 'x\n', 'side2': 'b\n', 'a': 'one\n', 'b': 'two\n'}
CFG = {'mode': 'random', 'stall': 0, 'short': 0, 'buf': 64, 'cap': 64}


def par(argv, stdin, k=3, pick=0, **kw):
    c = {'cmd': argv[0], 'argv': argv, 'line': shq_line(argv), 'files': FILES, 'input': None, 'stdin': stdin, 'cfg': CFG, 'crash': None, 'k': k,
         'pick': pick}
    c.update(kw)
    return c


F = []


def find(props, what, argv, stdin, **kw):
    for p in props.split():
        F.append({'property': p, 'what': what, 'case': par(argv, stdin, **kw)})


ABC = 'b 1\na 2\nc 3\nd 4\n'
find('C01 C02', 'cut -z is reported parallelizable by lines (a test of the repository asserts it); its records end with NUL, so only the first '
     'chunk keeps its place', ['cut', '-z', '-d', ' ', '-f', '1'], ABC)
find('C01 C02', 'xargs without -I is reported parallelizable: it joins input lines into one command line', ['xargs', 'echo'], ABC)
find('C01 C02', 'xargs -n 1 runs the command once even for an empty chunk', ['xargs', '-n', '1', 'echo'], '')
find('C01 C02', 'xargs -n 2 groups arguments across lines', ['xargs', '-n', '2', 'echo'], 'a\nb\nc\nd\n')
find('C01 C02', 'xargs -L 1 joins a line ending in a blank with the next one', ['xargs', '-r', '-L', '1', 'echo'], 'a \nb\nc \nd\n')
find('C01 C02', 'sed script addressing a line number is reported parallelizable', ['sed', '1s/$/x/'], ABC)
find('C01 C02', 'sed script addressing the last line is reported parallelizable', ['sed', '$s/$/x/'], ABC)
find('C01 C02', 'sed script printing line numbers is reported parallelizable', ['sed', '='], ABC)
find('C01 C02', 'sed script joining lines is reported parallelizable', ['sed', 'N;s/\\n/-/'], ABC)
find('C01 C02', 'sed script using the hold space is reported parallelizable', ['sed', 'G;h'], ABC)
find('C01 C02', 'sed script quitting after a substitution is reported parallelizable', ['sed', 's/a/A/;q'], ABC)
find('C01 C02', 'tr -s with a range crossing newline is reported parallelizable', ['tr', '-s', '\\t-\\r'], '\n\n\na\n\n\n\n')
# ------------------------------------------------------------------------------------------------ files named inside scripts, xargs
def io(props, what, argv, stdin='b\na\n', others=None):
    line = shq_line(argv)
    for p in props.split():
        if p == 'C05':
            one = lambda a, i: {'argv': a, 'line': shq_line(a), 'stdin': i, 'rin': None, 'rout': None}
            cmds = [one(argv, stdin)] + (others or [one(['cat', 'a'], None), one(['tee', 'out', 'a'], 'zzz\n')])
            c = {'cmds': cmds, 'files': FILES, 'cfg': CFG, 'line': ' ; '.join(x['line'] for x in cmds)}
        else:
            c = {'cmd': argv[0], 'argv': argv, 'line': line, 'files': FILES, 'stdin': stdin, 'cfg': CFG}
            if p == 'C06':
                c.update(nfaults=0, kill=0)
        F.append({'property': p, 'what': what, 'case': c})


io('C05 C06 C07', 'the w command of a sed script writes a file that is not reported', ['sed', 'w out', 'f1'])
io('C05 C06 C07', 'the w flag of a sed substitution writes a file that is not reported', ['sed', 's/a/b/w out', 'f1'])
io('C05 C06 C07', 'the r command of a sed script reads a file that is not reported', ['sed', 'r a', 'f1'])
io('C05 C06 C07', 'an awk program writes a file that is not reported', ['awk', '{print > "out"}', 'f1'])
io('C05 C06 C07', 'commands started by xargs read files that are not reported', ['xargs', 'cat'], 'a\nb\n')
io('C05 C06', 'commands started by xargs remove files that are not reported', ['xargs', 'rm'], 'a\nb\n')
io('C07', 'xargs -a is reported to consume standard input', ['xargs', '-a', 'a', 'echo'])
io('C07', 'a standard input named twice is reported as two inputs', ['cat', '-', '-'])
io('C07', 'a standard input named twice is reported as two inputs', ['comm', '-', '-'])
FIXED = '''C10 d7575ac asking for the inferred parallelizers appended to the stored list, so the same question got a longer answer each time
C09 05b544e the CLI ignored its existence check and overwrote an existing file, relative to the package directory
C07 93f7a90 uniq -f, -s and -w were parsed as flags, their arguments as operands
C01 c0a6e31 long forms of grep options (--count, --quiet, ...) were not recognized, so their case distinctions did not apply
C07 c6e20b7 options of tail, sed, awk, col and mkfifo were parsed as flags, their arguments as operands
C07 8af653a --long=value was parsed as an unknown flag
C07 23dc713 -nVALUE and -abnVALUE were parsed as combined flags
C01 74e3c24 flags given as one combined element escaped the case distinctions
C07 4cb9fe9 options with an optional argument swallowed the next word
C01 5077cfa tr sets starting with an escaped newline or NUL were taken not to contain it
C01 d8d0f83 tr -s squeezing newlines was reported concatenable
C07 6951b09 sed with file operands was reported to read standard input, and -i to write standard output
C13 2607ac1 substituting a stream did not reach option arguments
C01 fff317a grep with context, -m, -z or -H was reported concatenable
C06 bcf6420 grep -r without operands was reported to read standard input only
C01 928f420 sort --debug was reported mergeable
C06 e827fc4 file operands starting with a dash got information that ignored them as options
C01 d864bd2 sed -z and --debug were reported concatenable
C01 b4fd271 cut with newline as delimiter was reported concatenable
C07 2f36960 tr --truncate-set1 was not recognized
C06 26bbdc2 awk program, dump and profile options lost their file accesses
C13 308368f mappers with auxiliary outputs kept access records of streams they no longer mention
C06 b04d78a patterns, scripts and sets starting with a dash got information that ignored them as options
C13 b1170dd substituting streams consumed the caller's list of new variables and lost access records when streams were permuted
C12 a0d4398 comm and set_diff with a wrong number of operands got information if Python ran with -O
C06 316e9a6 tee, rm, mv, mkfifo and sort -o, -T, --random-source: a file named '-' was reported as a standard stream
C06 b13c3c5 awk operands that are assignments were reported as input files'''


def main():
    fixed = []
    for l in FIXED.split('\n'):
        p, c, what = l.split(' ', 2)
        fixed.append('fixed: property=%s %s %s' % (p, c, what))
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json')
    with open(path, 'w') as f:
        json.dump({'findings': F, 'fixed': fixed}, f, indent=1)
        f.write('\n')


main()
