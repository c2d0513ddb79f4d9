"""Planted bugs, as edits of files under pash_annotations/ (see plant.py)."""
AG = 'annotation_generation/annotation_generators/'
DP = 'annotation_generation/datatypes/parallelizability/'
DATA = 'parser/command_flag_option_info/data/'
PLANTS = []


def bug(id, property, needs, breaks, edits, demo):
    PLANTS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


IMPORTS = '''
from pash_annotations.parser.parser import parse
from pash_annotations.annotation_generation.AnnotationGeneration import (
    get_input_output_info_from_cmd_invocation, get_parallelizability_info_from_cmd_invocation)
import os, sys, tempfile, itertools


def to_vars(line):
    """invocation with one variable per stream"""
    from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars
    from pash_annotations.datatypes.BasicDatatypesWithIO import FileNameWithIOInfo, StdDescriptorWithIOInfo, OptionWithIO
    from pash_annotations.datatypes.BasicDatatypesWithIOVar import OptionWithIOVar
    inv = parse(line)
    io = get_input_output_info_from_cmd_invocation(inv).apply_input_output_info_to_command_invocation(inv)
    access, names, fresh = {}, {}, itertools.count()

    def var(x):
        if isinstance(x, (FileNameWithIOInfo, StdDescriptorWithIOInfo)):
            v = next(fresh)
            access[v], names[v] = x.get_access(), str(x.get_name())
            return v
        return x
    fl = [OptionWithIOVar(f.get_name(), var(f.option_arg)) if isinstance(f, OptionWithIO) else f for f in io.flag_option_list]
    ops = [var(o) for o in io.operand_list]
    i = var(io.implicit_use_of_streaming_input)
    o = var(io.implicit_use_of_streaming_output)
    return CommandInvocationWithIOVars(io.cmd_name, fl, ops, i, o, access), names


def parallelizers(line):
    info = get_parallelizability_info_from_cmd_invocation(parse(line))
    return [] if info is None else [p for p in info.get_inferred_parallelizer_list() if p.are_all_parts_implemented()]
'''

# ---------------------------------------------------------------- C01
bug('c01-sort-filter-keeps-last-key', 'C01',
    'sort with the same key option given several times, and chunks whose lines tie on the last one',
    'the merging aggregator of sort knows only the last -k, so its output is not sorted by the first key',
    [(DP + 'TransformerFlagOptionList.py',
      """        return [flagoption for flagoption in original_flag_option_list
                if flagoption.get_name() in self.list_filter]""",
      """        # by name, in the order of the original list
        kept = {flagoption.get_name(): flagoption for flagoption in original_flag_option_list
                if flagoption.get_name() in self.list_filter}
        return list(kept.values())""")],
    IMPORTS + '''
inv, _ = to_vars('sort -k2,2 -k1,1')
for p in parallelizers('sort -k2,2 -k1,1'):
    agg = p.get_actual_aggregator(inv, [101, 102], 103)
    keys = [o.option_arg.get_name() for o in agg.flag_option_list if o.get_name() == '-k']
    if keys != ['2,2', '1,1']:
        print('the aggregator merges by', keys)
        sys.exit(1)
''')

# ---------------------------------------------------------------- C02
bug('c02-third-spelling-of-flags', 'C02',
    'a flag spelt with the last of at least three spellings, --silent of grep or --complement of tr',
    'tr --complement -s a-z is taken for tr -s a-z, which squeezes no newlines, and parallelized by concatenation',
    [('parser/parser.py',
      """        for i in range(1, len(list_of_equiv_flag_repr)):
            dict_flag_to_primary_repr""",
      """        # the primary representation, and its alternative
        for i in range(1, min(len(list_of_equiv_flag_repr), 2)):
            dict_flag_to_primary_repr""")],
    IMPORTS + '''
def offered(line):
    return sorted(str(p) for p in parallelizers(line))
if offered("grep --silent a") != offered("grep -q a") or offered("tr --complement -s a-z") != offered("tr -c -s a-z"):
    print('differently spelt flags are parallelized differently')
    sys.exit(1)
''')

# ---------------------------------------------------------------- C03
# ---------------------------------------------------------------- C04
bug('c04-aggregator-auxiliaries-in-canonical-order', 'C04',
    'at least two auxiliary streams and variables which were not allotted in ascending order',
    'the pairwise aggregator writes its auxiliary outputs in the order of the variables instead of the announced order',
    [(DP + 'AggregatorSpec.py',
      "        for x in [fst_normal_input] + fst_aux_inputs_from + [snd_normal_input] + snd_aux_inputs_from + [output_to] + aux_outputs_to:",
      "        for x in all_inputs + [output_to] + sorted(aux_outputs_to):")],
    IMPORTS + '''
inv, _ = to_vars('bigrams_aux')
ok = False
for line in ('bigrams_aux', 'alt_bigrams_aux'):
    for p in parallelizers(line):
        if p.get_info_mapper_aggregator() == 0:
            continue
        n = p.get_info_mapper_aggregator()
        outs = list(range(60, 60 - n, -1))
        agg = p.get_actual_2_ary_aggregator_with_aux(10, list(range(11, 11 + n)), 30, list(range(31, 31 + n)), 90, outs)
        if agg.operand_list[-n:] != outs:
            print('auxiliary outputs', agg.operand_list[-n:], 'instead of', outs)
            sys.exit(1)
''')

# ---------------------------------------------------------------- C05
bug('c05-other-outputs-in-operands-only', 'C05',
    'mv with its target directory given by -t, next to a command which reads a file in that directory',
    'mv -t DIR is no longer recognised as having outputs other than streams, and is run concurrently with readers',
    [('annotation_generation/datatypes/InputOutputInfo.py',
      """        typer_lists = list(itertools.chain(self.flagoption_list_typer, self.operand_list_typer))
        for _, pot_accesskind in typer_lists:""",
      """        for _, pot_accesskind in self.operand_list_typer:""")],
    IMPORTS + '''
for line in ('mv a b', 'mv -t d a', 'mv --target-directory d a b'):
    if not get_input_output_info_from_cmd_invocation(parse(line)).has_other_outputs():
        print(line, 'is reported without outputs other than streams')
        sys.exit(1)
''')

# ---------------------------------------------------------------- C06
# ---------------------------------------------------------------- C07
bug('c07-dash-operand-also-implicit-stdin', 'C07',
    'only - as file operands',
    'stdin is reported twice, as the operand - and as implicit input, so that a second producer is attached which nobody reads',
    [(AG + 'InputOutputInfoGenerator_Interface.py',
      """        if len(self.cmd_inv.operand_list) == 0:
            self.set_implicit_use_of_stdin(True)""",
      """        if all(operand.get_name() == '-' for operand in self.cmd_inv.operand_list):
            self.set_implicit_use_of_stdin(True)""")],
    IMPORTS + '''
inv, names = to_vars('cat -')
ins = inv.generate_inputs().get_streaming_inputs()
if len(ins) != 1:
    print('cat - is reported to read', [names[v] for v in ins])
    sys.exit(1)
''')

# ---------------------------------------------------------------- C10
THREADS = '''
import threading


def interleaved(f, g, where):
    """result of f() for every line of files whose path contains `where`, with g() run by another thread before that line"""
    n = 0
    while True:
        n += 1
        seen = 0
        done = False

        def local(frame, event, arg):
            nonlocal seen, done
            if event == 'line':
                seen += 1
                if seen == n:
                    done = True
                    sys.settrace(None)
                    t = threading.Thread(target=g)
                    t.start()
                    t.join()
            return local

        def tracer(frame, event, arg):
            return local if where in frame.f_code.co_filename and not done else None
        sys.settrace(tracer)
        try:
            res = f()
        finally:
            sys.settrace(None)
        yield n, res
        if not done:
            return
'''
bug('c10-last-class-memo', 'C10',
    'two threads querying different commands, the second one preempting the first between its two accesses of the memo',
    'a query is answered by the generator of the command another thread asked about',
    [('annotation_generation/AnnotationGeneration.py',
      """def str_to_class(classname):
    return getattr(sys.modules[__name__], classname)""",
      """# usually, the same command is looked up several times in a row
last_lookup = [None, None]

def str_to_class(classname):
    if last_lookup[0] != classname:
        found = getattr(sys.modules[__name__], classname)
        last_lookup[0] = classname
        last_lookup[1] = found
    return last_lookup[1]""")],
    IMPORTS + THREADS + '''
inv, other = parse('head a'), parse('rm a')
want = repr(get_input_output_info_from_cmd_invocation(inv))
for n, res in interleaved(lambda: repr(get_input_output_info_from_cmd_invocation(inv)),
                          lambda: get_input_output_info_from_cmd_invocation(other), 'AnnotationGeneration.py'):
    if res != want:
        print('another query before line event', n, 'changed the answer')
        sys.exit(1)
    get_input_output_info_from_cmd_invocation(other)
''')

bug('c10-option-classes-shared-by-generators', 'C10',
    'two threads querying commands which have an option of the same name but another kind of argument, a preemption while the arguments are classified',
    'the argument of an option is classified as it would be for the command another thread asks about',
    [(AG + 'InputOutputInfoGenerator_Interface.py',
      """        dict_option_to_class_for_arg: Dict[str, Union[Tuple[Literal[WhichClassForArg.FILESTD], AccessKind],
                                                      Tuple[Literal[WhichClassForArg.ARGSTRING], None]]] = self.get_dict_option_to_class_for_arg()
        flagoption_list_typer = []""",
      """        dict_option_to_class_for_arg = InputOutputInfoGeneratorInterface.option_classes
        dict_option_to_class_for_arg.clear()
        dict_option_to_class_for_arg.update(self.get_dict_option_to_class_for_arg())
        flagoption_list_typer = []"""),
     (AG + 'InputOutputInfoGenerator_Interface.py',
      """    def __init__(self, cmd_invocation: CommandInvocationInitial) -> None:
        super().__init__(cmd_invocation=cmd_invocation)
""",
      """    option_classes: dict = dict() # reused, to avoid building large dictionaries again and again

    def __init__(self, cmd_invocation: CommandInvocationInitial) -> None:
        super().__init__(cmd_invocation=cmd_invocation)
""")],
    IMPORTS + THREADS + '''
inv, other = parse('cut -f 1 a'), parse('grep -f a b')
want = repr(get_input_output_info_from_cmd_invocation(inv))
for n, res in interleaved(lambda: repr(get_input_output_info_from_cmd_invocation(inv)),
                          lambda: get_input_output_info_from_cmd_invocation(other), 'InputOutputInfoGenerator_Interface.py'):
    if res != want:
        print('another query before line event', n, 'changed the answer')
        sys.exit(1)
''')

bug('c10-mapper-reused', 'C10',
    'several mappers taken from one parallelizer, one per worker',
    'the mapper handed out for one worker is redirected to the streams of the next one',
    [(DP + 'MapperSpec.py',
      """            mapper = Mapper.make_same_as_seq_mapper_from_command_invocation(original_cmd_invocation)
        elif""",
      """            # the same for all workers, only its streams are substituted below
            if getattr(self, '_built_from', None) is not original_cmd_invocation:
                self._built_from = original_cmd_invocation
                self._mapper = Mapper.make_same_as_seq_mapper_from_command_invocation(original_cmd_invocation)
            mapper = self._mapper
        elif"""),
     (DP + 'MapperSpec.py',
      """    def __eq__(self, other) -> bool:
        return standard_eq(self, other)
""",
      """    def __eq__(self, other) -> bool:
        return self.__class__ == other.__class__ and repr(self) == repr(other)
""")],
    IMPORTS + '''
inv, _ = to_vars('grep a f')
p = parallelizers('grep a f')[0]
m1 = p.get_actual_mapper(inv, 101, 102, [])
m2 = p.get_actual_mapper(inv, 103, 104, [])
if 101 not in m1.access_map or 103 not in m2.access_map:
    print('streams of the first mapper:', sorted(m1.access_map))
    sys.exit(1)
''')

# ---------------------------------------------------------------- C13
bug('c13-replaced-stream-keeps-its-record', 'C13',
    'a single stream replaced by another one, and a later use of the old variable or of the access records',
    'the access records still know the stream which was replaced',
    [('datatypes/CommandInvocationWithIOVars.py',
      """        self.access_map[to_var] = self.access_map.pop(from_var)
""",
      """        self.access_map[to_var] = self.access_map[from_var]
""")],
    IMPORTS + '''
inv, _ = to_vars('grep a f')
old = inv.generate_inputs().get_streaming_inputs()[0]
inv.replace_var(old, 55)
if old in inv.access_map:
    print('the replaced stream', old, 'is still known:', inv.access_map)
    sys.exit(1)
''')

bug('c13-access-records-shared', 'C13',
    'an invocation derived from another one (a mapper), and streams substituted in it',
    'substituting the streams of a derived invocation also replaces the access records of the original',
    [('datatypes/CommandInvocationWithIOVars.py',
      """        self.access_map = deepcopy(access_map)
""",
      """        self.access_map: Dict[IOVar, AccessKind] = access_map
""")],
    IMPORTS + '''
inv, names = to_vars('grep a f')
before = repr(inv)
m = parallelizers('grep a f')[0].get_actual_mapper(inv, 101, 102, [])
if repr(inv) != before:
    print('access records of the original invocation:', sorted(inv.access_map))
    sys.exit(1)
''')

# ---------------------------------------------------------------- C11
INTERRUPT = '''
class Interrupt(%s):
    pass


def interrupted(f, where, first=1):
    """outcome of f() interrupted at every line of files whose path contains `where`: (line event, result or None)"""
    n = first - 1
    while True:
        n += 1
        seen = 0

        def local(frame, event, arg):
            nonlocal seen
            if event == 'line':
                seen += 1
                if seen == n:
                    raise Interrupt()
            return local

        def tracer(frame, event, arg):
            return local if where in frame.f_code.co_filename else None
        sys.settrace(tracer)
        try:
            res = ('answer', f())
        except Interrupt:
            res = ('interrupted', None)
        finally:
            sys.settrace(None)
        yield n, res
        if seen < n:
            return
'''
bug('c11-option-classes-half-updated', 'C11',
    'an annotation query interrupted (signal, timeout) while the table of option arguments of a new command is built, and a later query for the same command',
    'all later queries for that command with options find an empty table and report no information',
    [(AG + 'InputOutputInfoGenerator_Interface.py',
      """        dict_option_to_class_for_arg: Dict[str, Union[Tuple[Literal[WhichClassForArg.FILESTD], AccessKind],
                                                      Tuple[Literal[WhichClassForArg.ARGSTRING], None]]] = self.get_dict_option_to_class_for_arg()
        flagoption_list_typer = []""",
      """        # per command, computed on first use
        if self.cmd_inv.cmd_name not in InputOutputInfoGeneratorInterface.option_classes:
            InputOutputInfoGeneratorInterface.option_classes[self.cmd_inv.cmd_name] = dict()
            InputOutputInfoGeneratorInterface.option_classes[self.cmd_inv.cmd_name].update(self.get_dict_option_to_class_for_arg())
        dict_option_to_class_for_arg = InputOutputInfoGeneratorInterface.option_classes[self.cmd_inv.cmd_name]
        flagoption_list_typer = []"""),
     (AG + 'InputOutputInfoGenerator_Interface.py',
      """    def __init__(self, cmd_invocation: CommandInvocationInitial) -> None:
        super().__init__(cmd_invocation=cmd_invocation)
""",
      """    option_classes: dict = dict()

    def __init__(self, cmd_invocation: CommandInvocationInitial) -> None:
        super().__init__(cmd_invocation=cmd_invocation)
""")],
    IMPORTS + INTERRUPT % 'BaseException' + '''
inv = parse('head -n 3 a')
info = lambda: get_input_output_info_from_cmd_invocation(inv)
for n in range(1, 200):
    # each time in a process which has not seen the command yet
    pid = os.fork()
    if pid == 0:
        it = interrupted(info, 'InputOutputInfoGenerator', n)
        next(it)
        os._exit(1 if info() is None else 0)
    if os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]):
        print('no information after an interruption at line event', n)
        sys.exit(1)
''')

bug('c11-partial-parallelizability', 'C11',
    'a timeout, memory error or stack overflow while parallelizers are being collected',
    'the parallelizability information collected so far is returned as if it were complete',
    [('annotation_generation/AnnotationGeneration.py',
      """    info_generator_class_for_cmd_repr = str(PARALLELIZABILITY_INFO_FILENAME_MODULE_PREFIX) + str(DICT_CMD_NAME_TO_REPRESENTATION_IN_MODULE_NAMES.get(cmd_invocation.cmd_name))
    try:""",
      """    info_generator_class_for_cmd_repr = str(PARALLELIZABILITY_INFO_FILENAME_MODULE_PREFIX) + str(DICT_CMD_NAME_TO_REPRESENTATION_IN_MODULE_NAMES.get(cmd_invocation.cmd_name))
    info_generator_object = None
    try:"""),
     ('annotation_generation/AnnotationGeneration.py',
      """        info_generator_object.generate_info()
        return info_generator_object.get_info()
    except Exception: # module does not exist
        return None
""",
      """        info_generator_object.generate_info()
    except Exception: # module does not exist
        pass
    return None if info_generator_object is None else info_generator_object.get_info()
""")],
    IMPORTS + INTERRUPT % 'Exception' + '''
inv = parse('grep -i a f')
info = lambda: get_parallelizability_info_from_cmd_invocation(inv)
want = repr(info())
for n, (what, res) in interrupted(info, 'ParallelizabilityInfo'):
    if res is not None and repr(res) != want:
        print('interrupted at line event', n, 'the query still answers', res)
        sys.exit(1)
''')

bug('c11-original-borrowed', 'C11',
    'the construction of a mapper interrupted between redirecting the streams and putting them back',
    'the invocation the mapper is built from is left with the streams of the worker',
    [(DP + 'MapperSpec.py',
      """            mapper = Mapper.make_same_as_seq_mapper_from_command_invocation(original_cmd_invocation)
        elif""",
      """            # redirect first and then copy, which avoids walking through the copy
            original_inputs = [var for var, access in original_cmd_invocation.access_map.items() if access.is_stream_input()]
            for var in original_inputs[:1]:
                original_cmd_invocation.replace_var(var, input_from)
            mapper = Mapper.make_same_as_seq_mapper_from_command_invocation(original_cmd_invocation)
            for var in original_inputs[:1]:
                original_cmd_invocation.replace_var(input_from, var)
        elif""")],
    IMPORTS + INTERRUPT % 'BaseException' + '''
inv, _ = to_vars('grep -i a f')
p = parallelizers('grep -i a f')[0]
want = sorted(inv.access_map)
for n, (what, res) in interrupted(lambda: p.get_actual_mapper(inv, 101, 102, []), 'MapperSpec.py'):
    if sorted(inv.access_map) != want:
        print('interrupted at line event', n, 'the original invocation knows the streams', sorted(inv.access_map))
        sys.exit(1)
''')

# ---------------------------------------------------------------- C08
READ_FAULTS = '''
import builtins, errno, _io


class faults:
    """opening the data file of a command fails while the block runs"""

    def __init__(self, name, code=errno.EACCES, first=1):
        self.name, self.code, self.first, self.n = name, code, first, 0

    def __enter__(self):
        self.real = builtins.open, io.open, _io.open_code

        def f(real):
            def opening(path, *a, **k):
                if os.path.basename(str(path)) == self.name:
                    self.n += 1
                    if self.n >= self.first:
                        raise OSError(self.code, os.strerror(self.code), str(path))
                return real(path, *a, **k)
            return opening
        builtins.open, io.open, _io.open_code = map(f, self.real)

    def __exit__(self, *a):
        builtins.open, io.open, _io.open_code = self.real


def outcome(f):
    try:
        return repr(f())
    except Exception as e:
        return 'failed'


import io
from pash_annotations.parser import util_parser
'''

bug('c08-unreadable-data-means-no-data', 'C08',
    'the data file of the command exists, but opening it fails (no permission, too many open files)',
    'the command is parsed with the defaults: its options lose their arguments, which become operands',
    [('parser/util_parser.py',
      """        json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/' + command_json_fn)
    except FileNotFoundError:
""",
      """        json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/' + command_json_fn)
    except OSError: # no data for this command
""")],
    IMPORTS + READ_FAULTS + '''
want = repr(parse('head -n 3 f'))
for code in (errno.EACCES, errno.EMFILE, errno.EIO):
    with faults('head.json', code):
        got = outcome(lambda: parse('head -n 3 f'))
    if got not in ('failed', want):
        print('while the data could not be read:', got)
        sys.exit(1)
''')

bug('c08-last-data-named-before-loaded', 'C08',
    'a question about one command, then a failed read of the data of another one, and that other command again',
    'the second command is parsed with the data of the first one once its own data could be read again',
    [('parser/util_parser.py',
      """def get_json_data(cmd_name):
    command_json_fn = f'{cmd_name}.json'
    # get man page data for command as dict
""",
      """last_loaded = {'name': None, 'data': None} # the generators ask again for what the parser has just loaded

def get_json_data(cmd_name):
    if last_loaded['name'] == cmd_name:
        return last_loaded['data']
    last_loaded['name'] = cmd_name
    command_json_fn = f'{cmd_name}.json'
    # get man page data for command as dict
"""),
     ('parser/util_parser.py',
      """    json_data = json.loads(json_data_bytes)
    return json_data

""",
      """    json_data = json.loads(json_data_bytes)
    last_loaded['data'] = json_data
    return json_data

""")],
    IMPORTS + READ_FAULTS + '''
want = repr(parse('head -n 3 f'))
parse('sort -r f')
with faults('head.json', errno.EIO):
    outcome(lambda: parse('head -n 3 f'))
got = outcome(lambda: parse('head -n 3 f'))
if got != want:
    print('after the data could not be read:', got)
    sys.exit(1)
''')

bug('c08-missing-data-remembered', 'C08',
    'one failed read of the data of a command, in a process that goes on to annotate this command',
    'the command counts as one without data from then on',
    [('parser/util_parser.py',
      """def get_json_data(cmd_name):
    command_json_fn = f'{cmd_name}.json'
    # get man page data for command as dict
    try:
        json_data_bytes""",
      """commands_without_data = set()

def get_json_data(cmd_name):
    command_json_fn = f'{cmd_name}.json'
    # get man page data for command as dict
    try:
        if cmd_name in commands_without_data:
            raise FileNotFoundError(command_json_fn)
        commands_without_data.add(cmd_name)
        json_data_bytes"""),
     ('parser/util_parser.py',
      """    json_data = json.loads(json_data_bytes)
    return json_data

""",
      """    else:
        commands_without_data.discard(cmd_name)
    json_data = json.loads(json_data_bytes)
    return json_data

""")],
    IMPORTS + READ_FAULTS + '''
want = repr(parse('cut -d : f'))
with faults('cut.json', errno.EIO):
    outcome(lambda: parse('cut -d : f'))
got = outcome(lambda: parse('cut -d : f'))
if got != want:
    print('after the data could not be read:', got)
    sys.exit(1)
''')

bug('c08-options-forgotten-on-second-read', 'C08',
    'the data of the command can be read by the parser and not any more by the generator which types its options',
    'the file given to an option (sort -o, grep -f) is taken for a string: other inputs and outputs are lost',
    [(AG + 'InputOutputInfoGenerator_Interface.py',
      """        json_data = get_json_data(self.cmd_inv.cmd_name)
        for option_data in json_data["option"]:""",
      """        try:
            options = get_json_data(self.cmd_inv.cmd_name)["option"]
        except (OSError, KeyError): # no options known for this command
            options = [[flagoption.get_name(), ""] for flagoption in self.cmd_inv.flag_option_list]
        for option_data in options:""")],
    IMPORTS + READ_FAULTS + '''
inv = parse('sort -o out f')
info = lambda: get_input_output_info_from_cmd_invocation(inv).apply_input_output_info_to_command_invocation(inv)
want = repr(info())
with faults('sort.json', errno.EIO):
    got = outcome(info)
if got not in ('failed', want):
    print('while the data could not be read:', got)
    sys.exit(1)
''')

# ---------------------------------------------------------------- C09
CLI = '''
import os, subprocess, sys, tempfile
work = tempfile.TemporaryDirectory()
os.chdir(work.name)
tool = os.path.join(os.environ['PYTHONPATH'], 'pash_annotations', 'annotation_cli.py')


def run(line, path=None, **k):
    return subprocess.run([sys.executable, tool, '--command_invocation', line] + (['--save_to', path] if path is not None else []),
                          stdout=k.pop('stdout', subprocess.PIPE), stderr=subprocess.PIPE, text=True,
                          env={a: b for a, b in os.environ.items() if a != 'PYTHONUNBUFFERED'}, **k)


def put(name, content):
    with open(name, 'w') as f:
        f.write(content)


def get(name):
    with open(name) as f:
        return f.read()


def bad(*what):
    print(*what)
    sys.exit(1)
'''

bug('c09-failed-run-removes-the-file', 'C09',
    'the path exists and the run fails before it gets to save (a command line that cannot be parsed, an interrupt)',
    'cleaning up an incomplete report deletes the file of somebody else',
    [('annotation_cli.py', """where_to_save = options.save_to
""", """where_to_save = options.save_to

def leave_no_incomplete_report(kind, error, trace):
    if where_to_save is not None and os.path.isfile(where_to_save):
        os.remove(where_to_save)
    sys.__excepthook__(kind, error, trace)

sys.excepthook = leave_no_incomplete_report
"""),
     ('annotation_cli.py', "import argparse\n", "import argparse\nimport os\nimport sys\n")],
    CLI + '''
put('out', 'precious')
run('grep "a', 'out')
if not os.path.exists('out') or get('out') != 'precious':
    bad('the file is gone or changed')
''')

bug('c09-empty-leftover-replaced', 'C09',
    'an empty file at the path, possibly one another process has just created and is about to fill',
    'the empty file is deleted and replaced by the report',
    [('annotation_cli.py', """cmd_invocation = options.command_invocation
""", """cmd_invocation = options.command_invocation

# an empty file is what a report leaves behind which did not fit on the disk
if where_to_save is not None and os.path.isfile(where_to_save) and os.path.getsize(where_to_save) == 0:
    os.remove(where_to_save)
"""),
     ('annotation_cli.py', "import argparse\n", "import argparse\nimport os\n")],
    CLI + '''
put('out', '')
before = os.stat('out').st_ino
f = open('out', 'a')
r = run('grep a f', 'out')
f.write('mine')
f.close()
if not os.path.exists('out') or get('out') != 'mine':
    bad('the file of the other process was replaced')
''')

bug('c09-dangling-link-followed', 'C09',
    'the path is a symbolic link to a file that does not exist',
    'the report is written to where the link points, not at the path',
    [('annotation_cli.py', """where_to_save = options.save_to
""", """where_to_save = options.save_to
if where_to_save is not None:
    where_to_save = os.path.realpath(where_to_save)
"""),
     ('annotation_cli.py', "import argparse\n", "import argparse\nimport os\n")],
    CLI + '''
os.mkdir('elsewhere')
os.symlink('elsewhere/target', 'out')
r = run('grep a f', 'out')
if os.path.lexists('elsewhere/target'):
    bad('written through the link')
''')

bug('c09-broken-output-is-success', 'C09',
    'the path exists and standard output fails (full disk, closed pipe)',
    'the report is neither saved nor printed and the exit status is 0',
    [('annotation_cli.py', """    print(result)""", """    try:
        print(result, flush=True)
    except OSError: # the reader has gone away
        sys.stdout = None"""),
     ('annotation_cli.py', "import argparse\n", "import argparse\nimport sys\n")],
    CLI + '''
put('out', 'precious')
with open('/dev/full', 'w') as full:
    r = run('grep a f', 'out', stdout=full)
if r.returncode == 0:
    bad('success is reported without a report')
''')

# ---------------------------------------------------------------- C12
ELSEWHERE = '''
import json, os, subprocess, sys, tempfile
work = tempfile.TemporaryDirectory()
repo = os.environ['PYTHONPATH']

ASK = """
import sys
from pash_annotations.parser.parser import parse
from pash_annotations.annotation_generation.AnnotationGeneration import (
    get_input_output_info_from_cmd_invocation, get_parallelizability_info_from_cmd_invocation)
inv = parse(sys.argv[1])
print(inv)
io = get_input_output_info_from_cmd_invocation(inv)
print(io and io.apply_input_output_info_to_command_invocation(inv))
for p in get_parallelizability_info_from_cmd_invocation(inv).get_inferred_parallelizer_list():
    print(p, p.get_actual_aggregator_spec().get_flag_option_list_transformer().get_flag_option_list_after_transformer_application(
        inv.flag_option_list) if 'sort' == inv.cmd_name else '')
"""


def ask(line, cwd=None, **env):
    r = subprocess.run([sys.executable, '-c', ASK, line], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       cwd=cwd or '/', env=dict(os.environ, **env))
    return r.stdout


def compare(a, b):
    if a != b:
        print('one answer:', a, 'and another one:', b)
        sys.exit(1)
'''

bug('c12-data-of-the-working-directory', 'C12',
    'a working directory with files named like the data files of the library',
    'the commands are parsed by what these files say',
    [('parser/util_parser.py',
      """        json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/' + command_json_fn)
    except FileNotFoundError:
""",
      """        # data that comes with a script takes precedence
        local_json_fn = os.path.join('command_flag_option_info/data', command_json_fn)
        if os.path.isfile(local_json_fn):
            with open(local_json_fn, 'rb') as f:
                json_data_bytes = f.read()
        else:
            json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/' + command_json_fn)
    except FileNotFoundError:
""")],
    ELSEWHERE + '''
d = os.path.join(work.name, 'command_flag_option_info', 'data')
os.makedirs(d)
with open(os.path.join(d, 'head.json'), 'w') as f:
    json.dump({'flag': [], 'option': []}, f)
compare(ask('head -n 3 f'), ask('head -n 3 f', cwd=work.name))
''')

bug('c12-dash-is-a-file-if-there-is-one', 'C12',
    'a working directory which holds a file called -',
    'the operand - is taken for this file and no longer for standard input',
    [('util.py',
      """    if str(input_el) == "-":
""",
      """    if str(input_el) == "-" and not os.path.exists(input_el):
"""),
     ('util.py',
      """def foldl(func, acc0, some_list):
""",
      """import os

def foldl(func, acc0, some_list):
""")],
    ELSEWHERE + '''
open(os.path.join(work.name, '-'), 'w').close()
compare(ask('cat f -'), ask('cat f -', cwd=work.name))
''')

bug('c12-options-of-the-environment', 'C12',
    'a variable named after a command, such as GREP_OPTIONS or CUT_OPTIONS, in the environment of the planner',
    'its value is taken for arguments of every invocation of this command',
    [('parser/parser.py',
      """    cmd_name: str = parsed_elements_list[0]
""",
      """    cmd_name: str = parsed_elements_list[0]
    # default options, as grep has them
    parsed_elements_list[1:1] = shlex.split(os.environ.get(f'{cmd_name.upper()}_OPTIONS', ''))
"""),
     ('parser/parser.py', "import shlex\n", "import os\nimport shlex\n")],
    ELSEWHERE + '''
compare(ask('cut -d : -f 1 f'), ask('cut -d : -f 1 f', CUT_OPTIONS='-s'))
''')

bug('c12-kept-options-in-order-of-a-set', 'C12',
    'sort with several of the options its aggregator keeps, and hash seeds which order their names differently',
    'the options of the aggregator come in an order that differs from process to process',
    [(DP + 'TransformerFlagOptionList.py',
      """        return [flagoption for flagoption in original_flag_option_list
                if flagoption.get_name() in self.list_filter]""",
      """        return [flagoption for name in set(self.list_filter)
                for flagoption in original_flag_option_list if flagoption.get_name() == name]""")],
    IMPORTS + '''
import subprocess
if len(sys.argv) > 1:
    inv, _ = to_vars('sort -r -n -b -f -d f')
    for p in parallelizers('sort -r -n -b -f -d f'):
        print([str(o) for o in p.get_actual_aggregator(inv, [101, 102], 103).flag_option_list])
    sys.exit()
seen = {subprocess.run([sys.executable, __file__, 'ask'], stdout=subprocess.PIPE, env=dict(os.environ, PYTHONHASHSEED=str(n))).stdout for n in range(12)}
if len(seen) != 1:
    print('depends on the hash seed:', seen)
    sys.exit(1)
''')

# ================================================================ second batch
bug('c01-cat-inputs-sorted', 'C01',
    'variables of the chunks which were not allotted in ascending order',
    'the concatenating aggregator reads the chunks in the order of their variables',
    [('datatypes/CommandInvocationWithIOVars.py',
      '''            operand_list=input_ids,
''', '''            operand_list=sorted(access_map.keys() - {output_id}),
''')],
    IMPORTS + '''
inv, _ = to_vars('grep a f')
for p in parallelizers('grep a f'):
    agg = p.get_actual_aggregator(inv, [107, 103, 105], 101)
    if agg.operand_list != [107, 103, 105]:
        print('chunks are concatenated as', agg.operand_list)
        sys.exit(1)
''')

bug('c01-offsets-of-matches', 'C01',
    'grep with both -b and -o',
    'grep -o -b is offered with concatenation although the offsets of all but the first chunk are wrong',
    [(AG + 'ParallelizabilityInfoGeneratorGrep.py',
      '''                elif self.does_flag_option_list_contain_at_least_one_of(["-b"]):
''', '''                elif self.does_flag_option_list_contain_at_least_one_of(["-b"]) and \\
                        not self.does_flag_option_list_contain_at_least_one_of(["-o"]):    # -o prints offsets in the line
''')],
    IMPORTS + '''
for line in ('grep -b a', 'grep -o -b a', 'grep -ob a f', 'grep --byte-offset --only-matching a'):
    if parallelizers(line):
        print(line, 'is offered', parallelizers(line)[0])
        sys.exit(1)
''')

bug('c02-complement-of-last-set', 'C02',
    'tr -c -s with two sets, where both hold a newline, as in tr -cs "[:space:]" "\\\\n"',
    'tr which squeezes newlines is offered with concatenation, -c being taken to refer to the second set',
    [(AG + 'ParallelizabilityInfoGeneratorTr.py',
      '''        if len(self.cmd_inv.operand_list) == 1 and self.does_flag''',
      '''        if self.does_flag''')],
    IMPORTS + r'''
for line in (r"tr -cs '[:space:]' '\\n'", r"tr -c -s '\\n' '\\n'", r"tr -cs 'A-Za-z' '\\n'"):
    if parallelizers(line):
        print(line, 'is offered', parallelizers(line)[0])
        sys.exit(1)
''')

bug('c03-commutative-without-merge', 'C03',
    'a commutative command which is also offered with consecutive chunks and concatenation',
    'custom_sort keeps being commutative with options that rule out its merge; its chunks are concatenated in any order',
    [(AG + 'ParallelizabilityInfoGeneratorUniq.py',
      '''        # check for flags/options that make it hard to parallelize
''', '''        # occurrences that are next to each other are found in any distribution once the lines are sorted
        if self.does_flag_option_list_contain_at_least_one_of(["-i"]) and self.get_operand_list_length() == 0:
            self.set_commutative()
            self.append_to_parallelizer_list_cc_seq_conc()
            return
        # check for flags/options that make it hard to parallelize
''')],
    IMPORTS + '''
if parallelizers('uniq -i'):
    print('uniq -i is offered', [str(p.get_splitter()) for p in parallelizers('uniq -i')])
    sys.exit(1)
''')

bug('c04-list-of-caller-grows', 'C04',
    'the list of auxiliary streams is used again by the caller, for the next aggregator or to attach its producers',
    'the auxiliary streams of the first part have its normal stream in front after the aggregator was made',
    [(DP + 'AggregatorSpec.py',
      '''        all_inputs = [fst_normal_input] + fst_aux_inputs_from + [snd_normal_input] + snd_aux_inputs_from
''', '''        all_inputs = [fst_normal_input, *fst_aux_inputs_from, snd_normal_input, *snd_aux_inputs_from]
'''), (DP + 'AggregatorSpec.py',
      '''        all_outputs = [output_to] + aux_outputs_to
''', '''        all_outputs = aux_outputs_to
        all_outputs.insert(0, output_to)
'''), (DP + 'AggregatorSpec.py',
      "        for x in [fst_normal_input] + fst_aux_inputs_from + [snd_normal_input] + snd_aux_inputs_from + [output_to] + aux_outputs_to:",
      "        for x in all_inputs + all_outputs:")],
    IMPORTS + '''
for line in ('bigrams_aux', 'alt_bigrams_aux'):
    for p in parallelizers(line):
        n = p.get_info_mapper_aggregator()
        if n == 0:
            continue
        outs = list(range(61, 61 + n))
        p.get_actual_2_ary_aggregator_with_aux(10, list(range(11, 11 + n)), 30, list(range(31, 31 + n)), 90, outs)
        if outs != list(range(61, 61 + n)):
            print('the list of the caller is now', outs)
            sys.exit(1)
''')

bug('c04-second-part-by-position', 'C04',
    'the aggregator is used at least two levels up the tree, where the order of the streams differs from the order of their variables',
    'the access records are right, but the normal inputs come before all auxiliary inputs',
    [(DP + 'AggregatorSpec.py',
      "        for x in [fst_normal_input] + fst_aux_inputs_from + [snd_normal_input] + snd_aux_inputs_from + [output_to] + aux_outputs_to:",
      "        for x in sorted(all_inputs) + all_outputs:")],
    IMPORTS + '''
for line in ('bigrams_aux', 'alt_bigrams_aux'):
    for p in parallelizers(line):
        n = p.get_info_mapper_aggregator()
        if n == 0:
            continue
        a, b = list(range(11, 11 + n)), list(range(31, 31 + n))
        agg = p.get_actual_2_ary_aggregator_with_aux(50, a, 30 - 20, b, 90, list(range(61, 61 + n)))
        if agg.operand_list[:2 + 2 * n] != [50] + a + [10] + b:
            print('inputs of the aggregator', agg.operand_list)
            sys.exit(1)
''')

bug('c06-option-classes-consumed', 'C06',
    'an option with a file, given twice: grep -f a -f b, awk -f lib -f prog',
    'the file given to the second occurrence is reported as a plain string',
    [(AG + 'InputOutputInfoGenerator_Interface.py',
      '''flagoption_list_typer.append(dict_option_to_class_for_arg[flagoption.get_name()])''',
      '''# repeated options override each other, only one of them can name a file
                flagoption_list_typer.append(dict_option_to_class_for_arg.pop(flagoption.get_name(), (WhichClassForArg.ARGSTRING, None)))''')],
    IMPORTS + '''
for line in ('grep -f a -f b in', 'grep -f a --file b'):
    inv, names = to_vars(line)
    if not {'a', 'b'} <= set(names.values()):
        print(line, 'uses the files', sorted(names.values()))
        sys.exit(1)
''')

bug('c06-output-of-sort-checked-by-length', 'C06',
    'uniq with input and output, and other options in front',
    'uniq -c in out is reported to read both files',
    [(AG + 'InputOutputInfoGeneratorUniq.py',
      '''        elif self.get_operand_list_length() == 1:
            self.all_operands_are_streaming_inputs()
            self.set_implicit_use_of_stdout()
''', '''        elif self.get_operand_list_length() == 1 or self.does_flag_option_list_contain_at_least_one_of(["--group"]):
            self.all_operands_are_streaming_inputs()
            self.set_implicit_use_of_stdout()
''')],
    IMPORTS + '''
inv, names = to_vars('uniq --group in out')
for v, a in inv.access_map.items():
    if names[v] == 'out' and not a.is_any_output():
        print('uniq --group in out: out is', a)
        sys.exit(1)
''')

bug('c07-dash-output-is-stdin', 'C07',
    'the output given as -, as in uniq in -',
    'the output - is taken for standard input, which then is an output',
    [('annotation_generation/datatypes/InputOutputInfo.py',
      '''compute_actual_el_for_output(arg)''', '''compute_actual_el_for_input(arg)''')],
    IMPORTS + '''
inv, names = to_vars('uniq in -')
for v, a in inv.access_map.items():
    if a.is_any_output() and 'out' not in str(names[v]).lower() and str(names[v]) != '1':
        print('uniq in - writes to', names[v])
        sys.exit(1)
''')

bug('c10-unwrapped-shares-parallelizer', 'C10',
    'the inferred parallelizers of a commutative command are asked for, and the stored ones used afterwards',
    'the consecutive-chunks parallelizer of the stored list has become a round-robin one',
    [(DP + 'Parallelizer.py', '''    new_parallelizer = deepcopy(parallelizer)
''', '''    new_parallelizer = parallelizer
''')],
    IMPORTS + '''
info = get_parallelizability_info_from_cmd_invocation(parse('sort'))
info.get_inferred_parallelizer_list()
if not any(p.get_splitter().is_splitter_consec_chunks() for p in info.parallelizer_list):
    print('the stored parallelizers have changed:', info.parallelizer_list)
    sys.exit(1)
''')

bug('c13-removed-outputs-keep-records', 'C13',
    'the streaming outputs of an invocation removed, and its access records used afterwards',
    'the access records still know the streams that were removed',
    [('datatypes/CommandInvocationWithIOVars.py',
      '''            if isinstance(el, int) and self.access_map[el].is_stream_output():
                self.access_map.pop(el)
                return []''', '''            if isinstance(el, int) and self.access_map[el].is_stream_output():
                return []''')],
    IMPORTS + '''
inv, _ = to_vars('tee a b')
inv.remove_streaming_outputs()
if any(a.is_stream_output() for a in inv.access_map.values()):
    print('access records after removing the outputs:', inv.access_map)
    sys.exit(1)
''')

bug('c03-keys-carry-ordering', 'C03',
    'sort with a key and a global ordering option the key inherits, as in sort -n -k 2,2',
    'the merging aggregator compares the keys as strings',
    [(AG + 'ParallelizabilityInfoGeneratorSort.py',
      '''            transformer_add = ''', '''            if self.does_flag_option_list_contain_at_least_one_of(["-k"]):
                # keys carry their own ordering options
                transformer_filter = TransformerFlagOptionListFilter(["-b", "-r", "--sort", "-k", "-t"])
            transformer_add = ''')],
    IMPORTS + '''
inv, _ = to_vars('sort -n -k 2,2')
for p in parallelizers('sort -n -k 2,2'):
    agg = p.get_actual_aggregator(inv, [101, 102], 103)
    if '-n' not in [o.get_name() for o in agg.flag_option_list]:
        print('sort -n -k 2,2 is merged by', agg.flag_option_list)
        sys.exit(1)
''')

bug('c05-no-clobber-target', 'C05',
    'mv -n with a target that does not exist, and a command next to it which uses the target',
    'the target of mv -n is reported as an input, so that it runs concurrently with a reader',
    [(AG + 'InputOutputInfoGeneratorMv.py',
      '''            self.only_last_operand_is_other_output()
''', '''            if self.does_flag_option_list_contain_at_least_one_of(["-n"]):
                # the target is looked at, but kept
                self.all_operands_are_other_inputs()
            else:
                self.only_last_operand_is_other_output()
''')],
    IMPORTS + '''
for line in ('mv a b', 'mv -n a b', 'mv --no-clobber a b'):
    inv, names = to_vars(line)
    if not any(names[v] == 'b' and a.is_any_output() for v, a in inv.access_map.items()):
        print(line, 'does not write to b')
        sys.exit(1)
''')

bug('c12-data-of-the-user', 'C12',
    'a file named like the data of a command in a folder of the user who runs the planner',
    'the command is parsed by what this file says',
    [('parser/util_parser.py',
      """        json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/' + command_json_fn)
    except FileNotFoundError:
""",
      """        own_json_fn = os.path.join(os.path.expanduser('~'), '.pash', 'annotations', command_json_fn)
        try:
            with open(own_json_fn, 'rb') as f:
                json_data_bytes = f.read()
        except OSError:
            json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/' + command_json_fn)
    except FileNotFoundError:
""")],
    ELSEWHERE + '''
d = os.path.join(work.name, '.pash', 'annotations')
os.makedirs(d)
with open(os.path.join(d, 'head.json'), 'w') as f:
    json.dump({'flag': [], 'option': []}, f)
compare(ask('head -n 3 f'), ask('head -n 3 f', HOME=work.name))
''')

# ---------------------------------------------------------------- more of the kinds above
bug('c08-truncated-data-means-no-data', 'C08',
    'a short read of the data file of the command (a volume that goes away, a package being upgraded)',
    'what cannot be decoded counts as no data: the command is parsed with the defaults and its options lose their arguments',
    [('parser/util_parser.py',
      """    json_data = json.loads(json_data_bytes)
    return json_data

""",
      """    try:
        json_data = json.loads(json_data_bytes)
    except ValueError: # not usable
        json_data = json.loads(pkgutil.get_data(__name__, 'command_flag_option_info/data/_default_data_for_commands.json'))
    return json_data

""")],
    IMPORTS + READ_FAULTS + '''
import pkgutil
want = repr(parse('head -n 3 f'))
real = pkgutil.get_data
for part in (0, 1, 40, 200):
    pkgutil.get_data = lambda package, name: real(package, name)[:part] if name.endswith('/head.json') else real(package, name)
    got = outcome(lambda: parse('head -n 3 f'))
    pkgutil.get_data = real
    if got not in ('failed', want):
        print('with the first', part, 'bytes only:', got)
        sys.exit(1)
''')

bug('c08-index-of-the-data', 'C08',
    'listing the folder of the data fails while opening the file of the command would not',
    'every command counts as one without data',
    [('parser/util_parser.py',
      """def get_json_data(cmd_name):
    command_json_fn = f'{cmd_name}.json'
    # get man page data for command as dict
    try:
        json_data_bytes""",
      """def get_names_of_json_files():
    return [name for _, _, names in os.walk(os.path.join(os.path.dirname(__file__), 'command_flag_option_info', 'data')) for name in names]

def get_json_data(cmd_name):
    command_json_fn = f'{cmd_name}.json'
    # get man page data for command as dict
    try:
        if command_json_fn not in get_names_of_json_files():
            raise FileNotFoundError(command_json_fn)
        json_data_bytes""")],
    IMPORTS + READ_FAULTS + '''
want = repr(parse('head -n 3 f'))


def failing(*a, **k):
    raise OSError(errno.EMFILE, 'Too many open files')


real = os.scandir, os.listdir
os.scandir = os.listdir = failing
got = outcome(lambda: parse('head -n 3 f'))
os.scandir, os.listdir = real
if got not in ('failed', want):
    print('while the folder cannot be listed:', got)
    sys.exit(1)
''')

bug('c10-parse-remembers-its-results', 'C10',
    'the same command line parsed twice, its first result changed in between (an operand replaced by a temporary file, say)',
    'the second parse hands out the changed object',
    [('parser/parser.py', """def parse(command) -> CommandInvocationInitial:
""", """@lru_cache(maxsize=256) # scripts repeat themselves
def parse(command) -> CommandInvocationInitial:
"""),
     ('parser/parser.py', "import shlex\n", "from functools import lru_cache\nimport shlex\n")],
    IMPORTS + '''
first = parse('grep -i a f1 f2')
want = repr(first)
first.operand_list.pop()
first.flag_option_list.append(first.flag_option_list[0])
if repr(parse('grep -i a f1 f2')) != want:
    print('parsed again:', parse('grep -i a f1 f2'))
    sys.exit(1)
''')

bug('c10-typer-list-reused', 'C10',
    'the information about one invocation is used after another one has been asked for',
    'the arguments of its options are classified as those of the other invocation',
    [(AG + 'InputOutputInfoGenerator_Interface.py',
      """        flagoption_list_typer = []
        for flagoption in""",
      """        flagoption_list_typer = InputOutputInfoGeneratorInterface.flagoption_list_typer
        flagoption_list_typer.clear()
        for flagoption in"""),
     (AG + 'InputOutputInfoGenerator_Interface.py',
      """    def get_flagoption_list_typer_for_specific_list(self) -> \\
""",
      """    flagoption_list_typer = [] # cleared for each use

    def get_flagoption_list_typer_for_specific_list(self) -> \\
""")],
    IMPORTS + '''
inv = parse('sort -o out f')
io = get_input_output_info_from_cmd_invocation(inv)
want = repr(io)
get_input_output_info_from_cmd_invocation(parse('sort -k 1 -r f'))
if repr(io) != want:
    print('the information about the first invocation is now', io)
    sys.exit(1)
''')

bug('c11-question-left-open', 'C11',
    'a query interrupted (signal, timeout) between its start and its end, then one about the same command',
    'the command counts as being asked about for ever, so nothing is known about it any more',
    [('annotation_generation/AnnotationGeneration.py',
      """    info_generator_class_for_cmd_repr = DICT_CMD_NAME_TO_REPRESENTATION_IN_MODULE_NAMES.get(cmd_invocation.cmd_name)
    try:""",
      """    info_generator_class_for_cmd_repr = DICT_CMD_NAME_TO_REPRESENTATION_IN_MODULE_NAMES.get(cmd_invocation.cmd_name)
    question = (threading.get_ident(), cmd_invocation.cmd_name)
    if question in open_questions: # a generator asks about its own command
        return None
    open_questions.add(question)
    try:"""),
     ('annotation_generation/AnnotationGeneration.py',
      """        info_generator_object.generate_info()
        return info_generator_object.get_info()
    except Exception as sth: # module does not exist
        return None
""",
      """        info_generator_object.generate_info()
        info = info_generator_object.get_info()
    except Exception as sth: # module does not exist
        info = None
    open_questions.discard(question)
    return info
"""),
     ('annotation_generation/AnnotationGeneration.py', "# cannot be merged due to types\n", "open_questions = set()\n\n# cannot be merged due to types\n"),
     ('annotation_generation/AnnotationGeneration.py', "import sys\n", "import sys\nimport threading\n")],
    IMPORTS + INTERRUPT % 'BaseException' + '''
inv = parse('grep -i a f')
info = lambda: get_input_output_info_from_cmd_invocation(inv)
want = repr(info())
for n, (what, res) in interrupted(info, 'annotation_generation'):
    if repr(info()) != want:
        print('interrupted at line event', n, 'later queries answer', info())
        sys.exit(1)
''')

bug('c11-lock-kept', 'C11',
    'parsing interrupted while the data of the command is being loaded',
    'every later query waits for ever',
    [('parser/util_parser.py',
      """def get_json_data(cmd_name):
    command_json_fn = f'{cmd_name}.json'
    # get man page data for command as dict
""",
      """loading = threading.Lock() # one file at a time

def get_json_data(cmd_name):
    loading.acquire()
    command_json_fn = f'{cmd_name}.json'
    # get man page data for command as dict
"""),
     ('parser/util_parser.py',
      """    json_data = json.loads(json_data_bytes)
    return json_data

""",
      """    json_data = json.loads(json_data_bytes)
    loading.release()
    return json_data

"""),
     ('parser/util_parser.py', "import pkgutil\n", "import pkgutil\nimport threading\n")],
    IMPORTS + INTERRUPT % 'BaseException' + '''
import faulthandler
faulthandler.dump_traceback_later(20, exit=True)
for n, (what, res) in interrupted(lambda: parse('head -n 3 f'), 'util_parser'):
    parse('head -n 3 f')
''')

bug('c12-check-by-assertion', 'C12',
    'PYTHONOPTIMIZE in the environment of the planner and uniq with three operands, which it rejects',
    'with optimisation, what is known about such an invocation differs from what is known without',
    [(AG + 'InputOutputInfoGeneratorUniq.py',
      """        elif self.get_operand_list_length() == 2:
            self.all_but""",
      """        else:
            assert self.get_operand_list_length() == 2, 'extra operand for uniq, the 3rd one'
            self.all_but"""),
     (AG + 'InputOutputInfoGeneratorUniq.py',
      """            self.only_last_operand_is_stream_output()
        else:
            raise Exception('extra operand for uniq, the 3rd one')
""",
      """            self.only_last_operand_is_stream_output()
""")],
    ELSEWHERE + '''
compare(ask('uniq a b c').replace('AttributeError', ''), ask('uniq a b c', PYTHONOPTIMIZE='1'))
''')

bug('c13-variable-zero', 'C13',
    'the first variable of the caller is number 0',
    'a stream that has variable 0 is passed over by substitutions, replacements and the lists of streams',
    [('datatypes/CommandInvocationWithIOVars.py',
      "[function_to_apply_to_vars(el)] if isinstance(el, int) else [el]",
      "[function_to_apply_to_vars(el)] if el and isinstance(el, int) else [el]")],
    IMPORTS + '''
from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars
for first in (5, 0):
    inv = CommandInvocationWithIOVars.make_cat_command_invocation_with_io_vars([first, 6], 7)
    inv.replace_var(first, 9)
    if inv.operand_list != [9, 6] or set(inv.access_map) != {9, 6, 7}:
        print('first variable', first, inv)
        sys.exit(1)
''')

bug('c01-aggregator-shares-records', 'C01',
    'a second aggregator (or anything else) is built from an invocation from which an aggregator was built before',
    'building an aggregator removes the streams of the original from its access records',
    [(DP + 'AggregatorSpec.py', "        aggregator_cmd_inv = deepcopy(original_cmd_invocation)", "        aggregator_cmd_inv = copy(original_cmd_invocation)"),
     (DP + 'AggregatorSpec.py', "from copy import deepcopy\n", "from copy import copy, deepcopy\n")],
    IMPORTS + '''
inv, names = to_vars('sort -n f')[:2]
p = get_parallelizability_info_from_cmd_invocation(parse('sort -n f')).get_inferred_parallelizer_list()[0]
before = repr(inv)
p.get_actual_aggregator(inv, [101, 102], 103)
if repr(inv) != before:
    print(before, '->', inv)
    sys.exit(1)
''')

bug('c10-inferred-list-kept', 'C10',
    'the caller changes the list of parallelizers it was given and asks for it again, or adds a parallelizer after asking',
    'the second answer is the list the caller has changed',
    [('annotation_generation/datatypes/ParallelizabilityInfo.py',
      "        # add round robin with unwrap parallelizer for commutative command\n",
      "        # add round robin with unwrap parallelizer for commutative command\n        if self._inferred is not None:\n            return self._inferred\n"),
     ('annotation_generation/datatypes/ParallelizabilityInfo.py',
      "        return parallelizer_list\n",
      "        self._inferred = parallelizer_list\n        return parallelizer_list\n"),
     ('annotation_generation/datatypes/ParallelizabilityInfo.py',
      "class ParallelizabilityInfo:\n",
      "class ParallelizabilityInfo:\n\n    _inferred = None # made once\n")],
    IMPORTS + '''
info = get_parallelizability_info_from_cmd_invocation(parse('sort f'))
want = repr(info.get_inferred_parallelizer_list())
while info.get_inferred_parallelizer_list():
    x = info.get_inferred_parallelizer_list()
    del x[0]
    if repr(info.get_inferred_parallelizer_list()) != want:
        print('first', want, 'then', info.get_inferred_parallelizer_list())
        sys.exit(1)
    break
''')

bug('c09-spaces-stripped', 'C09',
    'a path to save to that starts or ends with a space',
    'the report is saved to another file than the one named',
    [('annotation_cli.py', "where_to_save = options.save_to\n", "where_to_save = options.save_to.strip() if options.save_to else None\n")],
    CLI + '''
run('cat f', 'out ')
if sorted(os.listdir('.')) != ['out ']:
    print(os.listdir('.'))
    sys.exit(1)
''')

bug('c03-unique-lines-merged', 'C03',
    'sort -u with keys or folding, so that lines compare equal without being equal, and lines dealt out of their order',
    'which of the equal lines is kept depends on the worker it went to',
    [(AG + 'ParallelizabilityInfoGeneratorSort.py',
      "            pass    # no parallelization\n",
      """            if not self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-z", "-R", "-s", "-m", "--files0-from", "--random-source", "--debug"]):
                # merging with -u keeps the lines unique
                merge = ChainTransformerFlagOptionList([
                    TransformerFlagOptionListFilter(["-b", "-d", "-f", "-g", "-i", "-M", "-h", "-n", "-r", "--sort", "-V", "-k", "-t", "-u"]),
                    TransformerFlagOptionListAdd([Flag("-m")])])
                self.append_to_parallelizer_list(make_parallelizer_consec_chunks(
                    aggregator_spec=make_aggregator_spec_custom_2_ary_from_cmd_inv_with_transformers(
                        flag_option_list_transformer=merge, is_implemented=True)))
""")],
    IMPORTS + '''
info = get_parallelizability_info_from_cmd_invocation(parse('sort -u -f f'))
if any(p.splitter.is_splitter_round_robin_with_unwrap_flag() for p in info.get_inferred_parallelizer_list()):
    print(info.get_inferred_parallelizer_list())
    sys.exit(1)
''')

bug('c12-generator-imported-before', 'C12',
    'the caller has imported the module of a generator before the module that answers questions',
    'the command of that generator is unknown in this process',
    [('annotation_generation/AnnotationGeneration.py',
      "        exec(import_str)\n",
      "        if FILENAME not in sys.modules: # not twice\n            exec(import_str)\n")],
    ELSEWHERE + '''
first = ask('cat f')
out = subprocess.run([sys.executable, '-c', 'import pash_annotations.annotation_generation.annotation_generators.InputOutputInfoGeneratorCat' + ASK, 'cat f'],
                     cwd=work.name, env=dict(os.environ, PYTHONPATH=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
compare(first, out)
''')
