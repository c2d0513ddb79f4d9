"""Changes of the library that keep its behaviour: every check has to stay quiet on them.

  refactor.py list
  refactor.py try [NAME...] [-- PID...]    applies each to a copy under /tmp, runs the repository's tests and the quick checks against the copy"""
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'
ALL = {}
AGEN = 'annotation_generation/AnnotationGeneration.py'
UP = 'parser/util_parser.py'
PA = 'parser/parser.py'
CL = 'annotation_cli.py'
IOI = 'annotation_generation/datatypes/InputOutputInfo.py'
IOG = 'annotation_generation/annotation_generators/InputOutputInfoGenerator_Interface.py'
PAR = 'annotation_generation/datatypes/parallelizability/'
AS = PAR + 'AggregatorSpec.py'
MS = PAR + 'MapperSpec.py'
IV = 'datatypes/CommandInvocationWithIOVars.py'


def ref(name, *edits):
    ALL[name] = edits


LOAD_OLD = """    try:
        json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/' + command_json_fn)
    except FileNotFoundError:
        try:
            json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/_default_data_for_commands.json')
        except FileNotFoundError:
            raise Exception(f'json-File for default values not found.')
    json_data = json.loads(json_data_bytes)
    return json_data

    # command"""


def load(new, imports=''):
    return (UP, LOAD_OLD, new + '\n    # command'), (UP, 'import json\n', 'import json\n' + imports)


ref('load-open', *load("""    directory = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'command_flag_option_info', 'data')
    for name in (command_json_fn, '_default_data_for_commands.json'):
        try:
            with open(os.path.join(directory, name), encoding='utf-8') as data_file:
                return json.load(data_file)
        except FileNotFoundError:
            continue
    raise Exception('json-File for default values not found.')
"""))
ref('load-pathlib', *load("""    directory = pathlib.Path(__file__).resolve().parent / 'command_flag_option_info' / 'data'
    try:
        text = (directory / command_json_fn).read_bytes()
    except FileNotFoundError:
        text = (directory / '_default_data_for_commands.json').read_bytes()
    return json.loads(text)
""", 'import pathlib\n'))
ref('load-resources', *load("""    directory = importlib.resources.files('pash_annotations.parser') / 'command_flag_option_info' / 'data'
    try:
        return json.loads((directory / command_json_fn).read_text(encoding='utf-8'))
    except FileNotFoundError:
        return json.loads((directory / '_default_data_for_commands.json').read_text(encoding='utf-8'))
""", 'import importlib.resources\n'))
ref('load-os', *load("""    directory = os.path.dirname(os.path.abspath(__file__)) + '/command_flag_option_info/data/'
    try:
        fd = os.open(directory + command_json_fn, os.O_RDONLY)
    except FileNotFoundError:
        fd = os.open(directory + '_default_data_for_commands.json', os.O_RDONLY)
    parts = []
    try:
        while True:
            part = os.read(fd, 65536)
            if not part:
                break
            parts.append(part)
    finally:
        os.close(fd)
    return json.loads(b''.join(parts))
"""))
ref('load-cached-text', *load("""    text = _texts.get(cmd_name)
    if text is None:
        try:
            text = pkgutil.get_data(__name__, 'command_flag_option_info/data/' + command_json_fn)
        except FileNotFoundError:
            text = pkgutil.get_data(__name__, 'command_flag_option_info/data/_default_data_for_commands.json')
        json.loads(text)
        _texts[cmd_name] = text
    return json.loads(text)
""", '_texts = {}\n'))
ref('load-cached-copy', *load("""    with _lock:
        if cmd_name not in _parsed:
            try:
                text = pkgutil.get_data(__name__, 'command_flag_option_info/data/' + command_json_fn)
            except FileNotFoundError:
                text = pkgutil.get_data(__name__, 'command_flag_option_info/data/_default_data_for_commands.json')
            _parsed[cmd_name] = json.loads(text)
        return copy.deepcopy(_parsed[cmd_name])
""", 'import copy\nimport threading\n_lock = threading.Lock()\n_parsed = {}\n'))
ref('load-lru', *load("""    return json.loads(_text(cmd_name))


@functools.lru_cache(maxsize=None)
def _text(cmd_name):
    names = [f'{cmd_name}.json', '_default_data_for_commands.json']
    for name in names:
        try:
            text = pkgutil.get_data(__name__, 'command_flag_option_info/data/' + name)
        except FileNotFoundError:
            continue
        json.loads(text)
        return text
    raise Exception('json-File for default values not found.')
""", 'import functools\n'))

DISPATCH = """for FILENAME_MODULE_PAIR in inputoutput_info_generator_file_module_names + \\
                            parallelizability_info_generator_file_and_module_names:
    FILENAME, MODULE = FILENAME_MODULE_PAIR
    import_str = "from " + FILENAME + " import " + MODULE
    try:
        exec(import_str)
    except ModuleNotFoundError:
        pass # it's fine if some do not exist, we catch that later
"""
ref('dispatch-importlib',
    (AGEN, 'import os\n', 'import importlib\nimport os\n'),
    (AGEN, DISPATCH, """GENERATORS = {}
for FILENAME, MODULE in inputoutput_info_generator_file_module_names + \\
                        parallelizability_info_generator_file_and_module_names:
    try:
        GENERATORS[MODULE] = getattr(importlib.import_module(FILENAME), MODULE)
    except ModuleNotFoundError:
        pass # it's fine if some do not exist, we catch that later
"""),
    (AGEN, '    return getattr(sys.modules[__name__], classname)', '    return GENERATORS[classname]'))
ref('dispatch-lazy',
    (AGEN, 'import os\n', 'import importlib\nimport os\n'),
    (AGEN, DISPATCH, ''),
    (AGEN, '    return getattr(sys.modules[__name__], classname)', '    return getattr(importlib.import_module(ANNOTATION_GENERATORS + "." + classname), classname)'))
ref('dispatch-one-helper',
    (AGEN, """    # Get the Generator, info_generator_class_for_cmd_repr, info_generator_class_for_cmd_repr
    info_generator_class_for_cmd_repr = DICT_CMD_NAME_TO_REPRESENTATION_IN_MODULE_NAMES.get(cmd_invocation.cmd_name)
    try:
        info_generator_class_for_cmd = str_to_class(str(INPUTOUTPUT_INFO_FILENAME_MODULE_PREFIX) + str(info_generator_class_for_cmd_repr))
        # Initialize the info generator object
        info_generator_object = info_generator_class_for_cmd(cmd_invocation)
        # Generate info
        info_generator_object.generate_info()
        return info_generator_object.get_info()
    except Exception as sth: # module does not exist
        return None
""", """    return get_info_of_generator(INPUTOUTPUT_INFO_FILENAME_MODULE_PREFIX, cmd_invocation)
"""),
    (AGEN, """    # Get the Generator
    info_generator_class_for_cmd_repr = str(PARALLELIZABILITY_INFO_FILENAME_MODULE_PREFIX) + str(DICT_CMD_NAME_TO_REPRESENTATION_IN_MODULE_NAMES.get(cmd_invocation.cmd_name))
    try:
        info_generator_class_for_cmd = str_to_class(info_generator_class_for_cmd_repr)
        # Initialize the info generator object
        # TODO: be more rigorous and allow empty parallelization annotation: return ParallelizabilityInfo with [] as default
        info_generator_object = info_generator_class_for_cmd(cmd_invocation)
        # Generate info
        info_generator_object.generate_info()
        return info_generator_object.get_info()
    except Exception: # module does not exist
        return None
""", """    return get_info_of_generator(PARALLELIZABILITY_INFO_FILENAME_MODULE_PREFIX, cmd_invocation)

def get_info_of_generator(prefix, cmd_invocation):
    representation = DICT_CMD_NAME_TO_REPRESENTATION_IN_MODULE_NAMES.get(cmd_invocation.cmd_name)
    generator_class = getattr(sys.modules[__name__], f'{prefix}{representation}', None)
    if generator_class is None:
        return None
    try:
        generator = generator_class(cmd_invocation)
        generator.generate_info()
        return generator.get_info()
    except Exception:
        return None
"""))

ref('parser-helpers',
    (PA, "    return get_set_of_all(\"flag\", json_data)", "    return {name for names in json_data[\"flag\"] for name in names}"),
    (PA, """    dict_flag_to_primary_repr: Dict[str, str] = dict()
    for list_of_equiv_flag_repr in json_data["flag"]:
        for i in range(1, len(list_of_equiv_flag_repr)):
            dict_flag_to_primary_repr[list_of_equiv_flag_repr[i]] = list_of_equiv_flag_repr[0]
    return dict_flag_to_primary_repr
""", """    return {alias: names[0] for names in json_data["flag"] for alias in names[1:]}
"""),
    (PA, """    for pos in range(1, len(potential_cluster)):
        name = f'-{potential_cluster[pos]}'
        if name in set_of_all_options:
            return pos + 1 < len(potential_cluster) or not is_last_element
        elif name not in set_of_all_flags:
            return False
    return False
""", """    rest = potential_cluster[1:]
    while rest:
        name, rest = '-' + rest[0], rest[1:]
        if name in set_of_all_options:
            return rest != '' or not is_last_element
        if name not in set_of_all_flags:
            break
    return False
"""),
    (PA, """            pos = 1
            while f'-{potential_flag_or_option[pos]}' not in set_of_all_options:
                flag_name_as_string = f'-{potential_flag_or_option[pos]}'
                flag_option_list.append(Flag(dict_flag_to_primary_repr.get(flag_name_as_string, flag_name_as_string)))
                pos += 1
""", """            pos = next(p for p in range(1, len(potential_flag_or_option)) if '-' + potential_flag_or_option[p] in set_of_all_options)
            names = ['-' + letter for letter in potential_flag_or_option[1:pos]]
            flag_option_list.extend(Flag(dict_flag_to_primary_repr.get(name, name)) for name in names)
"""),
    (PA, "    operand_list = [Operand(operand_name) for operand_name in parsed_elements_list[i:]]\n\n    return CommandInvocationInitial(cmd_name, flag_option_list, operand_list)",
     "    return make_invocation(cmd_name, flag_option_list, parsed_elements_list[i:])\n\n\ndef make_invocation(cmd_name, flag_option_list, names):\n    return CommandInvocationInitial(cmd_name, flag_option_list, list(map(Operand, names)))"))

ref('ioinfo-loops',
    (IOI, """            [InputOutputInfo.apply_typer_to_flagoption(flagoption, typer) for (flagoption, typer) in zip(flagoption_list_original, self.flagoption_list_typer)]
""", """            list(map(InputOutputInfo.apply_typer_to_flagoption, flagoption_list_original, self.flagoption_list_typer))
"""),
    (IOI, """        typer_lists = list(itertools.chain(self.flagoption_list_typer, self.operand_list_typer))
        for _, pot_accesskind in typer_lists:
            if pot_accesskind is not None:
                # is not None -> of type AccessKind
                if pot_accesskind.is_other_output():
                    return True
        return False
""", """        return any(access is not None and access.is_other_output()
                   for _, access in self.operand_list_typer + self.flagoption_list_typer)
"""),
    (IOI, """        original_last_entry = self.operand_list_typer[-1]
        self.all_operands_are_other_inputs()
        self.operand_list_typer[-1] = original_last_entry
""", """        *others, last = self.operand_list_typer
        self.operand_list_typer = [(WhichClassForArg.FILESTD, make_other_input()) for _ in others] + [last]
"""),
    (IOI, """        original_first_entry = self.operand_list_typer[0]
        self.all_operands_are_streaming_outputs()
        self.operand_list_typer[0] = original_first_entry
""", """        first, *others = self.operand_list_typer
        self.operand_list_typer = [first] + [(WhichClassForArg.FILESTD, make_stream_output()) for _ in others]
"""),
    (IOG, """        for flagoption in self.cmd_inv.flag_option_list:
            if isinstance(flagoption, Flag):
                flagoption_list_typer.append((WhichClassForArg.PLAINSTRING, None))
            elif isinstance(flagoption, Option):
                flagoption_list_typer.append(dict_option_to_class_for_arg[flagoption.get_name()])
            else:
                raise Exception("neither Flag nor Option")
        return flagoption_list_typer
""", """        for flagoption in self.cmd_inv.flag_option_list:
            flagoption_list_typer.append(self.get_typer(flagoption, dict_option_to_class_for_arg))
        return flagoption_list_typer

    @staticmethod
    def get_typer(flagoption, classes):
        if isinstance(flagoption, Option):
            return classes[flagoption.get_name()]
        if not isinstance(flagoption, Flag):
            raise Exception("neither Flag nor Option")
        return WhichClassForArg.PLAINSTRING, None
"""),
    (IOG, """            # CA whether access info is given
            if isinstance(option_arg_info, list):
                option_arg_type: str = option_arg_info[0]
                option_arg_access_str: str = option_arg_info[1]
                access: AccessKind = get_access_from_string(option_arg_access_str)
                if option_arg_type in INDICATORS_FOR_FILENAMES:
                    # for now, we do not allow to have '-' for stdin in option arguments
                    dict_option_to_class_for_arg[option_name] = (WhichClassForArg.FILESTD, access)
                else:
                    dict_option_to_class_for_arg[option_name] = (WhichClassForArg.ARGSTRING, None)
            else:
                option_arg_type: str = option_arg_info
                assert(not option_arg_type in INDICATORS_FOR_FILENAMES) # filenames need to declare access pattern, no default
                # access: AccessKind = AccessKind.make_config_input()
                dict_option_to_class_for_arg[option_name] = (WhichClassForArg.ARGSTRING, None)
""", """            dict_option_to_class_for_arg[option_name] = (WhichClassForArg.ARGSTRING, None)
            if isinstance(option_arg_info, list):
                option_arg_type, option_arg_access_str = option_arg_info[0], option_arg_info[1]
                access: AccessKind = get_access_from_string(option_arg_access_str)
                if option_arg_type in INDICATORS_FOR_FILENAMES:
                    dict_option_to_class_for_arg[option_name] = (WhichClassForArg.FILESTD, access)
            else:
                assert(not option_arg_info in INDICATORS_FOR_FILENAMES)
"""))

ref('aggregators-helpers',
    (AS, """        all_inputs = [fst_normal_input] + fst_aux_inputs_from + [snd_normal_input] + snd_aux_inputs_from
        all_outputs = [output_to] + aux_outputs_to
        access_map = dict()
        for input_id in all_inputs:
            access_map[input_id] = make_stream_input()
        for output_id in all_outputs:
            access_map[output_id] = make_stream_output()
        new_operand_list : List[Union[ArgStringType, IOVar]] = []
        # trick for typing...
        for x in [fst_normal_input] + fst_aux_inputs_from + [snd_normal_input] + snd_aux_inputs_from + [output_to] + aux_outputs_to:
            new_operand_list.append(x)
""", """        all_inputs = [fst_normal_input, *fst_aux_inputs_from, snd_normal_input, *snd_aux_inputs_from]
        all_outputs = [output_to, *aux_outputs_to]
        access_map = {**{x: make_stream_output() for x in all_outputs}, **{}}
        access_map = {**{x: make_stream_input() for x in all_inputs}, **access_map}
        new_operand_list : List[Union[ArgStringType, IOVar]] = all_inputs + all_outputs
"""),
    (AS, """        if not self.is_implemented:
            return None
        # sanity checks
        if self.kind == AggregatorKindEnum.ADJ_LINES_FUNC:
            assert(len(inputs_from) == 1)
        elif self.kind == AggregatorKindEnum.CUSTOM_2_ARY:
            assert(len(inputs_from) == 2)
        aggregator_cmd_inv = deepcopy(original_cmd_invocation)
""", """        if not self.is_implemented:
            return None
        self.check_number_of_inputs(inputs_from)
        aggregator_cmd_inv = deepcopy(original_cmd_invocation)
"""),
    (AS, """    def get_kind(self):
        return self.kind
""", """    def check_number_of_inputs(self, inputs_from):
        expected = {AggregatorKindEnum.ADJ_LINES_FUNC: 1, AggregatorKindEnum.CUSTOM_2_ARY: 2}.get(self.kind, len(inputs_from))
        assert len(inputs_from) == expected

    def get_kind(self):
        return self.kind
"""),
    (MS, """            # ASSUMPTION: operands given in that order: input, output, aux_output_1, aux_output_2, ...
            for operand in mapper.operand_list:
                assert(isinstance(operand, IOVar))
                mapper.access_map.pop(operand)
            for implicit_var in [mapper.implicit_use_of_streaming_input, mapper.implicit_use_of_streaming_output]:
                if implicit_var is not None:
                    mapper.access_map.pop(implicit_var)
            # trick for typing...
            new_operand_list = []
            for x in [input_from, output_to] + [aux_output_to for aux_output_to in aux_output_tos]:
                new_operand_list.append(x)
            mapper.operand_list = new_operand_list
            mapper.access_map[input_from] = make_stream_input()
            mapper.access_map[output_to] = make_stream_output()
            for aux_output_to in aux_output_tos:
                mapper.access_map[aux_output_to] = make_stream_output()
            mapper.implicit_use_of_streaming_output = None
            mapper.implicit_use_of_streaming_input = None
        return mapper
""", """            MapperSpec.rewire(mapper, input_from, [output_to] + list(aux_output_tos))
        return mapper

    @staticmethod
    def rewire(mapper, input_from, outputs):
        old = list(mapper.operand_list)
        old += [v for v in (mapper.implicit_use_of_streaming_input, mapper.implicit_use_of_streaming_output) if v is not None]
        for operand in old:
            assert(isinstance(operand, IOVar))
            del mapper.access_map[operand]
        mapper.implicit_use_of_streaming_input = mapper.implicit_use_of_streaming_output = None
        mapper.operand_list = [input_from] + outputs
        mapper.access_map.update({output: make_stream_output() for output in outputs})
        mapper.access_map[input_from] = make_stream_input()
"""))

ref('vars-rewritten',
    (IV, """        remaining_new_vars = list(new_vars)
        old_vars = []
        new_access_map = dict()
        def function_to_apply_to_vars(var):
            if has_right_access(self.access_map[var]):
                new_var = remaining_new_vars.pop(0)
                old_vars.append(var)
                new_access_map[new_var] = self.access_map[var]
                return new_var
            else:
                return var
        self.map_var(function_to_apply_to_vars)
        assert len(remaining_new_vars) == 0
        for old_var in old_vars:
            self.access_map.pop(old_var)
        self.access_map.update(new_access_map)
""", """        next_vars = iter(list(new_vars))
        replaced = []
        def function_to_apply_to_vars(var):
            if not has_right_access(self.access_map[var]):
                return var
            new_var = next(next_vars, None)
            if new_var is None:
                raise IndexError("too few variables")
            replaced.append((var, new_var))
            return new_var
        self.map_var(function_to_apply_to_vars)
        assert next(next_vars, None) is None
        accesses = [(new_var, self.access_map[var]) for var, new_var in replaced]
        for var, _ in replaced:
            del self.access_map[var]
        for new_var, access in accesses:
            self.access_map[new_var] = access
"""),
    (IV, """        streaming_inputs = []
        def function_to_apply(el):
            if self.access_map[el].is_stream_input():
                streaming_inputs.append(el)
            return el
        self.map_var(function_to_apply)
        # ASSUMPTION""", """        streaming_inputs = [el for el in self.all_vars() if self.access_map[el].is_stream_input()]
        # ASSUMPTION"""),
    (IV, """        outputs = []
        def function_to_apply(el):
            if self.access_map[el].is_any_output():
                outputs.append(el)
            return el
        self.map_var(function_to_apply)
        return outputs
""", """        return [el for el in self.all_vars() if self.access_map[el].is_any_output()]

    def all_vars(self):
        found = [x.option_arg for x in self.flag_option_list if isinstance(x, OptionWithIOVar)] + self.operand_list
        found += [self.implicit_use_of_streaming_input, self.implicit_use_of_streaming_output]
        return [x for x in found if isinstance(x, int)]
"""),
    (IV, """        new_operand_list = []
        for i in range(len(self.operand_list)):
            new_operand_list += function_to_apply(self.operand_list[i])
        self.operand_list = new_operand_list
""", """        self.operand_list = [x for operand in self.operand_list for x in function_to_apply(operand)]
"""))

CLI_OLD = """        # exclusive creation: never overwrites a file, even if it is created in the meantime
        with open(where_to_save, "x") as text_file:
            text_file.write(result)
        is_saved = True
"""
ref('tool-os-open', (CL, 'import argparse\n', 'import argparse\nimport os\n'), (CL, CLI_OLD, """        descriptor = os.open(where_to_save, os.O_WRONLY | os.O_CREAT | os.O_EXCL, 0o666)
        with os.fdopen(descriptor, "w") as text_file:
            text_file.write(result)
        is_saved = True
"""))
ref('tool-link', (CL, 'import argparse\n', 'import argparse\nimport os\nimport tempfile\n'), (CL, CLI_OLD, """        if os.path.lexists(where_to_save):
            raise FileExistsError(where_to_save)
        directory = os.path.dirname(os.path.abspath(where_to_save))
        descriptor, temporary = tempfile.mkstemp(dir=directory)
        try:
            with os.fdopen(descriptor, "w") as text_file:
                text_file.write(result)
            os.link(temporary, where_to_save)
        finally:
            os.unlink(temporary)
        is_saved = True
"""))
ref('tool-pathlib', (CL, 'import argparse\n', 'import argparse\nimport sys\nfrom pathlib import Path\n'), (CL, CLI_OLD, """        text_file = Path(where_to_save).open("x")
        try:
            text_file.write(result)
        finally:
            text_file.close()
        is_saved = True
"""), (CL, "if not is_saved:\n    print(result)", "if not is_saved:\n    sys.stdout.write(result + '\\n')"))


def apply(name, root):
    for file, old, new in ALL[name]:
        path = os.path.join(root, 'pash_annotations', file)
        text = open(path).read()
        if text.count(old) != 1:
            raise SystemExit(f'{name}: {file}: {text.count(old)} times: {old[:60]!r}')
        with open(path, 'w') as f:
            f.write(text.replace(old, new))


def main():
    if sys.argv[1] == 'list':
        return print('\n'.join(ALL))
    args = sys.argv[2:]
    pids = ['C%02d' % i for i in range(1, 14)]
    if '--' in args:
        k = args.index('--')
        args, pids = args[:k], args[k + 1:]
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
    for name in args or ALL:
        d = tempfile.mkdtemp(prefix='refactor.', dir='/tmp')
        try:
            shutil.copytree(REPO, d + '/r', symlinks=True)
            apply(name, d + '/r')
            t = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider'], cwd=d + '/r', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print(name, 'tests:', t.stdout.strip().splitlines()[-1], flush=True)
            shutil.copytree(VERIF, d + '/v', symlinks=True, ignore=shutil.ignore_patterns('.git', 'seeded'))
            for pid in pids:
                t0 = time.time()
                r = subprocess.run(['bash', d + '/v/checks/run.sh', pid, 'quick'], cwd=d + '/v', env=dict(env, VERIF_REPO=d + '/r'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                bad = [x for x in r.stdout.splitlines() if x.startswith(('VIOLATION', 'HARNESS', 'ERROR'))]
                print(f'  {name} {pid} exit {r.returncode} {time.time() - t0:.0f}s', *bad, flush=True)
                if r.returncode:
                    print('\n'.join(r.stdout.splitlines()[-25:]), flush=True)
                    for x in bad:
                        if 'replay=' in x:
                            p = x.split('replay=')[1]
                            if os.path.exists(os.path.join(d, 'v', p)):
                                shutil.copy(os.path.join(d, 'v', p), f'/tmp/rf.{name}.{pid}.json')
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
