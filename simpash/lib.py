"""Adapter to the library under test. Only its public interface is used, everything is resolved at import from /repo."""
import os
import random
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

from . import threads  # noqa: E402

_p = threads.patched()
_p.__enter__()
from pash_annotations.parser.parser import parse  # noqa: E402
from pash_annotations.annotation_generation.AnnotationGeneration import (  # noqa: E402
    get_input_output_info_from_cmd_invocation, get_parallelizability_info_from_cmd_invocation)
from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars  # noqa: E402
from pash_annotations.datatypes.BasicDatatypesWithIOVar import OptionWithIOVar  # noqa: E402
from pash_annotations.datatypes.BasicDatatypes import ArgStringType, FileName, StdDescriptor, StdDescriptorEnum  # noqa: E402

import pash_annotations  # noqa: E402
_p.__exit__()
PKG = os.path.dirname(os.path.abspath(pash_annotations.__file__)) if pash_annotations.__file__ else os.path.join(REPO, 'pash_annotations')


class Violation(Exception):
    """the property is broken"""


class Query:
    """parse + annotations of one command line"""

    def __init__(self, line):
        try:
            self.inv = parse(line)
        except Exception as e:
            raise Violation('parse(%r) raised %r' % (line, e))
        try:
            self.io = get_input_output_info_from_cmd_invocation(self.inv)
            self.par = get_parallelizability_info_from_cmd_invocation(self.inv)
        except Exception as e:
            raise Violation('annotation query for %r raised %r' % (line, e))
        self.with_io = None
        self.other_outputs = None
        if self.io is not None:
            try:
                self.other_outputs = bool(self.io.has_other_outputs())
                self.with_io = self.io.apply_input_output_info_to_command_invocation(self.inv)
            except Exception as e:
                raise Violation('applying the information of %r raised %r' % (line, e))

    def parallelizers(self):
        if self.par is None:
            return [], False
        lst, _, comm = self.par.unpack_info()
        return list(lst), bool(comm)


class Mention:
    """one stream or file mentioned by an invocation"""
    __slots__ = ('var', 'where', 'std', 'path', 'access')

    def __init__(self, var, where, arg):
        self.var = var
        self.where = where      # 'option', 'operand', 'in', 'out'
        self.access = arg.access
        if isinstance(arg, StdDescriptor):
            self.std = arg.get_type().name if isinstance(arg.get_type(), StdDescriptorEnum) else str(arg.get_type())
            self.path = None
        else:
            self.std = None
            self.path = arg.get_name()

    def __repr__(self):
        return '%s:%s:%s' % (self.where, self.std or self.path, self.access.kind.name)


class Vars:
    """fresh stream variables"""

    def __init__(self, ids=None):
        """ids: seed of the order in which variables are allotted; None: ascending"""
        self.n = 0
        self.free = None
        if ids is not None:
            self.free = random.Random(ids).sample(range(400), 400)

    def new(self):
        self.n += 1
        return self.n if self.free is None else self.free[self.n - 1] if self.n <= 400 else 1000 + self.n


def is_io(arg):
    return isinstance(arg, (FileName, StdDescriptor)) and hasattr(arg, 'access')


def mentions(with_io, fresh=None):
    """every mention of a file or stream in a CommandInvocationWithIO, in order"""
    fresh = fresh or Vars()
    res = []
    for fo in with_io.flag_option_list:
        arg = getattr(fo, 'option_arg', None)
        if arg is not None and is_io(arg):
            res.append(Mention(fresh.new(), 'option', arg))
    for op in with_io.operand_list:
        if is_io(op):
            res.append(Mention(fresh.new(), 'operand', op))
    if with_io.implicit_use_of_streaming_input is not None:
        res.append(Mention(fresh.new(), 'in', with_io.implicit_use_of_streaming_input))
    if with_io.implicit_use_of_streaming_output is not None:
        res.append(Mention(fresh.new(), 'out', with_io.implicit_use_of_streaming_output))
    return res


def to_iovars(with_io, fresh=None):
    """(CommandInvocationWithIOVars, [Mention]): every mention gets its own variable"""
    ms = mentions(with_io, fresh)
    it = iter(ms)
    fl = []
    for fo in with_io.flag_option_list:
        arg = getattr(fo, 'option_arg', None)
        if arg is None:
            fl.append(fo)
        elif is_io(arg):
            fl.append(OptionWithIOVar(fo.get_name(), next(it).var))
        else:
            fl.append(OptionWithIOVar(fo.get_name(), ArgStringType(arg if isinstance(arg, str) else arg.get_name())))
    ops = [next(it).var if is_io(op) else op for op in with_io.operand_list]
    imp_in = next(it).var if with_io.implicit_use_of_streaming_input is not None else None
    imp_out = next(it).var if with_io.implicit_use_of_streaming_output is not None else None
    inv = CommandInvocationWithIOVars(cmd_name=with_io.cmd_name, flag_option_list=fl, operand_list=ops,
                                      implicit_use_of_streaming_input=imp_in, implicit_use_of_streaming_output=imp_out,
                                      access_map={m.var: m.access for m in ms})
    return inv, ms


def is_var(x):
    return isinstance(x, int) and not isinstance(x, bool)


def option_words(name, val):
    if name.startswith('--'):
        return [name + '=' + val]
    return [name, val]


def render(inv, path_of):
    """(argv, stdin path, stdout path) of an invocation with variables; path_of(var) -> path word"""
    argv = [inv.cmd_name]
    for fo in inv.flag_option_list:
        arg = getattr(fo, 'option_arg', None)
        if arg is None:
            argv.append(fo.get_name())
        elif is_var(arg):
            argv += option_words(fo.get_name(), path_of(arg))
        else:
            argv += option_words(fo.get_name(), arg if isinstance(arg, str) else arg.get_name())
    for op in inv.operand_list:
        if is_var(op):
            argv.append(path_of(op))
        else:
            argv.append(op if isinstance(op, str) else op.get_name())
    i = inv.implicit_use_of_streaming_input
    o = inv.implicit_use_of_streaming_output
    return argv, None if i is None else path_of(i), None if o is None else path_of(o)


def used_vars(inv):
    res = []
    for fo in inv.flag_option_list:
        arg = getattr(fo, 'option_arg', None)
        if is_var(arg):
            res.append(arg)
    res += [x for x in inv.operand_list if is_var(x)]
    for x in (inv.implicit_use_of_streaming_input, inv.implicit_use_of_streaming_output):
        if x is not None:
            res.append(x)
    return res
