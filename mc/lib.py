"""Adapters between the real objects of the library and the canonical forms of mc.model.  Public API only."""
import copy
from pash_annotations.parser.parser import parse
from pash_annotations.datatypes.BasicDatatypes import Flag, Option, Operand, ArgStringType, FileName, StdDescriptor, \
    StdDescriptorEnum
from pash_annotations.datatypes.BasicDatatypesWithIO import FileNameWithIOInfo, StdDescriptorWithIOInfo, OptionWithIO
from pash_annotations.datatypes.BasicDatatypesWithIOVar import OptionWithIOVar
from pash_annotations.datatypes.CommandInvocationInitial import CommandInvocationInitial
from pash_annotations.datatypes.CommandInvocationWithIO import CommandInvocationWithIO
from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars
from pash_annotations.datatypes import AccessKind as AK
from pash_annotations.annotation_generation.AnnotationGeneration import \
    get_input_output_info_from_cmd_invocation as io_info, get_parallelizability_info_from_cmd_invocation as para_info
from mc import model

ACCESS_MAKERS = {'CONFIG_INPUT': AK.make_config_input, 'STREAM_INPUT': AK.make_stream_input,
                 'CONTAINER_FOR_INPUT': AK.make_container_for_input, 'EXCLUDES_FROM_INPUT': AK.make_excludes_from_input,
                 'OTHER_INPUT': AK.make_other_input, 'STREAM_OUTPUT': AK.make_stream_output,
                 'OTHER_OUTPUT': AK.make_other_output}


# ---------------------------------------------------------------- quoting (own, does not use shlex)
SAFE = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_=./:,+@%')


def q_single(w):
    return "'" + w.replace("'", "'\\''") + "'"


def q_double(w):
    return '"' + w.replace('\\', '\\\\').replace('"', '\\"') + '"'


def q_backslash(w):
    if w == '':
        return "''"
    return ''.join(c if c in SAFE else '\\' + c for c in w)


def q_mixed(w):
    h = (len(w) + 1) // 2
    return q_single(w[:h]) + q_double(w[h:])


def quote(w):
    return w if w and all(c in SAFE for c in w) else q_single(w)


def line(words):
    return ' '.join(quote(w) for w in words)


# ---------------------------------------------------------------- canonical forms of real objects
class Malformed(Exception):
    pass


def canon_inv(inv):
    if type(inv) is not CommandInvocationInitial:
        return ('not an invocation', repr(inv))
    fo = []
    for e in inv.flag_option_list:
        if type(e) is Flag:
            fo.append(('F', e.get_name()))
        elif type(e) is Option:
            fo.append(('O', e.get_name(), e.get_arg()))
        else:
            fo.append(('?', repr(e)))
    ops = []
    for o in inv.operand_list:
        n = o.get_name()
        ops.append(n if type(o) is Operand and type(n) is str else ('?', type(o).__name__, repr(n)))
    return inv.cmd_name, fo, ops


def canon_arg(x):
    """-> (kind, text) of an option argument / operand with I/O information"""
    t = type(x)
    if t is ArgStringType:
        return 'ARG', x.get_name()
    if t is FileNameWithIOInfo:
        return access_name(x.get_access()), x.get_name()
    if t is StdDescriptorWithIOInfo:
        return access_name(x.get_access()), STD[x.get_type()]
    return '?', repr(x)


STD = {getattr(StdDescriptorEnum, d): '<' + d.lower() + '>' for d in ('STDIN', 'STDOUT', 'STDERR') if hasattr(StdDescriptorEnum, d)}


def access_name(a):
    if a is None:
        return None
    return a.kind.name if type(a) is AK.AccessKind else ('?', repr(a))


def canon_withio(c):
    """canonical form of a CommandInvocationWithIO"""
    fo = []
    for e in c.flag_option_list:
        if type(e) is Flag:
            fo.append(('F', e.get_name()))
        elif type(e) is OptionWithIO:
            fo.append(('O', e.get_name()) + canon_arg(e.get_arg()))
        else:
            fo.append(('?', repr(e)))
    ops = [canon_arg(o) for o in c.operand_list]
    imp = []
    for x in (c.implicit_use_of_streaming_input, c.implicit_use_of_streaming_output):
        imp.append(None if x is None else canon_arg(x))
    return c.cmd_name, fo, ops, imp[0], imp[1]


def ref_withio(inv, io):
    """what applying the reference I/O information must give"""
    cmd, fo, ops = inv

    def arg(kind, text):
        if kind != 'ARG' and text == '-':
            return kind, '<stdin>' if kind in model.INPUTS else '<stdout>'
        return kind, text
    return (cmd, [e if e[0] == 'F' else ('O', e[1]) + arg(k, e[2]) for e, k in zip(fo, io['opts'])],
            [arg(k, o) for k, o in zip(io['ops'], ops)],
            ('STREAM_INPUT', '<stdin>') if io['in'] else None, ('STREAM_OUTPUT', '<stdout>') if io['out'] else None)


def make_inv(cmd, fo, ops):
    return CommandInvocationInitial(cmd, [Flag(e[1]) if e[0] == 'F' else Option(e[1], e[2]) for e in fo],
                                    [Operand(o) for o in ops])


def safe(f, *a):
    """result, or ('raises', type name)"""
    try:
        return f(*a)
    except Exception as e:
        return ('raises', type(e).__name__, str(e)[:200])


def raised(x):
    return type(x) is tuple and len(x) == 3 and x[0] == 'raises'


# ---------------------------------------------------------------- flag lists and transformers (judged by behaviour)
def canon_fo_entry(e):
    if type(e) is Flag:
        return ('F', e.get_name())
    a = e.get_arg()
    if type(a) is ArgStringType:
        a = ('ARG', a.get_name())
    elif isinstance(a, (FileNameWithIOInfo, StdDescriptorWithIOInfo)):
        a = canon_arg(a)
    return ('O', e.get_name(), a)


def canon_fo(l):
    return [canon_fo_entry(e) for e in l]


def probe_lists():
    s = [Flag(f) for f in ('-a', '-b', '-c', '-C', '-d', '-f', '-g', '-h', '-i', '-M', '-m', '-n', '-o', '-q', '-R', '-r',
                           '-s', '-u', '-V', '-z', '--debug', '--help', '--version')]
    o = [OptionWithIO(n, ArgStringType(a)) for n, a in (('-k', '1'), ('-k', '2,2n'), ('-t', ','), ('--sort', 'numeric'),
                                                        ('--parallel', '2'), ('-S', '1M'), ('--batch-size', '7'))]
    o += [OptionWithIOVar('-T', 3), OptionWithIOVar('-o', 4)]
    return [[], s + o, o + s[::-1], [Flag('-m')], [Flag('-n'), OptionWithIO('-k', ArgStringType('1')), Flag('-n')],
            [OptionWithIO('-m', ArgStringType('x'))]]


def behaviour_of_transformer(tr):
    return [canon_fo(tr.get_flag_option_list_after_transformer_application(list(p))) for p in probe_lists()]


def ref_transform(tr, l):
    """reference semantics of a symbolic transformer on a canonical flag/option list"""
    k = tr[0]
    if k == 'seq':
        return list(l)
    if k == 'empty':
        return []
    if k == 'custom':
        return list(tr[1])
    if k == 'filter':
        return [e for e in l if e[1] in tr[1]]
    if k == 'remove':
        return [e for e in l if e[1] not in tr[1]]
    if k == 'add':
        return list(l) + [e for e in tr[1] if e not in l]
    if k == 'chain':
        for t in tr[1]:
            l = ref_transform(t, l)
        return list(l)
    raise AssertionError(tr)


_probe_ref = {}


def ref_behaviour(tr):
    if tr not in _probe_ref:
        _probe_ref[tr] = [ref_transform(tr, canon_fo(p)) for p in probe_lists()]
    return _probe_ref[tr]


_beh_cache = {}


def canon_mapper_spec(m):
    return (m.kind.name, m.spec_mapper_cmd_name, behaviour_of_transformer(m.flag_option_list_transformer), m.is_implemented)


def canon_agg_spec(a):
    r = (a.get_kind().name, a.is_implemented)
    if hasattr(a, 'flag_option_list_transformer'):
        r += ('transformer', behaviour_of_transformer(a.flag_option_list_transformer))
    if hasattr(a, 'cmd_inv_as_str'):
        r += ('string', a.cmd_inv_as_str)
    return r


def canon_parallelizer(p):
    info = p.info_splitter_mapper
    return (p.get_splitter().kind.name, canon_mapper_spec(p.get_mapper_spec()), canon_agg_spec(p.get_aggregator_spec()),
            getattr(info, 'name', info), p.get_info_mapper_aggregator())


def ref_parallelizer(p):
    """expected canonical form of a reference strategy"""
    splitter, mapper, agg, info, aux = p
    m = (mapper[0], mapper[1], ref_behaviour(mapper[2]), mapper[3])
    a = agg if len(agg) < 4 or agg[2] != 'transformer' else agg[:3] + (ref_behaviour(agg[3]),)
    return (splitter, m, a, info, aux)


# ---------------------------------------------------------------- I/O variables (the client's view)
def another(v):
    """the same number as another object (if the interpreter does not share it)"""
    return int(str(v))


class Wired:
    """an invocation with I/O variables, as the client (PaSh) builds it from the I/O information"""

    def __init__(self, inv):
        io = io_info(inv)
        self.io = io
        withio = io.apply_input_output_info_to_command_invocation(inv)
        self.withio = withio
        self.next = 1000
        self.res = {}              # variable -> file / descriptor
        self.access = {}

        def var(x):
            v = self.next
            self.next += 1
            self.res[v] = x
            self.access[another(v)] = x.get_access()
            return another(v)
        fo = []
        for e in withio.flag_option_list:
            if isinstance(e, OptionWithIO) and not isinstance(e.get_arg(), ArgStringType):
                fo.append(OptionWithIOVar(e.get_name(), var(e.get_arg())))
            else:
                fo.append(e)
        ops = [o if isinstance(o, ArgStringType) else var(o) for o in withio.operand_list]
        i, o = withio.implicit_use_of_streaming_input, withio.implicit_use_of_streaming_output
        self.inv = CommandInvocationWithIOVars(withio.cmd_name, fo, ops, None if i is None else var(i),
                                               None if o is None else var(o), self.access)

    def fresh(self):
        self.next += 1
        return self.next - 1


def canon_vars(c):
    """canonical form of an invocation with I/O variables (mapper, aggregator, ...)"""
    am = {v: access_name(a) for v, a in c.access_map.items()}
    return {'cmd': c.cmd_name, 'fo': canon_fo(c.flag_option_list),
            'ops': [('ARG', o.get_name()) if type(o) is ArgStringType else o for o in c.operand_list],
            'in': c.implicit_use_of_streaming_input, 'out': c.implicit_use_of_streaming_output, 'access': am}


def used_vars(c):
    """variables in traversal order of a canonical form"""
    r = [e[2] for e in c['fo'] if e[0] == 'O' and type(e[2]) is int]
    r += [o for o in c['ops'] if type(o) is int]
    return r + [v for v in (c['in'], c['out']) if v is not None]


# ---------------------------------------------------------------- whole answer about one invocation
def observe_io(inv):
    io = safe(io_info, inv)
    if io is None or raised(io):
        return io
    w = safe(io.apply_input_output_info_to_command_invocation, inv)
    return (w if raised(w) else canon_withio(w)), safe(io.has_other_outputs)


def observe_para(inv):
    p = safe(para_info, inv)
    if p is None or raised(p):
        return p
    un = safe(p.unpack_info)
    if raised(un):
        return un
    return ([canon_parallelizer(x) for x in p.parallelizer_list], [canon_parallelizer(x) for x in un[0]], un[1], un[2])


def observe(inv):
    return canon_inv(inv), observe_io(inv), observe_para(inv)
