"""C25: queries of annotated invocations by access."""
import itertools
from mc import enumr, model

ID = 'C25'
RULE = ('state = annotated invocation (every assignment of text / access kinds to its positions, or a real invocation with the '
        'real I/O information applied), transition = changing one position, or one query; every answer is compared with the '
        'definition, and the invocation must stay as it was')
BOUNDS = {
    'quick': 'files and descriptors: all assignments of 15 contents (text, 7 kinds as file, 7 kinds as a descriptor) to 0-3 operands '
             'x 8 option lists, and of 16 (flag too) to 0-2 flag/option positions x 6 operand lists; variables: all assignments of text / 7 kinds to 0-4 '
             'operands x 12 option lists and of flag / text / 7 kinds to 0-3 flag/option positions x 5 operand lists, as built and after '
             'substituting every stream; lists of 5..12 and 30 operands or options of one kind with another one at every position, 65..1100 with one at 3 positions; '
             '28 annotated commands: selections of <=1 flag/option x operand lists',
    'thorough': '0-4 operands (files), 0-5 (variables), 0-3 / 0-4 flag/option positions; selections of <=2'}
ASSUMPTIONS = ['text operands count as configuration, as the query is declared']
K = model.ACCESS
OPERANDS = {'get_operands_with_config_input': ('ARG', 'CONFIG_INPUT'), 'get_operands_with_stream_input': ('STREAM_INPUT',),
            'get_operands_with_other_input': ('OTHER_INPUT',), 'get_operands_with_stream_output': ('STREAM_OUTPUT',),
            'get_operands_with_other_output': ('OTHER_OUTPUT',)}
OPTIONS = {'get_options_with_other_output': ('OTHER_OUTPUT',)}
FILE_POS = ['ARG'] + K + ['std ' + k for k in K]
VAR_POS = ['ARG'] + K


def cases(tier):
    r = []
    for first in [None] + FILE_POS:
        r.append(['files', 'ops', first, tier])
    for first in [None, 'flag'] + FILE_POS:
        r.append(['files', 'opts', first, tier])
    for first in [None] + VAR_POS:
        r.append(['vars', 'ops', first, tier])
    for first in [None, 'flag'] + VAR_POS:
        r.append(['vars', 'opts', first, tier])
    r += [['files', 'many', x, tier] for x in FILE_POS] + [['vars', 'many', x, tier] for x in VAR_POS]
    r += [['inv'] + c for c in enumr.partitions(model.ANNOTATED_IO, 1 if tier == 'quick' else 2, tier)]
    return r


def ask(c, ops, opts, canon_op, canon_opt, whole, key, ctx, lib):
    """ops: [(kind, canonical form)], opts: [(kind, canonical form)] (options only)"""
    before = whole(c)
    for q, kinds in OPERANDS.items():
        exp = [f for k, f in ops if k in kinds]
        got = lib.safe(getattr(c, q))
        got = got if lib.raised(got) else [canon_op(x) for x in got]
        ctx.transitions += 1
        ctx.traces += 1
        ctx.expect(f'{key} {q}', 'the query does not list the operands with that access', exp, got)
    for q, kinds in OPTIONS.items():
        exp = [f for k, f in opts if k in kinds]
        got = lib.safe(getattr(c, q))
        got = got if lib.raised(got) else [canon_opt(x) for x in got]
        ctx.transitions += 1
        ctx.traces += 1
        ctx.expect(f'{key} {q}', 'the query does not list the options with that access', exp, got)
    ctx.outcome((len(ops), len(opts), tuple(len([1 for k, _ in ops if k in v]) for v in OPERANDS.values())))
    ctx.expect(key + ' after', 'asking changes the invocation', before, whole(c))


def canon_opt(lib):
    def f(o):
        a = o.get_arg()
        return ('O', o.get_name(), a if isinstance(a, int) else lib.canon_arg(a))
    return f


def content(p, n, lib):
    """a file/descriptor/text with that access -> (kind, object)"""
    if p == 'ARG':
        return 'ARG', lib.ArgStringType(n)
    if p.startswith('std '):
        k = p[4:]
        d = lib.StdDescriptorEnum
        return k, lib.StdDescriptorWithIOInfo(d.STDIN if k in model.INPUTS else d.STDOUT if k == 'STREAM_OUTPUT' else d.STDERR,
                                              lib.ACCESS_MAKERS[k]())
    return p, lib.FileNameWithIOInfo(n, lib.ACCESS_MAKERS[p]())


def build_files(opts, ops, imp, lib, same=1):
    fo, co, cp, opl = [], [], [], []
    for i, p in enumerate(opts):
        if p == 'flag':
            fo.append(lib.Flag(f'-f{i}'))
        else:
            k, x = content(p, f'a{i}', lib)
            o = f'-o{i * same}'
            fo.append(lib.OptionWithIO(o, x))
            co.append((k, ('O', o, lib.canon_arg(x))))
    for i, p in enumerate(ops):
        k, x = content(p, f'x{i}', lib)
        opl.append(x)
        cp.append((k, lib.canon_arg(x)))
    i, o = [content('std STREAM_INPUT', '', lib)[1], None][imp % 2], [content('std STREAM_OUTPUT', '', lib)[1], None][imp // 2]
    return lib.CommandInvocationWithIO('cmd', fo, opl, i, o), cp, co


def build_vars(opts, ops, imp, lib, same=1):
    fo, co, cp, opl, am, n = [], [], [], [], {}, [-1]

    def var(k):
        n[0] += 1
        am[n[0]] = lib.ACCESS_MAKERS[k]()
        return n[0]
    for i, p in enumerate(opts):
        if p == 'flag':
            fo.append(lib.Flag(f'-f{i}'))
        elif p == 'ARG':
            fo.append([lib.OptionWithIO, lib.OptionWithIOVar][i % 2](f'-o{i * same}', lib.ArgStringType('t')))
        else:
            v = var(p)
            fo.append(lib.OptionWithIOVar(f'-o{i * same}', v))
            co.append((p, ('O', f'-o{i * same}', v)))
    for i, p in enumerate(ops):
        if p == 'ARG':
            opl.append(lib.ArgStringType(f't{i}'))
            cp.append(('ARG', ('ARG', f't{i}')))
        else:
            v = var(p)
            opl.append(v)
            cp.append((p, v))
    i, o = [var('STREAM_INPUT'), None][imp % 2], [var('STREAM_OUTPUT'), None][imp // 2]
    return lib.CommandInvocationWithIOVars('cmd', fo, opl, i, o, am), cp, co


def subst(entries, cp, co, kind, fresh):
    """what substituting the streams of that kind gives: options first, then operands"""
    new = iter(fresh)
    co = [(k, (f[0], f[1], next(new)) if k == kind else f) for k, f in co]
    cp = [(k, next(new) if k == kind else f) for k, f in cp]
    return cp, co


def run_case(case, ctx):
    from mc import lib
    if case[0] == 'inv':
        _, cmd, k, first, tier = case
        for sel in enumr.selections_from(cmd, k, first):
            for ops in enumr.operand_lists(cmd, small=k > 1):
                words = [cmd] + sel + ops
                ref_inv = model.ref_parse(words)
                io = model.ref_io(ref_inv)
                if io is None:
                    continue
                inv = lib.parse(lib.line(words))
                info = lib.safe(lib.io_info, inv)
                if info is None or lib.raised(info):
                    ctx.violation('annotate ' + lib.line(words), 'no I/O information', 'information', info)
                    continue
                c = info.apply_input_output_info_to_command_invocation(inv)
                _, fo, opl, _, _ = lib.ref_withio(ref_inv, io)
                ctx.states += 1
                ask(c, [(x[0], x) for x in opl], [(e[2], ('O', e[1], (e[2], e[3]))) for e in fo if e[0] == 'O'], lib.canon_arg,
                    canon_opt(lib), lib.canon_withio, lib.line(words), ctx, lib)
        return
    what, part, first, tier = case
    deep = tier != 'quick'
    if what == 'files':
        n_ops, n_opts, pos = (4 if deep else 3), (3 if deep else 2), FILE_POS
        build, whole, cop = build_files, lib.canon_withio, lib.canon_arg
        few_ops = [(), ('OTHER_OUTPUT',), ('STREAM_INPUT', 'OTHER_OUTPUT'), ('ARG', 'std OTHER_OUTPUT'), ('std STREAM_INPUT',) * 2,
                   ('CONFIG_INPUT', 'ARG', 'STREAM_OUTPUT')]
        few_opts = [(), ('flag',), ('OTHER_OUTPUT',), ('flag', 'OTHER_OUTPUT', 'flag'), ('std OTHER_OUTPUT', 'STREAM_INPUT'),
                    ('ARG', 'CONFIG_INPUT'), ('STREAM_OUTPUT', 'OTHER_INPUT'), ('OTHER_OUTPUT',) * 2]
    else:
        n_ops, n_opts, pos = (5 if deep else 4), (4 if deep else 3), VAR_POS
        build, whole = build_vars, lib.canon_vars
        cop = lambda x: x if type(x) is int else lib.canon_arg(x)
        few_ops = [(), ('OTHER_OUTPUT',), ('STREAM_INPUT', 'OTHER_OUTPUT'), ('STREAM_INPUT',) * 2, ('ARG', 'CONFIG_INPUT', 'STREAM_OUTPUT')]
        few_opts = [(), ('flag',), ('ARG',), ('STREAM_INPUT', 'STREAM_OUTPUT'), ('OTHER_OUTPUT',)] + [(k,) for k in K]
    full, few = (n_ops, few_opts) if part == 'ops' else (n_opts, few_ops)
    p = pos if part == 'ops' else ['flag'] + pos
    lists = [()] if first is None else [(first,) + r for n in range(full) for r in itertools.product(p, repeat=n)]
    if part == 'many':
        # one kind at every position among many of another one
        lists = [tuple(y if k == j else first for k in range(n)) for n in (5, 6, 7, 8, 9, 10, 11, 12, 30, 65, 130, 300, 1100) for y in pos for j in (range(n) if n < 50 else (0, 64, n - 1))]
        few = [(), ('OTHER_OUTPUT',)]
    for a, part in [(a, p) for a in lists for p in ([part] if part != 'many' else ['ops', 'opts'])]:
        for same, (j, b) in itertools.product((1, 0), enumerate(few)):
            ops, opts = (a, b) if part == 'ops' else (b, a)
            if not same and len(opts) < 2:
                continue
            imp = (j + len(a)) % 4
            c, cp, co = build(opts, ops, imp, lib, same)
            ctx.states += 1
            key = f'{what} options={opts} operands={ops} implicit={imp}' + ('' if same else ' same option')
            ask(c, cp, co, cop, canon_opt(lib), whole, key, ctx, lib)
            if what == 'vars':
                entries = list(opts) + list(ops)
                for kind, sub in (('STREAM_INPUT', 'substitute_inputs_in_cmd_invocation'), ('STREAM_OUTPUT', 'substitute_outputs_in_cmd_invocation')):
                    n = entries.count(kind)
                    n_imp = (imp % 2 == 0) if kind == 'STREAM_INPUT' else (imp // 2 == 0)
                    fresh = [(100 if len(entries) < 50 else 5000) + (kind == 'STREAM_OUTPUT') * (50 if len(entries) < 50 else 5000) + i for i in range(n + n_imp)]
                    getattr(c, sub)(list(fresh))
                    cp, co = subst(entries, cp, co, kind, fresh[:n])
                ctx.states += 1
                ask(c, cp, co, cop, canon_opt(lib), whole, key + ' substituted', ctx, lib)
    ctx.sample([what, part, first])
