"""C05: has_other_outputs of I/O information and of invocations with I/O variables."""
import itertools
from mc import alpha, enumr, model

ID = 'C05'
RULE = ('(a) state = invocation (flag/option selection x operand list), transition = adding one flag/option or operand; the '
        'answer of the real code is compared with the role model.  (b) state = assignment of access kinds to the positions of '
        'an invocation with I/O variables, transition = changing the kind at one position')
BOUNDS = {
    'quick': '(a) 28 annotated commands: all selections of <=2 flags/options x 8..19+ operand lists; every spelling of every '
             'option; every flag/option amid runs of 4..66 others, every option with 66 odd arguments, lines of 65..2100 operands, flags or options; (b) all assignments of {absent, text, 7 access kinds} to (2 options x 2 operands, 1 option x 3 '
             'operands) x implicit in/out, with 3 flag layouts; 4..12, 40 and 65..2100 positions of one kind with another one at every position',
    'thorough': '(a) also selections of 3; (b) 2 options x 3 operands and 3 options x 2 operands'}
ASSUMPTIONS = ['the role model is compared with runs of the installed commands by C03/C04']
K = model.ACCESS


def cases(tier):
    r = [['inv'] + c for c in enumr.partitions(model.ANNOTATED_IO, 2 if tier == 'quick' else 3, tier)]
    r += [['inv', c, 'long', 0, tier] for c in model.ANNOTATED_IO]
    r += [['spell', c, tier] for c in model.ANNOTATED_IO]
    r += [['many', x, tier] for x in ['ARG'] + K]
    for i in [None] + K:
        for o in [None] + K:
            r.append(['vars', i, o, tier])
    return r


def check_inv(words, ctx, lib):
    ctx.states += 1
    ctx.traces += 1
    ref_inv = model.ref_parse(words)
    io = model.ref_io(ref_inv)
    text = lib.line(words)
    got = lib.safe(lambda: lib.io_info(lib.parse(text)))
    if got is not None and not lib.raised(got):
        ans = [lib.safe(got.has_other_outputs), lib.safe(got.has_other_outputs)]
    else:
        ans = got
    exp = None if io is None else [model.other_outputs(io)] * 2
    if io is None:
        # nothing is promised about refused invocations here (C06)
        ctx.count('refused')
        if got is not None and not lib.raised(got):
            ctx.violation('other outputs ' + text, 'information for a refused invocation', None, ans)
        return
    ctx.outcome(exp)
    ctx.count('with other outputs' if exp[0] else 'without')
    ctx.expect('other outputs ' + text, 'wrong answer about other outputs', exp, ans)


def run_case(case, ctx):
    from mc import lib
    if case[0] == 'inv':
        _, cmd, k, first, tier = case
        opls = enumr.operand_lists(cmd, small=k in (3, 'long') or (k == 2 and tier == 'quick'))
        if k in (3, 'long'):
            opls = opls[:5]
        for ws in enumr.huge_lines(cmd, enumr.TAILS.get(cmd, ())) if k == 'long' else ():
            check_inv([cmd] + ws, ctx, lib)
        for sel in enumr.long_selections(cmd) if k == 'long' else enumr.selections_from(cmd, k, first):
            ctx.transitions += 1
            for ops in opls:
                check_inv([cmd] + sel + ops, ctx, lib)
                ctx.transitions += 1
    elif case[0] == 'spell':
        cmd = case[1]
        fl = set(alpha.flags(cmd))
        for s in alpha.options(cmd):
            for v in ('v', '-', '1', '', '/dev/null', 'a/b'):
                for form in ([s, v], [s + '=' + v]):
                    if form == [s, v] and s in fl or len(form) == 1 and not s.startswith('--'):
                        continue
                    for pre in ([], *[[f] for f in sorted(fl)[:3]]):
                        for ops in ([], ['x'], ['x', 'y'], ['x', '-', 'z']):
                            check_inv([cmd] + pre + form + ops, ctx, lib)
                            check_inv([cmd] + form + pre + form + ops, ctx, lib)
                            ctx.transitions += 2
    elif case[0] == 'many':
        # one kind at every position among many of another one
        flags = [lib.Flag('-a'), lib.Flag('--bb')]
        for n in (4, 5, 6, 7, 8, 9, 10, 11, 12, 40, *enumr.HUGE):
            for y in ['ARG'] + K:
                for j in range(n) if n < 50 else (0, 9, n // 2, n - 2, n - 1):
                    l = tuple(y if k == j else case[1] for k in range(n))
                    for opts, ops, i, o in ((l, (), None, None), ((), l, None, 'STREAM_OUTPUT'), (('ARG',), l, 'STREAM_INPUT', None), (l, l, None, None)):
                        ctx.states += 1
                        ctx.transitions += 1
                        ctx.traces += 1
                        c = build(opts, ops, i, o, j % 3, flags, lib)
                        exp = 'OTHER_OUTPUT' in l
                        got = [lib.safe(c.has_other_outputs), lib.safe(c.has_other_outputs)]
                        ctx.expect(f'vars {n} of {case[1]} with {y} at {j} as options={bool(opts)} operands={bool(ops)}', 'wrong answer about other outputs',
                                   [exp, exp], got)
                        ctx.outcome((exp, len(opts), len(ops)))
    else:
        _, imp_in, imp_out, tier = case
        pos = [None, 'ARG'] + K
        flags = [lib.Flag('-a'), lib.Flag('--bb')]
        done = set()
        for n_opt, n_op in ((2, 2), (1, 3)) if tier == 'quick' else ((2, 3), (3, 2)):
            for opts, ops in itertools.product(itertools.product(pos, repeat=n_opt), itertools.product(pos, repeat=n_op)):
                opts = tuple(x for x in opts if x is not None)
                ops = tuple(x for x in ops if x is not None)
                if (opts, ops) in done:
                    continue
                done.add((opts, ops))
                ctx.states += 1
                ctx.transitions += 1
                ctx.traces += 1
                for layout in (0, 1, 2) if len(opts) + len(ops) <= 2 else (len(ops) % 3,):
                    c = build(opts, ops, imp_in, imp_out, layout, flags, lib)
                    before = lib.canon_vars(c)
                    exp = 'OTHER_OUTPUT' in opts + ops + (imp_in, imp_out)
                    got = [lib.safe(c.has_other_outputs), lib.safe(c.has_other_outputs)]
                    key = f'vars options={opts} operands={ops} in={imp_in} out={imp_out} layout={layout}'
                    ctx.expect(key, 'wrong answer about other outputs', [exp, exp], got)
                    ctx.expect(key + ' changed', 'asking changes the invocation', before, lib.canon_vars(c))
                ctx.outcome((exp, len(opts), len(ops)))


def build(opts, ops, imp_in, imp_out, layout, flags, lib):
    n = [10]
    am = {}

    def var(k):
        n[0] += 1
        am[n[0]] = lib.ACCESS_MAKERS[k]()
        return n[0]
    ol = [lib.OptionWithIO(f'-o{i}', lib.ArgStringType('t')) if k == 'ARG' else lib.OptionWithIOVar(f'-o{i}', var(k))
          for i, k in enumerate(opts)]
    fo = [flags + ol, ol + flags, flags[:1] + ol + flags[1:]][layout]
    opl = [lib.ArgStringType('t') if k == 'ARG' else var(k) for k in ops]
    return lib.CommandInvocationWithIOVars('cmd', fo, opl, imp_in and var(imp_in), imp_out and var(imp_out), am)
