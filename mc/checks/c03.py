"""C03: roles of operands, stdin and stdout - real annotations against the role model, role model against real commands."""
import itertools
import os
from mc import enumr, model

ID = 'C03'
RULE = ('state = invocation (flag/option selection x operand list); transition = adding one flag/option or operand; every '
        'state is parsed, annotated and typed by the real code and compared with the role model; the role model itself is '
        'compared with runs of the installed commands in a scratch directory (operand files present / absent / changed, '
        'unread bytes of stdin, bytes on stdout, directory contents)')
BOUNDS = {
    'quick': '28 annotated commands: all selections of <=1 flag/option x 19+ operand lists (0..12 operands, dashes, empty '
             'words), all ordered selections of 2 x 8+ operand lists, every flag/option before, behind and amid runs of 4..66 others, every option with 66 odd arguments, lines of 65..2100 operands, flags or options; role model: single flags x 0..3 operands on real commands',
    'thorough': 'as quick with all operand lists for 2 and selections of 3 x 8+ operand lists; role model also for pairs'}
ASSUMPTIONS = ['--help/--version, interactive prompts (mv -i, rm -i/-I), tail -f and erroneous invocations are outside the '
               'comparison with real commands', 'awk is compared with mawk for -f, -F and -v only']


def cases(tier):
    r = list(enumr.partitions(model.ANNOTATED_IO, 2 if tier == 'quick' else 3, tier))
    r += [[c, 'long', 0, tier] for c in model.ANNOTATED_IO]
    from mc import realroles
    r += [['real', c] for c in realroles.plan(tier)]
    return r


def run_case(case, ctx):
    from mc import lib
    if case[0] == 'real':
        from mc import realroles
        realroles.run(case[1], ctx)
        return
    cmd, k, first, tier = case
    if k == 'long':
        opls, sels = enumr.operand_lists(cmd, small=True)[:6], itertools.chain(enumr.long_selections(cmd), enumr.huge_lines(cmd, enumr.TAILS.get(cmd, ())))
    else:
        opls, sels = enumr.operand_lists(cmd, small=k == 3 or (k == 2 and tier == 'quick')), enumr.selections_from(cmd, k, first)
    for sel in sels:
        ctx.states += 1
        for ops in opls if len(sel) < 60 or len(sel) == 300 else opls[:1]:
            words = [cmd] + sel + ops
            ctx.states += 1
            ctx.transitions += 1
            ctx.traces += 1
            ref_inv = model.ref_parse(words)
            ref = model.ref_io(ref_inv)
            text = lib.line(words)
            inv = lib.safe(lib.parse, text)
            got = inv if lib.raised(inv) else lib.observe_io(inv)
            exp = None if ref is None else lib.ref_withio(ref_inv, ref)
            if type(got) is tuple and not lib.raised(got):
                got = got[0]
            if got != exp:
                if type(got) is tuple and type(exp) is tuple and not lib.raised(got):
                    # only roles matter here: operands and implicit streams
                    g, e = (got[2:5]), (exp[2:5])
                    if g == e:
                        continue
                    ctx.violation('roles ' + text, 'wrong operand / stdin / stdout roles', e, g)
                else:
                    ctx.violation('roles ' + text, 'information missing or given wrongly', exp, got)
            ctx.outcome(exp and (exp[2], exp[3], exp[4]))
    ctx.sample(lib.line(words)) if opls and 'words' in dir() else None
