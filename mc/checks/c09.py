"""C09: declared parallelization strategies against the reference rule set."""
import itertools
from mc import enumr, model

ID = 'C09'
RULE = ('state = invocation (flag/option selection x script/set/operand menu); transition = adding one flag/option; declared '
        'and inferred strategies of the real code are compared with the reference rule set; transformers are compared by '
        'their behaviour on probe lists')
BOUNDS = {
    'quick': '15 annotated commands (and 20 without annotation): all selections of <=2 flags/options (ordered, with values) x '
             'all operand menus (tr: 24 x 7 sets; all sets of <=2 of 42 and of 3 of 21 parts with -d, -s, -cd; sed: 15 scripts), all selections of 3 x 3 operand lists and in every order, every option with 66 odd arguments, lines of 65..2100 operands, flags or options, every flag/option amid runs of 4..66 others',
    'thorough': 'as quick with selections of 3 x 8 operand lists and selections of 4 for all commands but grep'}
ASSUMPTIONS = ['the rule set is cross-checked against real commands by C08']
OPS3 = {'tr': [['a-z', 'A-Z'], ['\\n', ' '], ['a', '\\n'], ['[:space:]']], 'sed': [['s/a/b/'], ['/a/d'], ['p', 'f'], []],
        'set_diff': [['f']]}


def cases(tier):
    r = list(enumr.partitions(model.ANNOTATED_PARA, 3, tier))
    r += [c for c in enumr.partitions([c for c in model.ALL_COMMANDS if c not in model.ANNOTATED_PARA], 1, tier)]
    r += [['tr', 'sets', t, tier] for t in enumr.TR_TOKENS]
    r += [[cmd, 'long', 0, tier] for cmd in model.ANNOTATED_PARA]
    if tier == 'thorough':
        for cmd in model.ANNOTATED_PARA:
            if cmd != 'grep':
                r += [[cmd, 4, i, tier] for i in range(enumr.n_groups(cmd))]
    return r


def check(words, ctx, lib):
    ctx.states += 1
    ctx.traces += 1
    ref_inv = model.ref_parse(words)
    ref = model.ref_para(ref_inv)
    text = lib.line(words)
    inv = lib.safe(lib.parse, text)
    got = inv if lib.raised(inv) else lib.observe_para(inv)
    if ref is None:
        exp = None
    else:
        comm, P = ref
        exp = ([lib.ref_parallelizer(p) for p in P], [lib.ref_parallelizer(p) for p in model.ref_inferred(comm, P)], False, comm)
    if got != exp:
        ctx.violation('strategies ' + text, 'wrong strategies', short(exp), short(got))
    ctx.outcome(ref)


def short(x):
    """without the (long) probe results"""
    if x is None or len(x) != 4 or x[0] == 'raises':
        return x
    return [[(p[0], p[1][0], p[1][1], p[1][3], p[2][:3], p[3], p[4]) if p[2][2:3] != ('string',) else (p[0], p[1][0], p[1][1], p[1][3], p[2], p[3], p[4])
             for p in l] for l in x[:2]] + list(x[2:])


def run_case(case, ctx):
    from mc import lib
    cmd, k, first, tier = case
    if k == 'sets':
        return sets(first, tier, ctx, lib)
    if k == 'long':
        ops_lists = [['x'], [], ['\\n', 'y'], ['/a/d', 'f']]
    elif k >= 3:
        ops_lists = OPS3.get(cmd, [['x'], [], ['-', 'y']])
        if tier == 'thorough' and k == 3 and cmd not in OPS3:
            ops_lists = enumr.operand_lists(cmd, small=True)
    elif k == 2 and tier == 'quick' and cmd != 'tr':
        ops_lists = enumr.operand_lists(cmd, small=True) if cmd != 'grep' else [['x'], ['x', 'f'], [], ['-']]
    else:
        ops_lists = enumr.operand_lists(cmd)
    words = [cmd]
    for ws in enumr.huge_lines(cmd, enumr.TAILS.get(cmd, ())) if k == 'long' else ():
        check([cmd] + ws, ctx, lib)
    for sel in enumr.long_selections(cmd) if k == 'long' else enumr.selections_from(cmd, k, first):
        ctx.transitions += 1
        for ops in ops_lists:
            words = [cmd] + sel + ops
            check(words, ctx, lib)
        if k == 3:
            for order in orders(sel, cmd):
                check([cmd] + order + ops_lists[0], ctx, lib)
    ctx.sample(lib.line(words))


def orders(sel, cmd):
    """the other orders of three flags or options"""
    m = model.maps(cmd)
    parts, i = [], 0
    while i < len(sel):
        n = 2 if sel[i] in m.opt and sel[i] not in m.flag else 1
        parts.append(sel[i:i + n])
        i += n
    for o in list(itertools.permutations(parts))[1:]:
        yield [w for p in o for w in p]


def sets(first, tier, ctx, lib):
    """sets of tr composed of few parts; what they contain is asked of the installed tr"""
    from mc import runner
    for s in enumr.tr_sets(first, 3, 21 if tier == 'quick' else 42):
        if len(s) > 1 and s[0] == '-':
            continue
        ctx.transitions += 1
        for fl in (['-d'], ['-c', '-d'], ['-s']):
            check(['tr'] + fl + [s], ctx, lib)
        check(['tr', '-s', 'a', s], ctx, lib)
        if s in quick_sets(first):
            rc, out, err = runner.run(['tr', '-d', '--', s], b'\n')
            if rc == 0:
                ctx.count('sets asked of the installed tr')
                ctx.expect('tr set ' + repr(s), 'the reference misjudges whether the set contains a newline', out == b'', model.tr_set_has_newline(s))
    ctx.sample(['tr', '-d', s])


def quick_sets(first, memo={}):
    if first not in memo:
        memo.clear()
        memo[first] = set(enumr.tr_sets(first, 2))
    return memo[first]
