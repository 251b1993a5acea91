"""C07: applying I/O information preserves the invocation, twice."""
import itertools
from mc import alpha, enumr, model

ID = 'C07'
RULE = ('state = parsed invocation with its I/O information; transitions = appending a word, applying the information; the '
        'typed invocation is read back word by word and compared with the parsed one; the invocation and the information '
        'are compared before and after, and a second application with the first')
BOUNDS = {
    'quick': '28 annotated commands: all words at depth 1 x 4 operand tails, depth 2 medium x 24 words, depth 3 over 15 words, '
             'depth 4 over 9 words, all rotations of a line with every spelling, operands and option arguments of 66 looks, lines of 65..2100 operands, flags or options',
    'thorough': 'as quick with depth 2 medium x medium, depth 3 over 26 words, depth 4 over 13 words, depth 5 over 8'}
ASSUMPTIONS = []
TAILS = {'sed': ['s/a/b/'], 'comm': ['b'], 'grep': ['pat'], 'awk': ['{print}']}


def cases(tier):
    r = []
    for cmd in model.ANNOTATED_IO:
        r.append([cmd, 'depth1', 0, tier])
        n = len(alpha.medium(cmd))
        for k in range(0, n, 30):
            r.append([cmd, 'depth2', k, tier])
        for n, d in ([(15, 3), (9, 4)] if tier == 'quick' else [(26, 3), (13, 4), (8, 5)]):
            for k in range(len(alpha.small(cmd, n))):
                r.append([cmd, 'trie', [n, d, k], tier])
        r.append([cmd, 'long', 0, tier])
    return r


def read_back(c):
    """texts of a typed invocation; a standard stream reads back as a dash"""
    def t(x):
        return '-' if x in ('<stdin>', '<stdout>') else x
    return c[0], [e if e[0] == 'F' else ('O', e[1], t(e[3])) for e in c[1]], [t(o[1]) for o in c[2]]


def check(words, ctx, lib):
    ctx.states += 1
    text = lib.line(words)
    inv = lib.safe(lib.parse, text)
    if lib.raised(inv):
        ctx.count('parse_raises')
        return
    before = lib.canon_inv(inv)
    io = lib.safe(lib.io_info, inv)
    if lib.raised(io):
        ctx.violation('raises ' + text, 'query raises', None, io)
        return
    if lib.canon_inv(inv) != before:
        ctx.violation('changed ' + text, 'the query changes the invocation', before, lib.canon_inv(inv))
    if io is None:
        ctx.count('refused')
        return
    iorepr = repr(io)
    res = []
    for k in range(2):
        ctx.transitions += 1
        ctx.traces += 1
        w = lib.safe(io.apply_input_output_info_to_command_invocation, inv)
        if lib.raised(w):
            ctx.violation('raises ' + text, 'application raises', None, w)
            return
        res.append(w)
    canon = lib.canon_withio(res[0])
    got = read_back(canon)
    if got != (before[0], before[1], before[2]):
        ctx.violation('preserve ' + text, 'the typed invocation differs from the parsed one', before, got)
    for what, text_ in (('file roles', [o for o in canon[2]]),):
        for kind, s in text_:
            if kind == 'ARG' and s in ('<stdin>', '<stdout>') or kind in model.INPUTS and s == '<stdout>' \
                    or kind in model.OUTPUTS and s == '<stdin>':
                ctx.violation('stream ' + text, 'wrong standard stream', None, canon[2])
    if lib.canon_withio(res[1]) != canon or not (res[0] == res[1]):
        ctx.violation('again ' + text, 'second application differs', canon, lib.canon_withio(res[1]))
    if lib.canon_inv(inv) != before:
        ctx.violation('changed ' + text, 'the application changes the invocation', before, lib.canon_inv(inv))
    if repr(io) != iorepr:
        ctx.violation('info ' + text, 'the application changes the information', iorepr, repr(io))
    # results are independent of each other
    res[0].flag_option_list.append('probe')
    res[0].operand_list.append('probe')
    if lib.canon_withio(res[1]) != canon or lib.canon_inv(inv) != before or repr(io) != iorepr:
        ctx.violation('shared ' + text, 'editing one result changes another one or the invocation', canon, lib.canon_withio(res[1]))
    ctx.outcome(canon)


def run_case(case, ctx):
    from mc import lib
    cmd, fam, arg, tier = case
    tail = TAILS.get(cmd, [])
    if fam == 'depth1':
        for post in ([], ['x'] + tail, ['-', 'y'], ['a', '-', '', 'd', 'e']):
            check([cmd] + post, ctx, lib)
            for w in alpha.full(cmd):
                check([cmd, w] + post, ctx, lib)
    elif fam == 'depth2':
        M = alpha.medium(cmd)
        S = alpha.small(cmd, 24) if tier == 'quick' else M
        for a in M[arg:arg + 30]:
            for b in S:
                check([cmd, a, b] + tail, ctx, lib)
    elif fam == 'trie':
        n, d, k = arg
        A = alpha.small(cmd, n)
        for rest in itertools.product(A, repeat=d - 1):
            check([cmd, A[k], *rest] + tail, ctx, lib)
        ctx.sample(lib.line([cmd, A[k], *rest] + tail))
    elif fam == 'long':
        for ws in alpha.long_lines(cmd):
            check([cmd] + ws, ctx, lib)
        for n in (5, 6, 20):
            check([cmd] + ['f%d' % i if i % 3 else '-' for i in range(n)], ctx, lib)
        for ops in enumr.operand_lists(cmd):
            check([cmd] + ops, ctx, lib)
            check([cmd] + alpha.flags(cmd)[:1] + ops, ctx, lib)
        for sel in enumr.odd_values(cmd):
            check([cmd] + sel + tail, ctx, lib)
        for ws in enumr.huge_lines(cmd, tail):
            check([cmd] + ws, ctx, lib)
