"""C04: access kind of every option argument, in every position and multiplicity."""
import itertools
from mc import alpha, enumr, model

ID = 'C04'
RULE = ('state = sequence of options with argument values (and flags between them); transition = adding one option; every '
        'state is parsed, annotated and typed by the real code; every option argument is compared with the frozen access table')
BOUNDS = {
    'quick': 'all options of all annotated commands: every spelling/value form x 12 values x 5 contexts; all ordered pairs of '
             'options x 3 values; all ordered triples over the file options, 2 text options and 2 flags; 1..3 occurrences; every option before, behind and amid runs of 4..66 others, every option with 66 odd arguments, lines of 65..2100 operands, flags or options',
    'thorough': 'as quick with all ordered triples of options and sequences of 4 over the file options and one text option'}
ASSUMPTIONS = ['the access table (mc/tables.json) is the frozen, reviewed table']
VALS = ['name', '/abs/path', '12', '-', '', '--x', 'a b', './-', 'FILE', '-n', 'STREAM_INPUT', '-.txt']
BASE = {'comm': ['a', 'b'], 'tr': ['a', 'b'], 'set_diff': ['f'], 'mv': ['a', 'b'], 'sed': ['s/a/b/'], 'grep': ['pat', 'f'],
        'awk': ['{print}', 'f'], 'uniq': ['a'], 'seq': ['3'], 'xargs': ['echo']}


def cases(tier):
    r = []
    for cmd in model.ANNOTATED_IO:
        n = len(model.table(cmd)['option'])
        for i in range(n):
            r.append([cmd, 'single', i, tier])
            r.append([cmd, 'pairs', i, tier])
        r.append([cmd, 'long', 0, tier])
        if n:
            m = len(seqalpha(cmd, tier))
            for i in range(m):
                r.append([cmd, 'seq', i, tier])
    return r


def forms(cmd, g, v):
    fl = set(alpha.flags(cmd))
    r = [[s, v] for s in g[:-1] if s not in fl]
    return r + [[s + '=' + v] for s in g[:-1] if s.startswith('--')]


def seqalpha(cmd, tier):
    T = model.table(cmd)['option']
    m = model.maps(cmd)
    files = [g for g in T if m.kind[g[0]] != 'ARG']
    texts = [g for g in T if m.kind[g[0]] == 'ARG']
    a = [forms(cmd, g, v)[0] for g in files for v in ('f', '-')]
    a += [forms(cmd, g, 'f')[0] for g in (texts if tier == 'thorough' else texts[:2])]
    a += [[f] for f in alpha.flags(cmd)[:2]]
    return a


def check(words, ctx, lib):
    ctx.states += 1
    ctx.transitions += 1
    ctx.traces += 1
    inv = model.ref_parse(words)
    ref = model.ref_io(inv)
    text = lib.line(words)
    real = lib.safe(lib.parse, text)
    got = real if lib.raised(real) else lib.observe_io(real)
    if lib.raised(got) or (got is None) != (ref is None) or (got and lib.raised(got[0])):
        ctx.violation('options ' + text, 'no information about options', ref and ref['opts'], got)
        return
    if ref is None:
        ctx.count('refused')
        return
    exp = [e for e in lib.ref_withio(inv, ref)[1] if e[0] == 'O']
    g = [e for e in got[0][1] if e[0] != 'F']
    if g != exp:
        ctx.violation('options ' + text, 'wrong option arguments', exp, g)
    ctx.outcome(exp)


def run_case(case, ctx):
    from mc import lib
    cmd, fam, i, tier = case
    T = model.table(cmd)['option']
    base = BASE.get(cmd, ['x'])
    F = alpha.flags(cmd)[:2]
    if fam == 'single':
        for v in VALS:
            for f in forms(cmd, T[i], v):
                for pre, post in (([], base), ([], []), (F, base), (F[:1], F[1:] + base), ([], ['-'] + base)):
                    check([cmd] + pre + f + post, ctx, lib)
                for n in (2, 3):
                    check([cmd] + f * n + base, ctx, lib)
        ctx.sample(lib.line([cmd] + forms(cmd, T[i], 'name')[-1] + base))
    elif fam == 'pairs':
        for g in T:
            for v, w in itertools.product(['f', '-', '3'], repeat=2):
                a, b = forms(cmd, T[i], v)[0], forms(cmd, g, w)[-1]
                check([cmd] + a + b + base, ctx, lib)
                check([cmd] + a + F[:1] + b, ctx, lib)
    elif fam == 'long':
        for sel in enumr.long_selections(cmd):
            check([cmd] + sel + base, ctx, lib)
        for ws in enumr.huge_lines(cmd, base):
            check([cmd] + ws, ctx, lib)
    elif fam == 'seq':
        A = seqalpha(cmd, tier)
        lens = (2,) if tier == 'quick' else (2, 3) if len(A) <= 14 else (2,)
        for n in lens:
            for rest in itertools.product(A, repeat=n):
                check([cmd] + [w for e in (A[i],) + rest for w in e] + base, ctx, lib)
