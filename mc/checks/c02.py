"""C02: spelling classes - every member of a class must be parsed and annotated equally."""
import itertools
from mc import alpha, model

ID = 'C02'
RULE = ('state = one spelling of an invocation; transition = exchanging one spelling for an equivalent one; all members of '
        'a class are parsed and annotated by the real code and must agree with the first one')
BOUNDS = {
    'quick': 'all alias pairs / value forms of all flags and options of all tables in 7 contexts with 6 values; all '
             '2-letter clusters, all 3-letter clusters (every partition); all spelling products of 2 neighbouring groups; '
             '4 quoting styles',
    'thorough': 'as quick with all 3-letter clusters in 5 contexts, 4-letter clusters over up to 10 letters and spelling '
                'products of all pairs of groups in 3 contexts'}
ASSUMPTIONS = ['a long spelling that is both a flag and an option takes its value only after an equal sign',
               'equivalence of the aliases themselves is checked against the installed commands by C21']
CMDS = sorted(c for c in model.TABLES if not c.startswith('_'))
OPERANDS = {'comm': ['a', 'b'], 'tr': ['a-z', 'A'], 'set_diff': ['f'], 'mv': ['a', 'b'], 'sed': ['s/a/b/', 'f'],
            'grep': ['pat', 'f'], 'awk': ['{print}', 'f'], 'uniq': ['a'], 'seq': ['1', '3'], 'xargs': ['echo', 'y']}


def groups(cmd):
    """equivalence classes: list of lists of word lists (with VALUE placeholder None)"""
    t = model.table(cmd)
    fl = set(alpha.flags(cmd))
    r = []
    for g in t['flag']:
        r.append([[s] for s in g])
    for g in t['option']:
        forms = []
        for s in g[:-1]:
            if s not in fl:
                forms.append([s, None])
            if s.startswith('--'):
                forms.append([s + '=', None, True])
        r.append(forms)
    return r


def fill(form, v):
    if form[-1] is True:
        return [form[0] + v]
    return [v if w is None else w for w in form]


def contexts(cmd):
    F = [f for f in alpha.flags(cmd) if len(f) == 2][:2]
    O = [o for o in alpha.options(cmd) if len(o) == 2][:1]
    base = OPERANDS.get(cmd, ['x'])
    r = [([], base), ([], []), (F[:1], base), (F[1:2], ['-', 'y']), (O + ['3'] if O else [], base), ([], base + F[:1]),
         (F[:1] + (O + ['-'] if O else []), base + ['']), ]
    return r


def compare(a, b, ctx, lib, cache, what):
    """a, b: word lists"""
    ctx.transitions += 1
    la, lb = lib.line(a), lib.line(b)
    out = []
    for l in (la, lb):
        if l not in cache:
            ctx.states += 1
            ctx.traces += 1
            inv = lib.safe(lib.parse, l)
            cache[l] = (inv, inv if lib.raised(inv) else lib.observe(inv))
        out.append(cache[l])
    (i1, o1), (i2, o2) = out
    if o1 != o2:
        k = next(i for i in range(3) if lib.raised(o1) or lib.raised(o2) or o1[i] != o2[i])
        ctx.violation(f'{la}  <>  {lb}', f'{what}: spellings differ in ' + ('parse', 'I/O information', 'parallelizability')[k],
                      o1[k] if not lib.raised(o1) else o1, o2[k] if not lib.raised(o2) else o2)
    elif not lib.raised(i1) and not (i1 == i2):
        ctx.violation(f'{la}  ==  {lb}', f'{what}: parsed invocations are not equal', True, False)
    return o1


def cases(tier):
    r = []
    for cmd in CMDS:
        n = len(groups(cmd))
        for k in range(0, n, 4):
            r.append([cmd, 'alias', k, tier])
            r.append([cmd, 'pairs', k, tier])
        for l in range(len(alpha.letters(cmd))):
            r.append([cmd, 'cluster', l, tier])
        r.append([cmd, 'quoting', 0, tier])
    return r


def run_case(case, ctx):
    from mc import lib
    cmd, fam, k, tier = case
    cache = {}
    G = groups(cmd)
    if fam == 'alias':
        for g in G[k:k + 4]:
            isopt = any(None in f for f in g)
            for v in (['v', '-', '', '1', 'a=b', '-n'] if isopt else ['']):
                for pre, post in contexts(cmd):
                    forms = [fill(f, v) for f in g]
                    for f in forms[1:]:
                        o = compare([cmd] + pre + forms[0] + post, [cmd] + pre + f + post, ctx, lib, cache, 'alias')
                        ctx.outcome(o)
        if G:
            ctx.sample(lib.line([cmd] + fill(G[k][-1], 'v') + OPERANDS.get(cmd, ['x'])))
    elif fam == 'pairs':
        for i in range(k, min(k + 4, len(G))):
            partners = [(i + 1) % len(G), (i + 5) % len(G)] if tier == 'quick' else range(len(G))
            for j in partners:
                for post in ([OPERANDS.get(cmd, ['x'])] if tier == 'quick' else [OPERANDS.get(cmd, ['x']), [], ['-']]):
                    fi, fj = [fill(f, '1') for f in G[i]], [fill(f, 'w') for f in G[j]]
                    if not fi or not fj:
                        continue
                    ref = [cmd] + fi[0] + fj[0] + post
                    for a, b in itertools.product(fi, fj):
                        if (a, b) != (fi[0], fj[0]):
                            compare(ref, [cmd] + a + b + post, ctx, lib, cache, 'pair of aliases')
    elif fam == 'cluster':
        L = alpha.letters(cmd)
        listed = set(alpha.flags(cmd) + alpha.options(cmd))      # e.g. -vE is listed as a spelling of cat -e
        a = L[k]
        ctxs = contexts(cmd)[:1] if tier == 'quick' else contexts(cmd)[:5]
        for b in L:
            for pre, post in contexts(cmd):
                if '-' + a + b in listed:
                    continue
                ref = [cmd] + pre + ['-' + a, '-' + b] + post
                compare(ref, [cmd] + pre + ['-' + a + b] + post, ctx, lib, cache, 'cluster')
            for c in L:
                for pre, post in ctxs:
                    ref = [cmd] + pre + ['-' + a, '-' + b, '-' + c] + post
                    for alt in (['-' + a + b + c],) if tier == 'quick' and len(L) > 12 else \
                            (['-' + a + b + c], ['-' + a + b, '-' + c], ['-' + a, '-' + b + c]):
                        if listed & {w for w in alt if len(w) > 2}:
                            continue
                        compare(ref, [cmd] + pre + alt + post, ctx, lib, cache, 'cluster')
                cache.clear()
            ctx.outcome(lib.observe(lib.parse(lib.line(ref))))
        if tier == 'thorough' and len(L) <= 10:
            pre, post = contexts(cmd)[0]
            for b, c, d in itertools.product(L, repeat=3):
                compare([cmd] + ['-' + x for x in (a, b, c, d)] + post, [cmd, '-' + a + b + c + d] + post, ctx, lib, cache, 'cluster')
                cache.clear()
    elif fam == 'quoting':
        base = OPERANDS.get(cmd, ['x'])
        for g in G:
            for f in g:
                for v in ('v', 'a b', '', '-', "it's", 'k="1"', '$x', '\\n'):
                    ws = [cmd] + fill(f, v) + base + [v]
                    ref = lib.observe(lib.parse(lib.line(ws)))
                    ctx.states += 1
                    for q in (lib.q_single, lib.q_double, lib.q_backslash, lib.q_mixed):
                        text = ' '.join(q(w) for w in ws)
                        ctx.transitions += 1
                        ctx.traces += 1
                        got = lib.safe(lambda t: lib.observe(lib.parse(t)), text)
                        if got != ref:
                            ctx.violation(f'{lib.line(ws)}  <>  {text}', 'quoting: spellings differ', ref, got)
