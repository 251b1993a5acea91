"""C15: flag-list transformers."""
import itertools
from mc import inst

ID = 'C15'
RULE = ('state = (flag/option list, transformer chain); transition = one application; results, the given list, the transformer '
        'and earlier results are compared with list comprehensions over canonical entries')
BOUNDS = {
    'quick': 'all lists up to length 3 over 8 colliding entries (585) x 40 transformers; all chains of <= 2 of 20 transformers and '
             'of 3 of 9 on 73 lists; each applied twice and then to another list; lists of 5..40 '
             'entries with one entry among equal ones at every position, 130..1100 with one at 3; chains of 4..20, 65 and 130; 5..40 names (8 cuts of 130..1100)',
    'thorough': 'as quick with lists up to length 4 and chains of 3 of 20 transformers'}
ASSUMPTIONS = ['add lists contain no duplicates (the documentation calls them deduplicated)']

# symbolic entries
E = [('F', '-a'), ('F', '-b'), ('F', '--a'), ('O', '-a', 1), ('O', '-a', ('ARG', 'x')), ('O', '-a', 2), ('O', '-k', ('ARG', '1')),
     ('O', '-k', ('ARG', '2'))]
NAMESETS = [(), ('-a',), ('-b',), ('-k',), ('-a', '-k'), ('--a', '-b'), ('-ab',), ('-',), ('-a', '-a')]
ADDS = [(), (E[0],), (E[1],), (E[4],), (E[3],), (E[0], E[1]), (E[1], E[0]), (E[6], E[7]), (('F', '-m'),), (('F', '-m'), E[4], E[2])]
TR = [('seq',), ('empty',)] + [('filter', n) for n in NAMESETS] + [('remove', n) for n in NAMESETS] + \
    [('add', a) for a in ADDS] + [('custom', a) for a in ADDS]
SMALL = [('seq',), ('empty',), ('filter', ('-a',)), ('filter', ('-a', '-k')), ('remove', ('-a',)), ('remove', ('-b', '--a')),
         ('add', (E[0],)), ('add', (E[4], ('F', '-m'))), ('custom', (E[1], E[0]))]
MED = SMALL + [('filter', ()), ('remove', ()), ('remove', ('-k',)), ('add', ()), ('add', (E[1],)), ('add', (E[6], E[7])),
               ('custom', ()), ('custom', (E[6],)), ('filter', ('-k', '--a')), ('add', (E[5],)), ('remove', ('-a', '-b', '-k'))]


def lists(n):
    for d in range(n + 1):
        yield from itertools.product(E, repeat=d)


def build_entry(e, lib):
    if e[0] == 'F':
        return lib.Flag(e[1])
    a = e[2]
    return lib.OptionWithIOVar(e[1], a if isinstance(a, int) else lib.ArgStringType(a[1]))


def build(tr, lib):
    from pash_annotations.annotation_generation.datatypes.parallelizability import TransformerFlagOptionList as T
    k = tr[0]
    if k == 'seq':
        return T.make_transformer_same_as_seq()
    if k == 'empty':
        return T.make_transformer_empty()
    if k in ('filter', 'remove'):
        return {'filter': T.make_transformer_filter, 'remove': T.make_transformer_remove}[k](list(tr[1]))
    if k in ('add', 'custom'):
        return {'add': T.make_transformer_add, 'custom': T.make_transformer_custom}[k]([build_entry(e, lib) for e in tr[1]])
    return T.ChainTransformerFlagOptionList([build(t, lib) for t in tr[1]])


def cases(tier):
    n = 3 if tier == 'quick' else 4
    r = [['single', i, n] for i in range(len(TR))]
    r += [['chain2', i, 0] for i in range(len(MED))]
    r += [['chain3', i, 0 if tier == 'quick' else 1] for i in range(len(SMALL) if tier == 'quick' else len(MED))]
    r += [['misc', 0, 0]]
    r += [['long', i, 0] for i in range(len(TR))] + [['longchain', i, 0] for i in range(len(MED))]
    return r


def check(tr, l, ctx, lib, other=(E[1], E[4])):
    ctx.states += 1
    ctx.traces += 1
    t = build(tr, lib)
    key = f'{tr} on {list(l)}'
    given = [build_entry(e, lib) for e in l]
    ids = [id(x) for x in given]
    exp = lib.ref_transform(tr, l)
    r1 = t.get_flag_option_list_after_transformer_application(given)
    ctx.transitions += 1
    if not isinstance(r1, list):
        ctx.violation(key, 'the result is not a list', exp, repr(r1))
        return
    c1 = lib.canon_fo(r1)
    ctx.expect(key, 'wrong list', exp, c1)
    ctx.expect(key + ' given list', 'the given list was changed', list(l), lib.canon_fo(given))
    if [id(x) for x in given] != ids:
        ctx.violation(key + ' given list', 'the given list was changed')
    r2 = t.get_flag_option_list_after_transformer_application(given)
    ctx.transitions += 1
    ctx.expect(key + ' second time', 'the second application differs', exp, lib.canon_fo(r2))
    # on its own result, then on another list
    r3 = t.get_flag_option_list_after_transformer_application(r2)
    ctx.expect(key + ' on its result', 'wrong list', lib.ref_transform(tr, exp), lib.canon_fo(r3))
    o = [build_entry(e, lib) for e in other]
    r4 = t.get_flag_option_list_after_transformer_application(o)
    ctx.transitions += 2
    ctx.expect(key + ' then on another list', 'wrong list', lib.ref_transform(tr, other), lib.canon_fo(r4))
    for r, e, what in ((r1, exp, 'first'), (r2, exp, 'second'), (r3, lib.ref_transform(tr, exp), 'third')):
        ctx.expect(key + f' {what} result', 'a later application changed an earlier result', e, lib.canon_fo(r))
    ctx.expect(key + ' transformer', 'the transformer changed', True, t == build(tr, lib))
    ctx.outcome((tr[0], c1))


def run_case(case, ctx):
    from mc import lib
    fam, i, n = case
    if fam == 'single':
        for l in lists(n):
            check(TR[i], l, ctx, lib)
            if n == 3 or len(l) < 3:
                check(('chain', (TR[i],)), l, ctx, lib)
        ctx.sample([repr(TR[i]), repr(l)])
    elif fam == 'chain2':
        for t in MED:
            for l in lists(2):
                check(('chain', (MED[i], t)), l, ctx, lib)
    elif fam == 'chain3':
        S = MED if n else SMALL
        for t, u in itertools.product(S, S):
            for l in lists(2):
                check(('chain', (S[i], t, u)), l, ctx, lib)
    elif fam == 'long':
        # one kind of entry among many of another one, at every position
        for n in (5, 9, 10, 12, 17, 40, 130, 300, 1100):
            for x, y in itertools.permutations(range(len(E)), 2) if n < 100 else ((0, 6), (6, 1), (3, 0), (4, 5)):
                for pos in range(n) if n < 13 else (0, 1, 9, 10, 16, n // 2, n - 2, n - 1) if n < 100 else (0, 127, n - 1):
                    if pos < n:
                        check(TR[i], tuple(E[y] if k == pos else E[x] for k in range(n)), ctx, lib)
            for s in range(len(E)):
                for step in (1, 3, 5):
                    check(TR[i], tuple(E[(s + step * k) % len(E)] for k in range(n)), ctx, lib)
    elif fam == 'longchain':
        # chains of one transformer n times, and of it followed by others
        for n in (4, 5, 6, 7, 8, 10, 20, 65, 130):
            for l in ((), (E[0],), (E[6], E[0]), (E[3], E[1])):
                check(('chain', (MED[i],) * n), l, ctx, lib)
                for s in range(len(MED) if n < 30 else 3):
                    check(('chain', tuple(MED[(s + k) % len(MED)] for k in range(n - 1)) + (MED[i],)), l, ctx, lib)
                    check(('chain', (MED[i],) + tuple(MED[(s - 7 * k) % len(MED)] for k in range(n - 1))), l, ctx, lib)
        # many names, many added entries
        for n in (5, 12, 40, 130, 300, 1100):
            names = tuple(f'-o{k}' for k in range(n))
            ents = tuple(('F', x) if k % 2 else ('O', x, ('ARG', inst.TEXTS[k % len(inst.TEXTS)])) for k, x in enumerate(names))
            for k in (range(n) if n < 50 else (0, 31, 32, 63, 64, 127, n // 2, n - 1)) if i == 0 else ():
                for what in ('filter', 'remove'):
                    check((what, names[:k] + names[k + 1:]), ents, ctx, lib)
                    check((what, names[k:]), ents, ctx, lib)
                check(('add', ents[:k]), ents, ctx, lib)
                check(('add', ents), ents[k:], ctx, lib)
                check(('custom', ents), ents[k:k + 1], ctx, lib)
    else:
        for l in lists(2):
            check(('chain', ()), l, ctx, lib)
            for t in SMALL:
                check(('chain', (('chain', (t,)), ('chain', (('add', (('F', '-m'),)), ('remove', ('-a',)))))), l, ctx, lib)
        # the chain of sort: keep ordering flags and keys, add -m once
        keep = ('-n', '-r', '-k', '-t')
        pool = [('F', '-n'), ('F', '-r'), ('F', '-u'), ('F', '-m'), ('O', '-k', ('ARG', '1')), ('O', '-t', ('ARG', ',')), ('O', '-o', 3)]
        for d in range(5):
            for l in itertools.product(pool, repeat=d):
                check(('chain', (('filter', keep), ('add', (('F', '-m'),)))), l, ctx, lib)
