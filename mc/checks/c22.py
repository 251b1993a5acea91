"""C22: rendering of shell-AST words."""
import itertools

ID = 'C22'
RULE = ('state = list of AST characters; transition = appending (or nesting) one node; the real rendering is compared with a '
        'reference renderer; unknown kinds anywhere must be rejected')
BOUNDS = {
    'quick': 'all lists up to length 4 over 9 nodes (plain, escaped, quoted, nested quoted, variable, substitution, unknown); '
             'every character 0..255 plus 6 others as plain and as escaped, alone and in quotes; quotes nested up to depth 3 '
             'with all contents up to length 2; words of 5..100 nodes with another one at every position and of 257..5000 nodes with another one at 7 positions; the code points below 0x11000 in quotes',
    'thorough': 'as quick with lists up to length 6 and quotes nested up to depth 4, all code points'}
ASSUMPTIONS = ['the AST is the JSON form used by PaSh: [kind, value]; variable nodes are [type, null, name, arg]']


class Unknown(Exception):
    pass


def ref(chars):
    r = ''
    for k, v in chars:
        if k in ('C', 'E'):
            r += chr(v)
        elif k == 'Q':
            r += '"' + ref(v) + '"'
        elif k == 'V':
            r += '${' + v[2] + '}'
        elif k == 'B':
            r += '$(' + v + ')'
        else:
            raise Unknown()
    return r


def V(n):
    return ['V', ['Normal', False, n, []]]


LEAVES = [['C', 97], ['C', 34], ['C', 92], ['E', 36], ['E', 10], V('x'), V('HOME_2'), ['B', 'ls -l'], ['B', ''], ['C', 36], ['C', 123]]
UNKNOWN = [['T', 'None'], ['A', [['C', 49]]], ['c', 97], ['', 97], ['QQ', [['C', 97]]], [None, 1], ['Z', 0]]
NODES = LEAVES[:1] + LEAVES[1:2] + [['E', 42], ['Q', []], ['Q', [['C', 98], ['E', 34]]], V('x'), ['B', 'ls'], ['T', 'None'],
                                    ['Q', [['A', []]]]]


def cases(tier):
    n = 4 if tier == 'quick' else 6
    return [['seq', n, i] for i in range(len(NODES))] + [['chars', 0, 0]] + \
        [['nest', 3 if tier == 'quick' else 4, i] for i in range(len(LEAVES))] + [['long', 0, i] for i in range(len(LEAVES))] + \
        [['points', 0, i] for i in range(0x110 if tier == 'quick' else 0x1100)]


def check(word, ctx, lib):
    from pash_annotations.datatypes.BasicDatatypes import format_arg_chars
    ctx.states += 1
    ctx.traces += 1
    ctx.transitions += 1
    before = repr(word)
    try:
        exp = ref(word)
    except Unknown:
        exp = None
    got = lib.safe(format_arg_chars, word)
    if exp is None:
        if not lib.raised(got):
            ctx.violation('word ' + before, 'unknown character kind is not rejected', 'an exception', got)
        ctx.outcome('rejected')
    else:
        if got != exp:
            ctx.violation('word ' + before, 'wrong rendering', exp, got)
        ctx.outcome(exp)
    if repr(word) != before:
        ctx.violation('word ' + before, 'the word was changed', before, repr(word))


def run_case(case, ctx):
    from mc import lib
    fam, n, i = case
    if fam == 'seq':
        for d in range(n):
            for rest in itertools.product(NODES, repeat=d):
                check([NODES[i], *rest], ctx, lib)
        ctx.sample(repr([NODES[i], *rest]))
    elif fam == 'chars':
        check([], ctx, lib)
        for c in list(range(256)) + [0x3b1, 0x20ac, 0x2028, 0x1f600, 0x10ffff, 0x300]:
            for k in 'CE':
                check([[k, c]], ctx, lib)
                check([['C', 97], [k, c], ['C', 98]], ctx, lib)
                check([['Q', [[k, c]]]], ctx, lib)
                check([['Q', [['Q', [[k, c], V('v')]]]], [k, c]], ctx, lib)
        for u in UNKNOWN:
            check([u], ctx, lib)
            check([['C', 97], u], ctx, lib)
            check([u, ['C', 97]], ctx, lib)
            check([['Q', [u]]], ctx, lib)
            check([['Q', [['Q', [['C', 97], u]]]]], ctx, lib)
        for name in ('x', 'X1', '_', '1', '@', '#', '*', '?', 'long_name_with_42'):
            check([V(name)], ctx, lib)
            check([['Q', [V(name), ['C', 32], V('y')]]], ctx, lib)
        for body in ('ls', 'a | b', '$(x)', '"q"', '', '\n', 'echo "$x"'):
            check([['B', body]], ctx, lib)
            check([['Q', [['B', body]]]], ctx, lib)
    elif fam == 'long':
        # one node at every position among many equal ones; deep nesting; runs of an escape
        for n in (5, 8, 9, 10, 11, 17, 33, 100):
            for x in LEAVES:
                w = [[x] * k + [LEAVES[i]] + [x] * (n - 1 - k) for k in range(n)]
                for l in w:
                    check(l, ctx, lib)
                for l in w[:2] + w[-2:]:
                    check([['Q', l]], ctx, lib)
                    check([['Q', [x]], *l, ['Q', [x]]], ctx, lib)
            for u in UNKNOWN:
                for k in (0, n // 2, n - 1):
                    check([LEAVES[i]] * k + [u] + [LEAVES[i]] * (n - 1 - k), ctx, lib)
            w = [LEAVES[i]]
            for _ in range(n):
                w = [['Q', w]]
            check(w, ctx, lib)
            check(w + w, ctx, lib)
            check([V('v' * n), ['B', 'x' * n], LEAVES[i]], ctx, lib)
        # words of very many characters
        for n in (257, 513, 1025, 2049, 5000):
            for x in LEAVES:
                for k in (0, 1, 255, 256, n // 2, n - 2, n - 1):
                    l = [x] * k + [LEAVES[i]] + [x] * (n - 1 - k)
                    check(l, ctx, lib)
                    check([['Q', l]], ctx, lib)
            for u in UNKNOWN:
                for k in (0, n // 2, n - 1):
                    check([LEAVES[i]] * k + [u] + [LEAVES[i]] * (n - 1 - k), ctx, lib)
                    check([['Q', [LEAVES[i]] * k + [u]]], ctx, lib)
            check([V('v' * n), ['B', 'x' * n], LEAVES[i]], ctx, lib)
            check([['Q', [LEAVES[i]]]] * n, ctx, lib)
    elif fam == 'points':
        # all code points of this block of 256 (a sixteenth of them outside of quotes)
        for c in range(i * 256, i * 256 + 256):
            check([['Q', [['C', c], ['E', c]]]], ctx, lib)
            if c % 16 == 0:
                check([['C', c], ['E', c]], ctx, lib)
    else:
        def nested(d):
            yield from ([l] for l in (LEAVES[i], LEAVES[0], UNKNOWN[0]))
            if d > 0:
                for w in nested(d - 1):
                    yield [['Q', w]]
                    yield [['Q', w], LEAVES[i]]
                    yield [LEAVES[i], ['Q', w]]
                    yield [['Q', w + [['Q', w]]]]
        for w in nested(n):
            check(w, ctx, lib)
