"""C17: equality of annotation objects - all ordered pairs of a catalogue with single-part variations."""
import copy, itertools

ID = 'C17'
RULE = ('state = ordered pair (object of the catalogue, object or foreign value); transition = one comparison (== and !=, both '
        'on originals and on deep copies); the answer must be the equality of class and parts')
BOUNDS = {
    'quick': 'all ordered pairs of a catalogue of 2029 objects: 27 classes, every variation of up to two parts of a base object '
             'each, lists of 6, 12 and 33 entries and texts of 20 and 300 characters with one other at every position, prefixes, parts that look alike when printed; pairs of lists of 50..1100 entries which differ in one place or in order; 40 foreign values; deep and shallow copies',
    'thorough': 'as quick with up to three parts varied (3845 objects)'}
ASSUMPTIONS = ['classes that define equality only; parts are compared in the order in which lists give them']
TEXT = ['', 'x', 'y', '-', '1']
K = ['CONFIG_INPUT', 'STREAM_INPUT', 'CONTAINER_FOR_INPUT', 'EXCLUDES_FROM_INPUT', 'OTHER_INPUT', 'STREAM_OUTPUT', 'OTHER_OUTPUT']


# objects are described by nested tuples ('Class', part, ...): equality of objects = equality of descriptions
def access(k):
    return ('Access', k)


def arg(t):
    return ('ArgString', t)


def vary(base, domains, n):
    """base with up to n parts replaced by other values of their domain"""
    out = [base]
    for d in range(1, n + 1):
        for idx in itertools.combinations(range(len(base)), d):
            for vals in itertools.product(*[[v for v in domains[i] if v != base[i]] for i in idx]):
                b = list(base)
                for i, v in zip(idx, vals):
                    b[i] = v
                out.append(tuple(b))
    return out


def catalogue(n):
    C = []

    def add(cls, base, domains, k=n):
        for parts in vary(base, domains, k):
            C.append((cls,) + parts)
    for cls in ('Flag', 'Operand', 'File', 'ArgString'):
        add(cls, ('x',), [TEXT])
    add('Std', ('STDIN',), [['STDIN', 'STDOUT', 'STDERR']])
    add('Access', ('STREAM_INPUT',), [K])
    add('Option', ('-x', 'x'), [['-x', '-y', 'x', ''], TEXT])
    add('FileIO', ('x', access('STREAM_INPUT')), [TEXT, [access(k) for k in K]])
    add('StdIO', ('STDIN', access('STREAM_INPUT')), [['STDIN', 'STDOUT', 'STDERR'], [access(k) for k in K]])
    args = [arg('x'), arg('y'), ('FileIO', 'x', access('STREAM_INPUT')), ('FileIO', 'x', access('CONFIG_INPUT')),
            ('FileIO', 'y', access('STREAM_INPUT')), ('StdIO', 'STDIN', access('STREAM_INPUT'))]
    add('OptionIO', ('-x', args[0]), [['-x', '-y'], args])
    add('OptionVar', ('-x', 1), [['-x', '-y', 'x'], [1, 2, 0, arg('x'), arg('y'), arg('1')]])
    F, G, O, P = ('Flag', '-a'), ('Flag', '-b'), ('Option', '-a', 'x'), ('Option', '-a', 'y')
    lists = [(), (F,), (G,), (F, G), (G, F), (F, F), (O,), (P,), (F, O), (O, F)]
    ops = [(), (('Operand', 'x'),), (('Operand', 'y'),), (('Operand', 'x'), ('Operand', 'y')), (('Operand', 'y'), ('Operand', 'x')),
           (('Operand', 'x'), ('Operand', 'x'))]
    for base in (('cmd', (F, O), ops[3]), ('cmd', (), ())):
        add('Initial', base, [['cmd', 'cmd2', ''], lists, ops])
    add('Prefix', ('cmd', (F, O), ()), [['cmd', 'cmd2', ''], lists, [(), (arg('x'),), (arg('y'),), (arg('x'), arg('y'))]])
    lio = [(), (F,), (G,), (F, G), (('OptionIO', '-a', args[0]),), (('OptionIO', '-a', args[2]),), (('OptionIO', '-a', args[3]),), (F, ('OptionIO', '-b', args[1]))]
    opio = [(), (args[0],), (args[1],), (args[2],), (args[3],), (args[4],), (args[5],), (args[0], args[2]), (args[2], args[0])]
    ii = [None, ('StdIO', 'STDIN', access('STREAM_INPUT')), ('FileIO', 'x', access('STREAM_INPUT'))]
    oo = [None, ('StdIO', 'STDOUT', access('STREAM_OUTPUT')), ('StdIO', 'STDERR', access('STREAM_OUTPUT'))]
    add('WithIO', ('cmd', lio[4], opio[7], ii[1], oo[1]), [['cmd', 'cmd2'], lio, opio, ii, oo])
    lv = [(), (F,), (G,), (F, G), (('OptionVar', '-a', 1),), (('OptionVar', '-a', 2),), (F, ('OptionVar', '-a', 1)), (('OptionVar', '-b', 1),)]
    opv = [(), (1,), (2,), (1, 2), (2, 1), (arg('x'),), (1, arg('x')), (arg('x'), 1)]
    am = [(), ((1, access('STREAM_INPUT')),), ((1, access('STREAM_INPUT')), (2, access('STREAM_OUTPUT'))),
          ((1, access('STREAM_OUTPUT')), (2, access('STREAM_INPUT'))), ((1, access('STREAM_INPUT')), (2, access('OTHER_OUTPUT'))),
          ((1, access('STREAM_INPUT')), (3, access('STREAM_OUTPUT')))]
    vbase = ('cmd', lv[4], opv[3], None, 2, am[2])
    vdom = [['cmd', 'cmd2'], lv, opv, [None, 1, 3], [None, 2, 3], am]
    add('Vars', vbase, vdom)
    add('Mapper', vbase, vdom, min(n, 1))
    agk = ['CONCATENATE', 'ADJ_LINES_MERGE', 'ADJ_LINES_SEQ', 'ADJ_LINES_FUNC', 'CUSTOM_2_ARY', 'CUSTOM_N_ARY']
    add('Aggregator', ('CONCATENATE',) + vbase, [agk] + vdom, min(n, 1))
    C.append(('TrSeq',))
    C.append(('TrEmpty',))
    trs = [('TrSeq',), ('TrEmpty',)]
    for t in ('TrFilter', 'TrRemove'):
        for l in ((), ('-a',), ('-b',), ('-a', '-b'), ('-b', '-a')):
            C.append((t, l))
        trs.append((t, ('-a',)))
    for t in ('TrAdd', 'TrCustom'):
        for l in ((), (F,), (G,), (F, G), (G, F), (('OptionVar', '-a', 1),), (('OptionVar', '-a', 2),)):
            C.append((t, l))
        trs.append((t, (F,)))
    for l in ((), (trs[0],), (trs[1],), (trs[2], trs[4]), (trs[4], trs[2]), (trs[2], trs[5])):
        C.append(('TrChain', l))
    C.append(('MapperSpec', 'SAME_AS_SEQ', None, ('TrSeq',), False))
    C.append(('MapperSpec', 'SAME_AS_SEQ', None, ('TrSeq',), True))
    add('MapperSpec', ('CUSTOM', 'm', trs[1], True), [['CUSTOM'], ['m', 'n', None], trs, [True, False]])
    add('AggNonFunc', ('CONCATENATE', True), [agk[:3], [True, False]])
    add('AggTr', ('CUSTOM_2_ARY', trs[0], True), [agk[3:], trs, [True, False]])
    add('AggStr', ('CUSTOM_2_ARY', 'agg', True), [agk[3:], ['agg', 'agg -x', ''], [True, False]])
    spl = ['INDIV_FILES', 'ROUND_ROBIN_PLAIN', 'ROUND_ROBIN_UNWRAP_FLAG', 'CONSEC_CHUNKS']
    add('Splitter', ('CONSEC_CHUNKS',), [spl])
    ms = [('MapperSpec', 'SAME_AS_SEQ', None, ('TrSeq',), True), ('MapperSpec', 'SAME_AS_SEQ', None, ('TrSeq',), False),
          ('MapperSpec', 'CUSTOM', 'm', trs[1], True), ('MapperSpec', 'CUSTOM', 'm', trs[2], True)]
    ags = [('AggNonFunc', 'CONCATENATE', True), ('AggNonFunc', 'ADJ_LINES_SEQ', False), ('AggStr', 'CUSTOM_2_ARY', 'agg', True),
           ('AggStr', 'CUSTOM_2_ARY', 'agh', True), ('AggTr', 'CUSTOM_2_ARY', trs[0], True), ('AggTr', 'CUSTOM_2_ARY', trs[1], True)]
    add('Parallelizer', (('Splitter', 'CONSEC_CHUNKS'), ms[0], ags[0], 'NO_ADD_INPUT', 0),
        [[('Splitter', s) for s in spl], ms, ags, ['NO_ADD_INPUT', 'LINE_NUM_OFFSET', 'BYTE_OFFSET', 'LINE_NUM_AND_BYTE_OFFSET'], [0, 1, 2]])
    # long lists and texts that differ in one place, and prefixes of each other
    def near(xs, other):
        return [xs] + [xs[:k] + (other,) + xs[k + 1:] for k in range(len(xs))] + [xs[:-1], xs + (other,), xs[::-1], xs[1:] + xs[:1]]
    # parts that look alike when printed or joined: of another kind, or cut elsewhere
    look = [('Flag', '-a x'), ('Option', '-a', 'x'), ('Option', '-a x', ''), ('Option', '-a', ' x'), ('Flag', '-a  x'), ('Flag', '-a'), ('Option', '-a', ''), ('Flag', '')]
    C.extend([(cls, 'cmd', pre + (x,), ()) for cls in ('Initial', 'Prefix') for x in look for pre in ((), (F,))])
    C.extend([('Initial', 'cmd', (), tuple(('Operand', t) for t in ts)) for ts in (
        ('x y',), ('',), ('-a',), ('', 'x'), ('x', ''), ("x', 'y",), ('x, y',), ('-a', 'x'), ('-a x',))])
    for m in (6, 12, 33):
        fl = tuple(F if k % 3 else ('Option', '-o%d' % k, 'v') for k in range(m))
        op = tuple(('Operand', 'f%d' % k) for k in range(m))
        C.extend([('Initial', 'cmd', l, op[:2]) for l in near(fl, G)] + [('Initial', 'cmd', fl[:2], l) for l in near(op, ('Operand', 'x'))])
        vs = tuple(range(10, 10 + m))
        acc = tuple((v, access('STREAM_INPUT')) for v in vs)
        C.extend([('Vars', 'cmd', (), l, None, None, acc) for l in near(vs, 99)])
        C.extend([('Vars', 'cmd', (), vs, None, None, l) for l in near(acc, (99, access('CONFIG_INPUT')))[:m + 3]])
        C.extend([('Vars', 'cmd', (), vs, None, None, acc[:k] + ((vs[k], access('OTHER_INPUT')),) + acc[k + 1:]) for k in range(m)])
        io = tuple(('FileIO', 'f%d' % k, access('STREAM_INPUT')) for k in range(m))
        C.extend([('WithIO', 'cmd', (), l, None, None) for l in near(io, ('FileIO', 'f0', access('OTHER_INPUT')))])
        C.extend([('TrChain', l) for l in near((trs[2], trs[4]) * (m // 2), trs[3])])
        C.extend([(t, l) for t in ('TrFilter', 'TrRemove') for l in near(tuple('-o%d' % k for k in range(m)), '-x')])
    for m in (20, 300):
        for t in near(tuple('x' * m), 'y')[::1 if m < 100 else 17]:
            C.extend([(cls, ''.join(t)) for cls in ('Flag', 'Operand', 'File', 'ArgString')] + [('Option', '-x', ''.join(t)), ('Option', ''.join(t), 'x')])
    for t in ('X', ' x', 'x ', 'x\n', '\t', 'é', 'e\u0301', '0', '01', '1.0', 'None', 'True', 'a=b', '--x', '-X', '/x', './x', 'x/', 'x//', '*', '$x', '~', '/dev/stdin'):
        C.extend([(cls, t) for cls in ('Flag', 'Operand', 'File', 'ArgString')] + [('Option', '-x', t), ('Option', t, 'x')])
    for v in (-1, 10, 100, 255, 256, 257, 1000, 2 ** 31, 2 ** 63, 2 ** 64, -2 ** 64):
        C.extend([('OptionVar', '-x', v), ('Vars', 'cmd', (), (v,), None, None, ((v, access('STREAM_INPUT')),)), ('Vars', 'cmd', (), (1,), v, None, am[1]),
                  ('Vars', 'cmd', (), (1,), None, v, am[1])])
    seen, res = set(), []
    for c in C:
        if c not in seen and not (c[0] == 'Parallelizer' and c[1][1] == 'ROUND_ROBIN_PLAIN' and c[3][1].startswith('CUSTOM')):
            seen.add(c)
            res.append(c)
    return res


def builders(late=False):
    """late: access maps are filled in the other order"""
    from mc import lib
    from pash_annotations.datatypes import BasicDatatypes as B, BasicDatatypesWithIO as W, BasicDatatypesWithIOVar as V, AccessKind as AK
    from pash_annotations.datatypes.CommandInvocationInitial import CommandInvocationInitial
    from pash_annotations.datatypes.CommandInvocationPrefix import CommandInvocationPrefix
    from pash_annotations.datatypes.CommandInvocationWithIO import CommandInvocationWithIO
    from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars
    from pash_annotations.annotation_generation.datatypes.parallelizability import Parallelizer as P, MapperSpec as M, \
        AggregatorSpec as A, AggregatorKind as AGK, Splitter as S, TransformerFlagOptionList as T, Mapper as MM, Aggregator as AA

    def val(x):
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] in TABLE:
                return build(x)
            return [val(e) for e in x]
        return x

    def amap(x):
        return {k: val(a) for k, a in (x[::-1] if late else x)}
    TABLE = {
        'Flag': B.Flag, 'Operand': B.Operand, 'File': B.FileName, 'ArgString': B.ArgStringType, 'Option': B.Option,
        'Std': lambda n: B.StdDescriptor(B.StdDescriptorEnum[n]), 'Access': lambda k: lib.ACCESS_MAKERS[k](),
        'FileIO': W.FileNameWithIOInfo, 'StdIO': lambda n, a: W.StdDescriptorWithIOInfo(B.StdDescriptorEnum[n], a),
        'OptionIO': W.OptionWithIO, 'OptionVar': V.OptionWithIOVar, 'Initial': CommandInvocationInitial, 'Prefix': CommandInvocationPrefix,
        'WithIO': CommandInvocationWithIO,
        'Vars': CommandInvocationWithIOVars, 'Mapper': MM.Mapper,
        'Aggregator': lambda k, *r: AA.Aggregator(AGK.AggregatorKindEnum[k], *r),
        'TrSeq': T.make_transformer_same_as_seq, 'TrEmpty': T.make_transformer_empty, 'TrFilter': T.make_transformer_filter,
        'TrRemove': T.make_transformer_remove, 'TrAdd': T.make_transformer_add, 'TrCustom': T.make_transformer_custom,
        'TrChain': T.ChainTransformerFlagOptionList,
        'MapperSpec': lambda k, c, t, i: M.MapperSpec(M.MapperSpecKindEnum[k], c, t if k == 'CUSTOM' else None, i),
        'AggNonFunc': lambda k, i: A.AggregatorSpecNonFunc(AGK.AggregatorKindEnum[k], i),
        'AggTr': lambda k, t, i: A.AggregatorSpecFuncTransformer(AGK.AggregatorKindEnum[k], t, i),
        'AggStr': lambda k, c, i: A.AggregatorSpecFuncStringRepresentation(AGK.AggregatorKindEnum[k], c, i),
        'Splitter': lambda k: S.Splitter(S.SplitterKindEnum[k]),
        'Parallelizer': lambda s, m, a, i, n: P.Parallelizer(s, m, a, P.AdditionalInfoSplitterToMapper[i], n)}

    def build(d):
        parts = list(d[1:])
        if d[0] in ('Vars', 'Mapper', 'Aggregator'):
            return TABLE[d[0]](*[val(p) for p in parts[:-1]], amap(parts[-1]))
        return TABLE[d[0]](*[val(p) for p in parts])
    return build


class Double:
    """has the same attributes as the object it imitates, but another class"""

    def __init__(self, o):
        self.__dict__.update(o.__dict__)


def foreign():
    return [None, True, False, 0, 1, 2, -1, 1.0, '', 'x', '-x', '-', b'x', (), ('x',), [], ['x'], [1], {}, {'name': 'x'}, {1: 2}, set(),
            frozenset(), object(), object, type, int, len, Ellipsis, NotImplemented, range(2), iter([]), lambda: 1, Exception('x'),
            slice(1), complex(0, 1), float('nan'), json_like(), Double.__init__, memoryview(b'')]


def json_like():
    import json
    return json


def cases(tier):
    C = catalogue(2 if tier == 'quick' else 3)
    return [[k, k + 20, tier] for k in range(0, len(C), 20)] + [['near', m, tier] for m in (50, 70, 130, 300, 600, 1100)]


_cache = {}


def objects(tier):
    if tier not in _cache:
        C = catalogue(2 if tier == 'quick' else 3)
        b, late = builders(), builders(True)
        _cache[tier] = (C, [b(c) for c in C], [late(c) for c in C])
    return _cache[tier]


def families(m):
    """lists of very many entries which differ in one place each, or in the order"""
    F, G = ('Flag', '-a'), ('Flag', '-b')

    def near(xs, other):
        ks = sorted({0, 1, 31, 32, 40, 49, m // 2, m - 2, m - 1} | {k for k in (64, 99, 128, 255, 256, 512, 999, 1000, 1024) if k < m})
        return [xs] + [xs[:k] + (other,) + xs[k + 1:] for k in ks] + [xs[:-1], xs + (other,), xs + xs[-1:], xs[::-1], xs[1:] + xs[:1], xs[:-2] + xs[:-3:-1]]
    fl = tuple(F if k % 3 else ('Option', '-o%d' % k, 'v') for k in range(m))
    yield [('Initial', 'cmd', l, ()) for l in near(fl, G)]
    yield [('Initial', 'cmd', (), l) for l in near(tuple(('Operand', 'f%d' % k) for k in range(m)), ('Operand', 'x'))]
    yield [('Prefix', 'cmd', l, ()) for l in near(fl, G)]
    yield [('Prefix', 'cmd', (), l) for l in near(tuple(arg('f%d' % k) for k in range(m)), arg('x'))]
    vs = tuple(range(10, 10 + m))
    acc = tuple((v, access('STREAM_INPUT')) for v in vs)
    yield [('Vars', 'cmd', (), l, None, None, acc) for l in near(vs, 9999)]
    yield [('Vars', 'cmd', tuple(('OptionVar', '-a', v) for v in l), (), None, None, acc) for l in near(vs, 9999)]
    yield [('Vars', 'cmd', (), vs, None, None, acc[:k] + ((vs[k], a),) + acc[k + 1:]) for k in (0, 39, 40, m // 2, m - 1) for a in (access('OTHER_INPUT'), access('STREAM_OUTPUT'))]
    yield [('Vars', 'cmd', (), vs, None, None, l) for l in (acc, acc[:-1], acc + ((9999, access('CONFIG_INPUT')),), acc[1:])]
    io = tuple(('FileIO', 'f%d' % k, access('STREAM_INPUT')) for k in range(m))
    yield [('WithIO', 'cmd', (), l, None, None) for l in near(io, ('FileIO', 'f0', access('OTHER_INPUT')))]
    yield [('WithIO', 'cmd', tuple(('OptionIO', '-a', a) for a in l), (), None, None) for l in near(io, ('FileIO', 'f0', access('OTHER_INPUT')))]
    yield [('TrChain', l) for l in near((('TrFilter', ('-a',)), ('TrAdd', (F,))) * (m // 2), ('TrAdd', (G,)))]
    for t in ('TrFilter', 'TrRemove'):
        yield [(t, l) for l in near(tuple('-o%d' % k for k in range(m)), '-x')]
    for t in ('TrAdd', 'TrCustom'):
        yield [(t, l) for l in near(fl[:0] + tuple(('Flag', '-o%d' % k) for k in range(m)), G)]


def near_case(m, ctx):
    b, late = builders(), builders(True)
    for C in families(m):
        A, B = [b(c) for c in C], [late(c) for c in C]
        for i, j in itertools.product(range(len(C)), repeat=2):
            ctx.transitions += 1
            ctx.traces += 1
            same = C[i] == C[j]
            got = eq(A[i], B[j])
            if got != (same, not same) or type(got[0]) is not bool:
                ctx.violation(f'{str(C[i])[:100]}.. of {m} == variant {i}, {j}', 'wrong equality', (same, not same), got)
        ctx.states += len(C)
        ctx.outcome((C[0][0], m, len(C)))


def eq(a, b):
    try:
        return (a == b), (a != b)
    except Exception as e:
        return ('raises', type(e).__name__, str(e)[:200])


def run_case(case, ctx):
    lo, hi, tier = case
    if lo == 'near':
        return near_case(hi, ctx)
    C, A, B = objects(tier)
    for i in range(lo, min(hi, len(C))):
        ctx.states += 1
        a = A[i]
        for j in range(len(C)):
            ctx.transitions += 1
            ctx.traces += 1
            same = i == j
            got = eq(a, B[j])
            if got != (same, not same) or type(got[0]) is not bool:
                ctx.violation(f'{C[i]} == {C[j]}', 'wrong equality', (same, not same), got)
        ctx.outcome((C[i], True))
        for cp in (copy.deepcopy(a), copy.copy(a), a):
            ctx.transitions += 1
            if eq(a, cp) != (True, False) or eq(cp, B[i]) != (True, False):
                ctx.violation(f'copy of {C[i]}', 'a copy is not equal', (True, False), eq(a, cp))
        for f in foreign() + [Double(a), type(a), vars(a), repr(a), [a], (a,)]:
            ctx.transitions += 2
            ctx.states += 1
            for x, y in ((a, f), (f, a)):
                got = eq(x, y)
                if got != (False, True):
                    ctx.violation(f'{C[i]} == foreign {type(f).__name__} {str(f)[:40] if not isinstance(f, Double) else ""}',
                                  'comparing with a foreign value', (False, True), got)
    ctx.sample(repr(C[lo]))

