"""C12: inferring additional parallelizers - histories of queries and changes on parallelizability infos."""
import itertools

ID = 'C12'
RULE = ('state = (declared list, commutativity, history); transition = one operation (infer, unpack, declare another one, set '
        'commutative, change a returned list, observe a second info); after every step all answers and the declared list are '
        'compared with a list model')
BOUNDS = {
    'quick': 'all declared lists up to length 2 over 12 parallelizers and up to length 3 over 6, both commutativity values; all '
             'histories up to length 4 over 8 operations on 30 declared lists, up to length 2 on all others; lists of 4..12, 25, 40, 65, 130 and 300 '
             '(rotations, one kind among many at every position) and repeated declarations up to 120 operations',
    'thorough': 'as quick with histories up to length 5 and length 3 on all others'}
ASSUMPTIONS = ['the parallelizers in a returned list may be the declared objects themselves; callers change lists, not elements']
CC, RR, RRU, IF = 'CONSEC_CHUNKS', 'ROUND_ROBIN_PLAIN', 'ROUND_ROBIN_UNWRAP_FLAG', 'INDIV_FILES'
# symbolic parallelizers: splitter, mapper, aggregator, info, aux
SPEC = [(CC, 'seq', 'conc', None, 0), (RR, 'seq', 'conc', None, 0), (CC, 'custom', '2ary', None, 2), (IF, 'seq', 'conc', None, 0),
        (CC, 'seq', 'nary', 'LINE_NUM_OFFSET', 0), (RRU, 'seq', '2ary', None, 0), (CC, 'seq', 'merge', None, 1),
        (RR, 'custom', 'merge', 'BYTE_OFFSET', 0), (CC, 'unimpl', 'conc', None, 0), (CC, 'seq', '2ary', None, 0),
        (IF, 'custom', 'nary', None, 3), (RRU, 'seq', 'conc', None, 0)]
OPS = ['infer', 'unpack', 'declare0', 'declare1', 'commute', 'spoil', 'other', 'attr']


def build(spec):
    from pash_annotations.annotation_generation.datatypes.parallelizability import Parallelizer as P, MapperSpec as M, \
        AggregatorSpec as A, Splitter as S, TransformerFlagOptionList as T
    s, m, a, i, n = spec
    m = {'seq': lambda: M.make_mapper_spec_seq(),
         'custom': lambda: M.make_mapper_spec_custom('mapcmd', T.make_transformer_empty(), is_implemented=True),
         'unimpl': lambda: M.MapperSpec()}[m]()
    a = {'conc': lambda: A.make_aggregator_spec_concatenate(),
         '2ary': lambda: A.make_aggregator_spec_custom_2_ary_from_string_representation('agg -x', is_implemented=True),
         'nary': lambda: A.make_aggregator_spec_custom_n_ary_from_string_representation('agg'),
         'merge': lambda: A.make_aggregator_spec_adj_lines_merge()}[a]()
    sp = {CC: S.make_splitter_consec_chunks, RR: S.make_splitter_round_robin, RRU: S.make_splitter_round_robin_with_unwrap,
          IF: S.make_splitter_indiv_files}[s]()
    return P.Parallelizer(sp, m, a, i and P.AdditionalInfoSplitterToMapper[i], n)


def expected(decl, comm):
    return list(decl) + ([(RRU,) + d[1:] for d in decl if d[0] == CC] if comm else [])


_ref = {}


def canon(p, lib):
    m, a = p.get_mapper_spec(), p.get_aggregator_spec()
    probe = [lib.Flag('-a'), lib.OptionWithIOVar('-b', 1)]
    return (p.get_splitter().kind.name, m.kind.name, m.spec_mapper_cmd_name, m.is_implemented,
            lib.canon_fo(m.flag_option_list_transformer.get_flag_option_list_after_transformer_application(probe)),
            type(a).__name__, a.get_kind().name, a.is_implemented, getattr(a, 'cmd_inv_as_str', None),
            getattr(p.info_splitter_mapper, 'name', None), p.get_info_mapper_aggregator())


def ref(spec, lib):
    if spec not in _ref:
        _ref[spec] = canon(build(spec), lib)
        assert _ref[spec][0] == spec[0] and _ref[spec][-1] == spec[-1]
    return _ref[spec]


def cases(tier):
    r = []
    d = 2 if tier == 'quick' else 3
    for comm in (False, True):
        for a in [None] + list(range(12)):
            r.append(['lists', a, comm, d])
        for a in range(6):
            r.append(['lists3', a, comm, d])
        for i in range(30):
            r.append(['hist', i, comm, 4 if tier == 'quick' else 5])
        for n in (4, 5, 6, 7, 8, 9, 10, 11, 12, 25, 40, 65, 130, 300):
            r.append(['long', n, comm, 0])
    r.append(['default', 0, False, 0])
    return r


def hist_lists():
    L = [(), ] + [(i,) for i in (0, 1, 2, 3, 5, 6)] + [(0, 1), (1, 0), (0, 0), (0, 2), (2, 6), (3, 5), (5, 0), (4, 9), (8, 1), (6, 6)] + \
        [(0, 1, 2), (2, 1, 0), (0, 0, 0), (3, 0, 5), (5, 3, 1), (9, 4, 2), (0, 3, 6), (1, 7, 3), (6, 2, 0), (2, 2, 1), (10, 0, 11),
         (11, 10, 8), (8, 8, 9)]
    assert len(L) == 30
    return L


def run_history(decl, comm, ops, ctx, lib):
    from pash_annotations.annotation_generation.datatypes.ParallelizabilityInfo import ParallelizabilityInfo
    decl = [SPEC[i] for i in decl]
    given = [build(d) for d in decl]
    info = ParallelizabilityInfo(list(given), is_commutative=comm)
    key = f'declared={[SPEC.index(d) for d in decl]} commutative={comm} history={list(ops)}'
    results = []
    other = None
    for n, op in enumerate(ops):
        ctx.transitions += 1
        if op == 'infer':
            r = info.get_inferred_parallelizer_list()
            results.append((r, expected(decl, comm)))
        elif op == 'unpack':
            r, rr, c = info.unpack_info()
            results.append((r, expected(decl, comm)))
            ctx.expect(key, f'step {n}: wrong properties', (False, comm), (rr, c))
        elif op in ('declare0', 'declare1'):
            new = SPEC[int(op[-1])]
            info.append_to_parallelizer_list(build(new))
            decl = decl + [new]
        elif op == 'commute':
            info.set_commutative()
            comm = True
        elif op == 'spoil':
            # the caller changes the list it was given
            r = info.get_inferred_parallelizer_list()
            del r[:]
            r.append(None)
        elif op == 'other':
            other = other or ParallelizabilityInfo([build(SPEC[0]), build(SPEC[3])], is_commutative=True)
            r = other.get_inferred_parallelizer_list()
            results.append((r, expected([SPEC[0], SPEC[3]], True)))
        elif op == 'attr':
            ctx.expect(key, f'step {n}: declared list changed', [ref(d, lib) for d in decl],
                       [canon(p, lib) for p in info.parallelizer_list])
    ctx.states += 1
    ctx.traces += 1
    final = info.get_inferred_parallelizer_list()
    results.append((final, expected(decl, comm)))
    for k, (r, e) in enumerate(results):
        got = [canon(p, lib) for p in r]
        ctx.expect(key + f' answer {k}', 'wrong inferred parallelizers', [ref(s, lib) for s in e], got)
    ctx.expect(key, 'declared list changed', [ref(d, lib) for d in decl], [canon(p, lib) for p in info.parallelizer_list])
    ctx.expect(key, 'a declared parallelizer changed', [ref(s, lib) for s in decl[:len(given)]], [canon(p, lib) for p in given])
    # equal in the sense of the library as well
    again = info.unpack_info()[0]
    if not final == again:
        ctx.violation(key, 'asking twice gives unequal lists')
    ctx.outcome((len(final), len(decl), comm))


def run_case(case, ctx):
    from mc import lib
    fam, a, comm, d = case
    if fam == 'lists':
        L = [()] if a is None else [(a,)] + [(a, b) for b in range(12)]
        H = [h for k in range(d + 1) for h in itertools.product(OPS, repeat=k)]
        for l in L:
            for h in H:
                run_history(l, comm, h, ctx, lib)
    elif fam == 'lists3':
        for b, c in itertools.product(range(6), repeat=2):
            for h in ((), ('infer', 'infer'), ('unpack', 'infer', 'unpack')):
                run_history((a, b, c), comm, h, ctx, lib)
    elif fam == 'long':
        # rotations of all parallelizers, one kind among many of another one at every position, and growing by declarations
        L = [tuple((s + k) % 12 for k in range(a)) for s in range(12 if a < 50 else 2)] + [tuple((s - 5 * k) % 12 for k in range(a)) for s in range(12 if a < 50 else 2)]
        for x, y in ((0, 1), (1, 0), (2, 3), (5, 0), (6, 11)):
            L += [tuple(y if k == pos else x for k in range(a)) for pos in (range(a) if a < 50 else (0, 9, 64, a - 1))]
        for l in L:
            for h in ((), ('infer', 'infer'), ('unpack', 'declare1', 'unpack', 'declare0', 'infer'), ('spoil', 'attr', 'commute', 'unpack')):
                run_history(l, comm, h, ctx, lib)
        for h in (('declare0',) * a, ('declare0', 'infer') * min(a, 70), ('declare1', 'declare0', 'unpack') * min(a // 2, 30), ('commute', 'declare0', 'attr', 'infer') * min(a // 2, 30)):
            run_history((), comm, h, ctx, lib)
            run_history((2, 3, 0), comm, h, ctx, lib)
    elif fam == 'hist':
        l = hist_lists()[a]
        for h in itertools.product(OPS, repeat=d):
            run_history(l, comm, h, ctx, lib)
        for k in range(3, d):
            for h in itertools.product(OPS, repeat=k):
                run_history(l, comm, h, ctx, lib)
        ctx.sample([list(l), comm, list(h)])
    else:
        from pash_annotations.annotation_generation.datatypes.ParallelizabilityInfo import ParallelizabilityInfo
        for n in range(1, 4):
            infos = [ParallelizabilityInfo() for _ in range(n)]
            for i in infos:
                i.append_to_parallelizer_list(build(SPEC[0]))
            for i in infos:
                ctx.states += 1
                ctx.transitions += 1
                ctx.traces += 1
                ctx.expect(f'default list {n}', 'infos without declared list influence each other', [ref(SPEC[0], lib)],
                           [canon(p, lib) for p in i.get_inferred_parallelizer_list()])
                ctx.expect(f'default {n}', 'defaults', (False, False), i.unpack_info()[1:])
