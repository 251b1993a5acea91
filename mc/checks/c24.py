"""C24: construction of parallelizers."""
import itertools
from mc import enumr, model

ID = 'C24'
RULE = ('state = (splitter, mapper, aggregator, implemented flags, extra information, auxiliary count, way of construction); '
        'transition = one construction; acceptance and every part of the result are compared with the given ones; every '
        'parallelizer offered for an enumerated invocation is checked for consistency as well')
BOUNDS = {
    'quick': '4 splitters x 6 mappers x 15 aggregators x 5 infos x aux 0..3 and up to 1000 x (constructor, factory with explicit / default '
             'parts); offered parallelizers of all selections of <=2 flags/options of 15 commands',
    'thorough': 'as quick, offered parallelizers of selections of 3'}
ASSUMPTIONS = ['the plain round robin splitter is meant; round robin with unwrap is only made from accepted parallelizers']
SPL = ['INDIV_FILES', 'ROUND_ROBIN_PLAIN', 'ROUND_ROBIN_UNWRAP_FLAG', 'CONSEC_CHUNKS']
MAPPERS = ['default', 'seq', 'seq-unimpl', 'custom', 'custom-unimpl', 'string']
AGGS = ['default', 'conc', 'merge', 'adjseq'] + [f'{k}-{w}-{i}' for k in ('func', '2ary', 'nary') for w in ('tr', 'str') for i in (0, 1)]
INFOS = [None, 'NO_ADD_INPUT', 'LINE_NUM_OFFSET', 'BYTE_OFFSET', 'LINE_NUM_AND_BYTE_OFFSET']


def mods():
    from pash_annotations.annotation_generation.datatypes.parallelizability import Parallelizer as P, MapperSpec as M, \
        AggregatorSpec as A, Splitter as S, TransformerFlagOptionList as T
    return P, M, A, S, T


def mapper(name):
    P, M, A, S, T = mods()
    return {'default': lambda: None, 'seq': M.make_mapper_spec_seq, 'seq-unimpl': M.MapperSpec,
            'custom': lambda: M.make_mapper_spec_custom('m', T.make_transformer_empty(), is_implemented=True),
            'custom-unimpl': lambda: M.make_mapper_spec_custom('m', T.make_transformer_filter(['-a'])),
            'string': lambda: M.make_mapper_spec_custom_from_string_representation('tr -d x', is_implemented=True)}[name]()


def mapper_ref(name):
    """kind, command, implemented"""
    return {'default': ('SAME_AS_SEQ', None, True), 'seq': ('SAME_AS_SEQ', None, True), 'seq-unimpl': ('SAME_AS_SEQ', None, False),
            'custom': ('CUSTOM', 'm', True), 'custom-unimpl': ('CUSTOM', 'm', False), 'string': ('CUSTOM', 'tr', True)}[name]


def agg(name):
    P, M, A, S, T = mods()
    if name == 'default':
        return None
    if '-' not in name:
        return {'conc': A.make_aggregator_spec_concatenate, 'merge': A.make_aggregator_spec_adj_lines_merge,
                'adjseq': A.make_aggregator_spec_adj_lines_seq}[name]()
    k, w, i = name.split('-')
    impl = i == '1'
    stem = {'func': 'make_aggregator_spec_adj_lines_func_from_', '2ary': 'make_aggregator_spec_custom_2_ary_from_',
            'nary': 'make_aggregator_spec_custom_n_ary_from_'}[k]
    if w == 'tr':
        return getattr(A, stem + 'cmd_inv_with_transformers')(T.make_transformer_add([]), impl)
    return getattr(A, stem + 'string_representation')('agg -x', impl)


def agg_ref(name):
    """kind, implemented"""
    if name in ('default', 'conc'):
        return 'CONCATENATE', True
    if name in ('merge', 'adjseq'):
        return {'merge': 'ADJ_LINES_MERGE', 'adjseq': 'ADJ_LINES_SEQ'}[name], False
    k, w, i = name.split('-')
    return {'func': 'ADJ_LINES_FUNC', '2ary': 'CUSTOM_2_ARY', 'nary': 'CUSTOM_N_ARY'}[k], i == '1'


def cases(tier):
    r = [['make', s, m] for s in SPL for m in MAPPERS]
    r += [['offered'] + c for c in enumr.partitions(model.ANNOTATED_PARA, 2 if tier == 'quick' else 3, tier)]
    return r


def run_case(case, ctx):
    from mc import lib
    P, M, A, S, T = mods()
    if case[0] == 'make':
        _, s, m = case
        splitter = {'INDIV_FILES': S.make_splitter_indiv_files, 'ROUND_ROBIN_PLAIN': S.make_splitter_round_robin,
                    'ROUND_ROBIN_UNWRAP_FLAG': S.make_splitter_round_robin_with_unwrap,
                    'CONSEC_CHUNKS': S.make_splitter_consec_chunks}[s]
        factory = {'INDIV_FILES': P.make_parallelizer_indiv_files, 'ROUND_ROBIN_PLAIN': P.make_parallelizer_round_robin,
                   'CONSEC_CHUNKS': P.make_parallelizer_consec_chunks}.get(s)
        sp = splitter()
        ctx.expect(f'splitter {s}', 'wrong splitter', (s, s == 'ROUND_ROBIN_PLAIN', s == 'ROUND_ROBIN_UNWRAP_FLAG', s == 'CONSEC_CHUNKS'),
                   (sp.kind.name, sp.is_splitter_round_robin(), sp.is_splitter_round_robin_with_unwrap_flag(), sp.is_splitter_consec_chunks()))
        for a, i, n in itertools.product(AGGS, INFOS, (0, 1, 2, 3, 4, 5, 7, 10, 11, 64, 1000)):
            exp_ok = s != 'ROUND_ROBIN_PLAIN' or agg_ref(a)[0] in ('CONCATENATE', 'ADJ_LINES_MERGE', 'ADJ_LINES_SEQ', 'ADJ_LINES_FUNC')
            for way in ('constructor', 'factory', 'keywords'):
                if way == 'constructor' and (m == 'default' or a == 'default') or way != 'constructor' and factory is None:
                    continue
                info = i and P.AdditionalInfoSplitterToMapper[i]
                ms, as_ = mapper(m), agg(a)
                if way == 'constructor':
                    p = lib.safe(P.Parallelizer, splitter(), ms, as_, info, n)
                elif way == 'factory':
                    p = lib.safe(factory, ms, as_, info, n)
                else:
                    kw = {k: v for k, v in (('mapper_spec', ms), ('aggregator_spec', as_), ('info_splitter_mapper', info)) if v is not None}
                    if n:
                        kw['info_mapper_aggregator'] = n
                    p = lib.safe(lambda: factory(**kw))
                ctx.states += 1
                ctx.transitions += 1
                ctx.traces += 1
                key = f'{way} {s} {m} {a} info={i} aux={n}'
                if not exp_ok:
                    ctx.outcome('rejected')
                    if not lib.raised(p):
                        ctx.violation(key, 'combination is not rejected', 'an exception', lib.canon_parallelizer(p)[:1])
                    continue
                if lib.raised(p):
                    ctx.violation(key, 'combination is rejected', 'a parallelizer', p)
                    continue
                check(p, key, s, m, a, i or 'NO_ADD_INPUT', n, ctx, lib)
                if ms is not None:
                    ctx.expect(key, 'mapper specification replaced', True, p.get_mapper_spec() == mapper(m))
                if as_ is not None:
                    ctx.expect(key, 'aggregator specification replaced', True, p.get_aggregator_spec() == agg(a))
                if s == 'CONSEC_CHUNKS':
                    q = P.make_parallelizer_round_robin_with_unwrap_from_other(p)
                    check(q, key + ' with unwrap', 'ROUND_ROBIN_UNWRAP_FLAG', m, a, i or 'NO_ADD_INPUT', n, ctx, lib)
                    check(p, key + ' afterwards', s, m, a, i or 'NO_ADD_INPUT', n, ctx, lib)
        ctx.sample([s, m])
    else:
        _, cmd, k, first, tier = case
        for sel in enumr.selections_from(cmd, k, first):
            ctx.transitions += 1
            for ops in enumr.operand_lists(cmd, small=k > 0)[:12 if k > 1 else 60]:
                words = [cmd] + sel + ops
                ref = model.ref_para(model.ref_parse(words))
                if ref is None:
                    continue
                text = lib.line(words)
                info = lib.safe(lambda: lib.para_info(lib.parse(text)))
                if info is None or lib.raised(info):
                    ctx.violation('offered ' + text, 'no information', 'parallelizability information', info)
                    continue
                ctx.states += 1
                ctx.traces += 1
                for p in info.unpack_info()[0]:
                    s, ak = p.get_splitter().kind.name, p.get_aggregator_spec().get_kind().name
                    if s == 'ROUND_ROBIN_PLAIN' and ak in ('CUSTOM_2_ARY', 'CUSTOM_N_ARY'):
                        ctx.violation('offered ' + text, 'round robin with order-sensitive aggregator', None, (s, ak))
                    e = p.get_mapper_spec().is_implemented and p.get_aggregator_spec().is_implemented
                    ctx.expect('offered ' + text, 'are_all_parts_implemented', e, p.are_all_parts_implemented())
                    ctx.outcome((s, ak, e))


def check(p, key, s, m, a, i, n, ctx, lib):
    ms, ag = p.get_mapper_spec(), p.get_aggregator_spec()
    obs = (p.get_splitter().kind.name, (ms.kind.name, ms.spec_mapper_cmd_name, ms.is_implemented), (ag.get_kind().name, ag.is_implemented),
           p.info_splitter_mapper.name, p.get_info_mapper_aggregator(), p.are_all_parts_implemented())
    exp = (s, mapper_ref(m), agg_ref(a), i, n, mapper_ref(m)[2] and agg_ref(a)[1])
    ctx.outcome(obs)
    ctx.expect(key, 'wrong parts', exp, obs)
    kinds = {'CONCATENATE': 'concatenate', 'ADJ_LINES_MERGE': 'adj_lines_merge', 'ADJ_LINES_SEQ': 'adj_lines_seq',
             'ADJ_LINES_FUNC': 'adj_lines_func', 'CUSTOM_2_ARY': 'custom_2_ary', 'CUSTOM_N_ARY': 'custom_n_ary'}
    ctx.expect(key, 'kind queries', [k == ag.get_kind().name for k in kinds],
               [getattr(ag, 'is_aggregator_spec_' + v)() for v in kinds.values()])
