"""C16: auxiliary streams between mapper and aggregator."""
import itertools
from mc import inst, model

ID = 'C16'
RULE = ('state = (parallelizer with declared number of auxiliary pipes, numbers of auxiliary streams given, invocation); '
        'transition = one instantiation; the wiring (or the rejection) is compared with the documented order')
BOUNDS = {
    'quick': 'declared 0..3 x given 0..4 for the mapper (7 mapper kinds, 4 stream positions); given 0..3 x 0..3 x 0..3 for the '
             'aggregator (strings, transformers, concatenation, adjacent lines, x implemented); bigrams_aux end to end with '
             'shuffled and unordered variables, 1 and 2 levels of aggregation; 4..12, 20, 33, 65, 130 and 300 auxiliary streams, one more or less',
    'thorough': 'as quick with declared and given counts up to 6'}
ASSUMPTIONS = ['a mapper with auxiliary outputs has only variables as operands (documented)']


MANY = (7, 8, 9, 10, 11, 12, 20)
HUGE = (33, 65, 130, 300)


def cases(tier):
    n = 3 if tier == 'quick' else 6
    return [['mapper', d, n] for d in range(n + 1)] + [['agg', i, n] for i in range(12)] + [['bigrams', i, n] for i in range(6)] + \
        [['mapper', d, n] for d in MANY + HUGE] + [['many', i, n] for i in range(12)]


def run_case(case, ctx):
    from mc import lib
    from mc.checks import c10
    from pash_annotations.annotation_generation.datatypes.parallelizability import Parallelizer as P, AggregatorSpec as A
    fam, i, n = case
    if fam == 'mapper':
        for m in ('same', 'custom name', 'custom none', 'string', 'unimplemented'):
            for tr in inst.TRS if m.startswith('custom') else inst.TRS[:1]:
                real, ref = c10.spec(m, tr, lib)
                for make in (P.make_parallelizer_consec_chunks, P.make_parallelizer_round_robin):
                    p = make(mapper_spec=real, info_mapper_aggregator=i)
                    for given in range(n + 2) if i < 7 else (0, 1, 2, i - 1, i, i + 1, 2 * i):
                        for in_pos, out_pos in itertools.product(('op', 'imp'), repeat=2):
                            for ex in ((), ('flag', 'textopt')):
                                c = inst.synthetic(in_pos, out_pos, ex, 'extras first', lib)
                                c0 = lib.canon_vars(c)
                                ctx.states += 1
                                key = f'mapper {m} {tr} declared={i} given={given} {(in_pos, out_pos, ex)}'
                                aux = [290 + (2 if i > 20 else -2) * x for x in range(given)]
                                if given != i:
                                    ctx.transitions += 1
                                    ctx.traces += 1
                                    r = lib.safe(p.get_actual_mapper, c, 200, 201, aux)
                                    ctx.outcome(('rejected', lib.raised(r)))
                                    if not lib.raised(r):
                                        ctx.violation(key, 'wrong number of auxiliary streams is accepted', 'an exception',
                                                      r if r is None else lib.canon_vars(r))
                                    ctx.expect(key, 'the rejected call changed the invocation', c0, lib.canon_vars(c))
                                    continue
                                exp = inst.ref_mapper(c0, ref, 200, 201, aux)
                                ctx.outcome(exp)
                                r = inst.instantiate_twice(lambda: p.get_actual_mapper(c, 200, 201, aux), exp, c, c0, [aux], key, 'mapper', ctx, lib)
                                if r is not None and given:
                                    ctx.expect(key, 'streams', ([200], [201] + aux[:given]),
                                               (list(r.generate_inputs().get_streaming_inputs()), list(r.generate_outputs())))
        ctx.sample(key)
    elif fam in ('agg', 'many'):
        t = inst.build_tr(('add', (('F', '-m'),)), lib)
        specs = [('string', A.make_aggregator_spec_custom_2_ary_from_string_representation('agg', is_implemented=True), ('agg', [])),
                 ('string', A.make_aggregator_spec_custom_2_ary_from_string_representation('sort -m -r', is_implemented=True), ('sort', [('F', '-m'), ('F', '-r')])),
                 ('string', A.make_aggregator_spec_custom_2_ary_from_string_representation('/x/bigram.sh', is_implemented=True), ('/x/bigram.sh', [])),
                 ('refuse', A.make_aggregator_spec_concatenate(), None), ('refuse', A.make_aggregator_spec_adj_lines_merge(), None),
                 ('refuse', A.make_aggregator_spec_adj_lines_seq(), None),
                 ('refuse', A.make_aggregator_spec_custom_2_ary_from_cmd_inv_with_transformers(t, is_implemented=True), None),
                 ('refuse', A.make_aggregator_spec_custom_2_ary_from_cmd_inv_with_transformers(t), None),
                 ('refuse', A.make_aggregator_spec_custom_n_ary_from_cmd_inv_with_transformers(t, is_implemented=True), None),
                 ('refuse', A.make_aggregator_spec_adj_lines_func_from_cmd_inv_with_transformers(t, is_implemented=True), None),
                 ('refuse', A.make_aggregator_spec_custom_2_ary_from_cmd_inv_with_transformers(is_implemented=True), None),
                 ('string', A.make_aggregator_spec_custom_2_ary_from_string_representation('uniq -c', is_implemented=True), ('uniq', [('F', '-c')]))]
        what, real, ref = specs[i]
        for a, b, c in itertools.product(range(n + 1), repeat=3) if fam == 'agg' else \
                [t for k in (4, 5, 6) + MANY + HUGE for t in itertools.product((k - 1, k, k + 1), repeat=3)]:
            for perm in (1, -1, 3):
                p = P.make_parallelizer_consec_chunks(aggregator_spec=real, info_mapper_aggregator=a)
                ids = [(perm * x) % 1009 + 300 for x in range(1, a + b + c + 4)]
                fst, snd, out = ids[0], ids[1], ids[2]
                fa, sa, oa = ids[3:3 + a], ids[3 + a:3 + a + b], ids[3 + a + b:]
                ctx.states += 1
                check_agg(p, what, ref, fst, fa, snd, sa, out, oa, f'aggregator {i} fst_aux={a} snd_aux={b} out_aux={c} order={perm}', ctx, lib)
    else:
        words = [['bigrams_aux'], ['bigrams_aux', 'x'], ['bigrams_aux', '-'], ['bigrams_aux', '-n'], ['bigrams_aux'], ['bigrams_aux', '']][i]
        inv = lib.parse(lib.line(words))
        info = lib.para_info(inv)
        w = lib.Wired(inv)
        c0 = lib.canon_vars(w.inv)
        if any(len(s) != 1 for s in inst.streams(c0)):
            ctx.count('more than one stream')
            return
        ref = model.ref_para(model.ref_parse(words))[1][0]
        for p in info.unpack_info()[0]:
            k = p.get_info_mapper_aggregator()
            ctx.expect(f'{words}', 'declared number of auxiliary pipes', 2, k)
            for perm in itertools.permutations(range(4)):
                ctx.states += 1
                ids = [400 + x for x in perm]
                exp = inst.ref_mapper(c0, ref[1], ids[0], ids[1], ids[2:])
                ctx.outcome(exp)
                m = inst.instantiate_twice(lambda: p.get_actual_mapper(w.inv, ids[0], ids[1], ids[2:]), exp, w.inv, c0, [], f'{words} mapper {perm}', 'mapper', ctx, lib)
                check_agg(p, 'string', ('bigram_aux_reduce', []), 10 + perm[0], [20 + perm[1], 30], 10 + perm[2] + 50, [40, 41], 42 + perm[3],
                          [50 + perm[1], 90], f'{words} aggregator {perm}', ctx, lib)
            for a in range(n + 1):
                if a != k:
                    ctx.states += 1
                    r = lib.safe(p.get_actual_mapper, w.inv, 1, 2, list(range(10, 10 + a)))
                    if not lib.raised(r):
                        ctx.violation(f'{words} mapper with {a} auxiliary outputs', 'wrong number is accepted')


def check_agg(p, what, ref, fst, fa, snd, sa, out, oa, key, ctx, lib):
    ctx.transitions += 1
    ctx.traces += 1
    given = [list(fa), list(sa), list(oa)]
    f = lambda: p.get_actual_2_ary_aggregator_with_aux(fst, given[0], snd, given[1], out, given[2])
    r = lib.safe(f)
    if what == 'refuse' or not len(fa) == len(sa) == len(oa):
        ctx.outcome('rejected')
        if not lib.raised(r):
            ctx.violation(key, 'must be rejected', 'an exception', r if r is None else lib.canon_vars(r))
        return
    if lib.raised(r):
        ctx.violation(key, 'is rejected', 'an aggregator', r)
        return
    ops = [fst] + fa + [snd] + sa + [out] + oa
    exp = {'cmd': ref[0], 'fo': ref[1], 'ops': ops, 'in': None, 'out': None,
           'access': {**{v: 'STREAM_INPUT' for v in [fst, snd] + fa + sa}, **{v: 'STREAM_OUTPUT' for v in [out] + oa}}}
    ctx.outcome(exp)
    ctx.expect(key, 'wrong wiring', exp, lib.canon_vars(r))
    ctx.expect(key, 'kind', p.get_aggregator_spec().get_kind().name, r.kind.name)
    ctx.expect(key, 'the given lists changed', [list(fa), list(sa), list(oa)], given)
    r2 = f()
    ctx.expect(key, 'second instantiation', exp, lib.canon_vars(r2))
    if not r == r2:
        ctx.violation(key, 'repeated instantiation gives unequal results')
    r2.operand_list.append(1)
    r2.access_map.clear()
    for g in given:
        g.append(5)
    ctx.expect(key, 'changing other results or lists changes this one', exp, lib.canon_vars(r))
