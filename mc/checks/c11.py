"""C11: instantiation of aggregators."""
import itertools
from mc import enumr, inst, model

ID = 'C11'
RULE = ('state = (invocation with I/O variables, aggregator specification, number of partial results); transition = one '
        'instantiation; result, access map, original, given lists and second instantiation are compared with a reference '
        'instantiation on lists')
BOUNDS = {
    'quick': 'every offered parallelizer of all selections of <=2 flags/options x operand menus of 15 commands, every option with 66 odd arguments, 2..4 partial '
             'results; all 3-selections of sort; synthetic: 9 stream positions x up to 3 of 7 surrounding parts x 3 orders x 15 '
             'transformers and 6 command strings (of other commands and of the same one) x 3 kinds x 1..4 partial results, without surrounding parts also 5..12, 16, 33, 64, 130, 300, 600 and 1100; '
             'parts repeated 4..12, 40, 130 and 1100 times; 16 odd command names',
    'thorough': 'as quick with selections of 3 and up to 5 surrounding parts'}
ASSUMPTIONS = ['auxiliary streams are covered by C16', 'entries of dropped non-stream options may stay in the access map']
MANY = (5, 6, 7, 8, 9, 10, 11, 12, 16, 33, 64, 130, 300, 600, 1100)
STRINGS = ['agg', 'runtime/agg/opt/concat.sh', 'sort -m -r -n', 'uniq -c', 'cmd', 'cmd -n']


def cases(tier):
    r = [['offered'] + c for c in enumr.partitions(model.ANNOTATED_PARA, 2 if tier == 'quick' else 3, tier)]
    r += [['offered', cmd, 'odd', 0, tier] for cmd in model.ANNOTATED_PARA]
    if tier == 'quick':
        r += [['offered', 'sort', 3, i, tier] for i in range(enumr.n_groups('sort'))]
    for t in range(len(inst.TRS) + len(inst.DROPPING)):
        r.append(['synthetic', 'transformer', t, 3 if tier == 'quick' else 5])
    for s in STRINGS:
        r.append(['synthetic', 'string', s, 2])
    r.append(['synthetic', 'conc', None, 3])
    return r


def run_case(case, ctx):
    from mc import lib
    from pash_annotations.annotation_generation.datatypes.parallelizability import Parallelizer as P, AggregatorSpec as A, Aggregator as AA
    if case[0] == 'offered':
        _, cmd, k, first, tier = case
        for text, w, c0, ps in inst.offered(cmd, k, first, tier, ctx, lib, 4 if k == 3 else None):
            for n, (p, ref) in enumerate(ps):
                if lib.canon_agg_spec(p.get_aggregator_spec()) != lib.ref_parallelizer(ref)[2]:
                    ctx.count('skipped (other property)')
                    continue
                if ref[4]:
                    ctx.count('with auxiliary streams (C16)')
                    continue
                for parts in (2, 3, 4):
                    if ref[2][0] == 'CUSTOM_2_ARY' and parts != 2:
                        continue
                    ins = [w.fresh() for _ in range(parts)]
                    o = w.fresh()
                    for order, out in ((ins[::-1], o), ([o] + ins[1:], ins[0]), (ins[:-1] + [0], o))[:3 if k in (0, 1) else 1]:
                        check(p, ref[2], w.inv, c0, order, out, f'aggregator {n} of {text} for parts {order}', ctx, lib)
                    ctx.outcome((text, n, parts))
    else:
        _, what, t, maxextra = case
        for kind, stem in (('ADJ_LINES_FUNC', 'adj_lines_func'), ('CUSTOM_2_ARY', 'custom_2_ary'), ('CUSTOM_N_ARY', 'custom_n_ary')):
            if what == 'conc':
                if kind != 'CUSTOM_2_ARY':
                    continue
                specs = [(A.make_aggregator_spec_concatenate(), ('CONCATENATE', True))]
                specs += [(A.make_aggregator_spec_adj_lines_merge(), ('ADJ_LINES_MERGE', False)), (A.make_aggregator_spec_adj_lines_seq(), ('ADJ_LINES_SEQ', False))]
            elif what == 'string':
                f = getattr(A, f'make_aggregator_spec_{stem}_from_string_representation')
                specs = [(f(t), (kind, False, 'string', t))]
                if kind != 'ADJ_LINES_FUNC':       # implemented ones of this kind are declared unsupported by the library
                    specs.append((f(t, is_implemented=True), (kind, True, 'string', t)))
            else:
                tr = (inst.TRS + inst.DROPPING)[t]
                f = getattr(A, f'make_aggregator_spec_{stem}_from_cmd_inv_with_transformers')
                specs = [(f(inst.build_tr(tr, lib)), (kind, False, 'transformer', tr)),
                         (f(inst.build_tr(tr, lib), is_implemented=True), (kind, True, 'transformer', tr))]
                if tr == ('seq',):
                    specs.append((f(is_implemented=True), (kind, True, 'transformer', tr)))
            for real, ref in specs:
                p = P.make_parallelizer_consec_chunks(aggregator_spec=real)
                for syn in inst.synthetics(maxextra):
                    c = inst.synthetic(*syn, lib)
                    c0 = lib.canon_vars(c)
                    ctx.states += 1
                    for parts in {'ADJ_LINES_FUNC': (1,), 'CUSTOM_2_ARY': (2,)}.get(ref[0], (1, 2, 3, 4) if len(syn[2]) < 2 else (2, 3)):
                        for ins in itertools.permutations([(11, 210, 0, 5)[x] for x in range(parts)]) if len(syn[2]) < 1 or parts < 3 else ([5 - x for x in range(parts)],):
                            check(p, ref, c, c0, list(ins), 201, f'{ref} of {syn} for parts {ins}', ctx, lib)
                    if ref[0] not in ('ADJ_LINES_FUNC', 'CUSTOM_2_ARY') and len(syn[2]) < 2:
                        for parts in MANY if not syn[2] else (5, 33, 300):
                            b = 300 if parts < 300 else 3000
                            for ins in (list(range(b, b + parts)), list(range(b + parts, b, -1)), list(range(-parts, 0)))[:(None if parts < 100 else 1) if not syn[2] else 1][::-1]:
                                check(p, ref, c, c0, ins, 201 + parts % 2 * 1000, f'{ref} of {syn} for {parts} parts from {ins[0]}', ctx, lib)
                    ctx.outcome((ref, syn))
                for cmd in inst.CMD_NAMES:
                    for syn in ((a, b, ex, 'extras first') for a in ('op', 'imp') for b in ('op', 'imp') for ex in ((), ('textopt',))):
                        c = inst.synthetic(*syn, lib, cmd)
                        ctx.states += 1
                        check(p, ref, c, lib.canon_vars(c), {'ADJ_LINES_FUNC': [5], 'CUSTOM_2_ARY': [6, 5]}.get(ref[0], [7, 6, 5]), 201, f'{ref} of {syn} of {cmd[:20]!r}', ctx, lib)
                for syn in inst.wide() if t in (None, 0, 1, 3, 7, 9, STRINGS[2]) else ():
                    c = inst.synthetic(*syn, lib)
                    c0 = lib.canon_vars(c)
                    ctx.states += 1
                    check(p, ref, c, c0, {'ADJ_LINES_FUNC': [5], 'CUSTOM_2_ARY': [6, 5]}.get(ref[0], [7, 6, 5]), 201, f'{ref} of {syn}', ctx, lib)
                    ctx.outcome((ref, syn))
        ctx.sample([what, repr(t), repr(syn)])


def check(p, ref, inv, c0, ins, o, key, ctx, lib):
    exp = inst.ref_aggregator(c0, ref, ins, o)
    given = [list(ins)]
    r = inst.instantiate_twice(lambda: p.get_actual_aggregator(inv, given[0], o), exp, inv, c0, given, key, 'aggregator', ctx, lib)
    if r is not None:
        ctx.count('aggregators')
        ctx.expect(key, 'kind of the aggregator', (ref[0], ref[0] == 'CONCATENATE'), (r.kind.name, r.is_aggregator_concatenate()))
        ctx.expect(key, 'streaming inputs', list(ins), list(r.generate_inputs().get_streaming_inputs()))
        outs = [v for v in r.generate_outputs() if r.access_map[v].is_stream_output()]
        ctx.expect(key, 'streaming outputs', [o], outs)
