"""C10: instantiation of mappers."""
import itertools
from mc import enumr, inst, model

ID = 'C10'
RULE = ('state = (invocation with I/O variables, mapper specification, number of auxiliary outputs); transition = one '
        'instantiation; result, access map, original and second instantiation are compared with a reference instantiation on lists')
BOUNDS = {
    'quick': 'every offered parallelizer of all selections of <=2 flags/options x operand menus of 15 commands, every option with 66 odd arguments (one streaming '
             'input and output); synthetic: 9 stream positions x up to 3 of 7 surrounding parts x 3 orders x 11 transformers x '
             '8 mapper kinds (of other commands and of the same one), 16 odd command names; aux outputs 0..3; 9 stream positions x 5 kinds of parts repeated 4..12, 40, 130 and 1100 times x 3 orders; aux outputs '
             '4..12, 20',
    'thorough': 'as quick with selections of 3 and up to 5 surrounding parts'}
ASSUMPTIONS = ['one streaming input and one streaming output (the documented precondition of mappers)',
               'transformers do not drop the option that holds a stream, and add no option with a variable']
MK = ['same', 'custom name', 'custom own name', 'custom none', 'string', 'own string', 'unimplemented', 'unimplemented custom']
STR = 'grep -v -i'


def cases(tier):
    r = [['offered'] + c for c in enumr.partitions(model.ANNOTATED_PARA, 2 if tier == 'quick' else 3, tier)]
    r += [['offered', cmd, 'odd', 0, tier] for cmd in model.ANNOTATED_PARA]
    for m in MK:
        for t in range(len(inst.TRS)) if m.startswith('custom') else (0,):
            r.append(['synthetic', m, t, 3 if tier == 'quick' else 5])
    r.append(['aux', 0, 0, 3])
    return r


def spec(m, tr, lib):
    """(real mapper specification, reference)"""
    from pash_annotations.annotation_generation.datatypes.parallelizability import MapperSpec as MS
    t = inst.build_tr(tr, lib)
    if m == 'same':
        return MS.make_mapper_spec_seq(), ('SAME_AS_SEQ', None, ('seq',), True)
    if m == 'custom name':
        return MS.make_mapper_spec_custom('other', t, is_implemented=True), ('CUSTOM', 'other', tr, True)
    if m == 'custom own name':
        return MS.make_mapper_spec_custom('cmd', t, is_implemented=True), ('CUSTOM', 'cmd', tr, True)
    if m == 'own string':
        return MS.make_mapper_spec_custom_from_string_representation('cmd', is_implemented=True), ('CUSTOM', 'cmd', ('custom', ()), True)
    if m == 'custom none':
        return MS.make_mapper_spec_custom(None, t, is_implemented=True), ('CUSTOM', None, tr, True)
    if m == 'string':
        return MS.make_mapper_spec_custom_from_string_representation(STR, is_implemented=True), \
            ('CUSTOM', 'grep', ('custom', (('F', '-v'), ('F', '-i'))), True)
    if m == 'unimplemented':
        return MS.MapperSpec(), ('SAME_AS_SEQ', None, ('seq',), False)
    return MS.make_mapper_spec_custom('other', t), ('CUSTOM', 'other', tr, False)


def stream_options_kept(c, ref, lib):
    st = sum(inst.streams(c), [])
    before = [e for e in c['fo'] if e[0] == 'O' and e[2] in st and type(e[2]) is int]
    after = lib.ref_transform(ref[2], c['fo'])
    return all(e in after for e in before)


def run_case(case, ctx):
    from mc import lib
    from pash_annotations.annotation_generation.datatypes.parallelizability import Parallelizer as P, Mapper as MM, MapperSpec as MS
    if case[0] == 'offered':
        _, cmd, k, first, tier = case
        for text, w, c0, ps in inst.offered(cmd, k, first, tier, ctx, lib):
            for n, (p, ref) in enumerate(ps):
                aux = [w.fresh() for _ in range(ref[4])]
                i, o = (w.fresh(), w.fresh()) if n % 2 else (0, w.fresh() - 50)
                key = f'mapper {n} of {text}'
                if lib.canon_mapper_spec(p.get_mapper_spec()) != lib.ref_parallelizer(ref)[1] or p.get_info_mapper_aggregator() != ref[4]:
                    ctx.count('skipped (other property)')
                    continue
                exp = inst.ref_mapper(c0, ref[1], i, o, aux)
                ctx.outcome((text, n, exp and exp['fo'], exp and exp['ops']))
                r = inst.instantiate_twice(lambda: p.get_actual_mapper(w.inv, i, o, aux), exp, w.inv, c0, [], key, 'mapper', ctx, lib)
                if r is not None:
                    ctx.expect(key, 'type of the result', MM.Mapper, type(r))
                    ctx.count('mappers')
    elif case[0] == 'synthetic':
        _, m, t, maxextra = case
        real, ref = spec(m, inst.TRS[t], lib)
        p = P.make_parallelizer_consec_chunks(mapper_spec=real)
        n = 0
        for syn in itertools.chain(inst.synthetics(maxextra), inst.wide()):
            c = inst.synthetic(*syn, lib)
            c0 = lib.canon_vars(c)
            if not stream_options_kept(c0, ref, lib):
                continue
            ctx.states += 1
            i, o = ((200, 201), (0, 7), (7, 0))[n % 3]
            n += 1
            exp = inst.ref_mapper(c0, ref, i, o, [])
            ctx.outcome((ref, syn))
            r = inst.instantiate_twice(lambda: p.get_actual_mapper(c, i, o, []), exp, c, c0, [], f'{m} {inst.TRS[t]} of {syn}', 'mapper', ctx, lib)
        for cmd in inst.CMD_NAMES:
            for syn in ((a, b, ex, 'extras first') for a in ('op', 'imp') for b in ('op', 'imp') for ex in ((), ('textopt',))):
                c = inst.synthetic(*syn, lib, cmd)
                c0 = lib.canon_vars(c)
                ctx.states += 1
                named = [(real, ref)]
                if m == 'custom name':      # the specification names the command
                    named.append((MS.make_mapper_spec_custom(cmd, inst.build_tr(inst.TRS[t], lib), is_implemented=True), ('CUSTOM', cmd, inst.TRS[t], True)))
                for real2, ref2 in named:
                    if not stream_options_kept(c0, ref2, lib):
                        continue
                    for q in (p,) if ref2 is ref else (P.make_parallelizer_consec_chunks(mapper_spec=real2),):
                        inst.instantiate_twice(lambda: q.get_actual_mapper(c, 7, 8, []), inst.ref_mapper(c0, ref2, 7, 8, []), c, c0, [],
                                               f'{m} {inst.TRS[t]} of {syn} of {cmd[:20]!r}', 'mapper', ctx, lib)
        ctx.sample([m, repr(inst.TRS[t]), repr(syn)])
    else:
        for m in MK:
            for tr in inst.TRS + inst.DROPPING:
                real, ref = spec(m, tr, lib)
                for n in (1, 2, 3) + ((4, 5, 6, 7, 8, 9, 10, 11, 12, 20) if tr in inst.TRS[:3] else ()):
                    p = P.make_parallelizer_consec_chunks(mapper_spec=real, info_mapper_aggregator=n)
                    for in_pos in ('op', 'imp'):
                        for out_pos in ('op', 'imp'):
                            for ex in ((), ('flag',), ('textopt', 'flag')):
                                c = inst.synthetic(in_pos, out_pos, ex, 'extras first', lib)
                                c0 = lib.canon_vars(c)
                                ctx.states += 1
                                aux = [210 + x for x in range(n)]
                                exp = inst.ref_mapper(c0, ref, 200, 201, aux)
                                inst.instantiate_twice(lambda: p.get_actual_mapper(c, 200, 201, aux), exp, c, c0, [aux],
                                                       f'{m} {tr} aux={n} of {(in_pos, out_pos, ex)}', 'mapper with auxiliary outputs', ctx, lib)
                                ctx.outcome((m, tr, n, in_pos, out_pos, ex))
