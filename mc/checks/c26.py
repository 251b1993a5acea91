"""C26: the building blocks annotations are written with."""
import itertools, re
from mc import model

ID = 'C26'
RULE = ('state = (number of operands, assignments made so far), transition = one helper call on a real generator or information '
        'object; breadth-first over all call sequences in which no operand and no implicit stream is assigned twice (the '
        'documented assumption of the helpers); after every call the roles the object gives an invocation are compared with a '
        'list model.  For parallelizability: all sequences of append calls.  Predicates: all flag lists x all name lists, all '
        'first operands x texts')
BOUNDS = {
    'quick': '0-4 operands, call sequences of <=3 (7-12 and 40 operands: <=2) from 18 helpers with 3 argument forms for the implicit streams, each on a generator '
             'and on its information object; append sequences of <=3 from 14 calls; flag lists of <=3 from 5 entries x 41 name lists; 17 operands x 12 '
             'texts; the small functions on all lists of <=5 values and on operands of <=3 of 9 parts',
    'thorough': '0-6 operands, call sequences of <=4; append sequences of <=4; flag lists of <=4'}
ASSUMPTIONS = ['helpers for the first or the last operand are only used when there is one',
               'no operand and no implicit stream is assigned twice, as the code documents']
SI, SO, OI, OO, CI, ARG = 'STREAM_INPUT', 'STREAM_OUTPUT', 'OTHER_INPUT', 'OTHER_OUTPUT', 'CONFIG_INPUT', 'ARG'
OPS = {'all_operands_are_streaming_inputs': ('all', SI), 'all_operands_are_streaming_outputs': ('all', SO),
       'all_operands_are_other_inputs': ('all', OI), 'all_operands_are_other_outputs': ('all', OO),
       'all_but_last_operand_is_streaming_input': ('-last', SI), 'all_but_last_operand_is_other_input': ('-last', OI),
       'all_but_first_operand_is_streaming_input': ('-first', SI), 'all_but_first_operand_is_streaming_output': ('-first', SO),
       'all_but_first_operand_is_other_input': ('-first', OI), 'only_last_operand_is_stream_output': ('last', SO),
       'only_last_operand_is_other_output': ('last', OO), 'set_all_operands_as_config_arg_type_string': ('all', ARG),
       'set_first_operand_as_config_arg_type_string': ('first', ARG),
       'set_first_operand_as_config_arg_type_filename_or_std_descriptor': ('first', CI), 'set_all_operands_as_arg_string': ('all', ARG)}
IMPLICIT = [('set_implicit_use_of_stdin', ()), ('set_implicit_use_of_stdin', (True,)), ('set_implicit_use_of_stdin', (False,)),
            ('set_implicit_use_of_stdout', ()), ('set_implicit_use_of_stdout', (True,)), ('set_implicit_use_of_stdout', (False,)),
            ('if_no_operands_given_stdin_implicitly_used', ())]
CALLS = [(o, ()) for o in OPS] + IMPLICIT
SEQ, CONC = model.SEQ, model.CONC
APPEND = {  # call -> (splitter, aggregator)
    'append_to_parallelizer_list_if_seq_conc': ('INDIV_FILES', 'CONCATENATE'),
    'append_to_parallelizer_list_if_seq_adjm': ('INDIV_FILES', 'ADJ_LINES_MERGE'),
    'append_to_parallelizer_list_cc_seq_conc': ('CONSEC_CHUNKS', 'CONCATENATE'),
    'append_to_parallelizer_list_cc_seq_adjm': ('CONSEC_CHUNKS', 'ADJ_LINES_MERGE'),
    'append_to_parallelizer_list_rr_seq_conc': ('ROUND_ROBIN_PLAIN', 'CONCATENATE'),
    'append_to_parallelizer_list_rr_seq_adjm': ('ROUND_ROBIN_PLAIN', 'ADJ_LINES_MERGE'),
    'append_to_parallelizer_list_rr_seq_adjs': ('ROUND_ROBIN_PLAIN', 'ADJ_LINES_SEQ'),
    'append_to_parallelizer_list_cc_seq_adjs': ('CONSEC_CHUNKS', 'ADJ_LINES_SEQ'),
    'append_to_parallelizer_list_rr_seq_adjf': ('ROUND_ROBIN_PLAIN', 'ADJ_LINES_FUNC'),
    'append_to_parallelizer_list_cc_seq_adjf': ('CONSEC_CHUNKS', 'ADJ_LINES_FUNC')}
NAMES = ['-a', '-b', '-c', '-d', '--a', '']
ENTRIES = [('F', '-a'), ('F', '-b'), ('O', '-c', '-a'), ('O', '-a', 'y'), ('F', '--a')]
OPERANDS = ['', '-', 'a', 'ab', 'ba', 's/a/b/', ' a', 'A', 'aa', '\n', '\\n', 'é', '/', 's', 'ss/', '-a', 'xs/a']
TEXTS = ['', 'a', 'b', 's/', '/', '-', 'ab', 'A', '\n', '\\', 'é', 's']


def cases(tier):
    n = 4 if tier == 'quick' else 6
    r = [['roles', k, i, tier] for k in list(range(n + 1)) + [7, 8, 9, 10, 11, 12, 40] for i in range(-1, len(CALLS))]
    r += [['append', i, tier] for i in range(-1, len(APPEND) + 4)]
    return r + [['predicates', n, tier] for n in range(0, 4 if tier == 'quick' else 5)] + [['operands', o, tier] for o in range(len(OPERANDS))] + [['functions', tier]]


class State:
    def __init__(self, n):
        self.roles, self.assigned, self.imp, self.imp_set = [SI] * n, [False] * n, [False, False], [False, False]

    def step(self, call, args):
        """False if the call is outside the documented use"""
        if call in OPS:
            where, role = OPS[call]
            n = len(self.roles)
            if n == 0 and where != 'all':
                return False
            idx = {'all': range(n), '-last': range(n - 1), '-first': range(1, n), 'last': [n - 1], 'first': [0]}[where]
            for i in idx:
                if self.assigned[i]:
                    return False
                self.assigned[i], self.roles[i] = True, role
            return True
        i = 1 if 'stdout' in call else 0
        if self.imp_set[i]:
            return False
        self.imp_set[i] = True
        self.imp[i] = len(self.roles) == 0 if call.startswith('if_no') else (args[0] if args else True)
        return True


def run_case(case, ctx):
    from mc import lib
    from pash_annotations.annotation_generation.annotation_generators.InputOutputInfoGenerator_Interface import InputOutputInfoGeneratorInterface
    from pash_annotations.annotation_generation.annotation_generators.ParallelizabilityInfoGenerator_Interface import ParallelizabilityInfoGeneratorInterface
    from pash_annotations.annotation_generation.datatypes.InputOutputInfo import InputOutputInfo
    from pash_annotations.datatypes.BasicDatatypes import WhichClassForArg

    class Io(InputOutputInfoGeneratorInterface):
        def generate_info(self):
            pass

    class Para(ParallelizabilityInfoGeneratorInterface):
        def generate_info(self):
            pass
    tier = case[-1]
    if case[0] == 'functions':
        return functions(tier, ctx, lib)
    if case[0] == 'roles':
        _, n, first, _ = case
        depth = (3 if tier == 'quick' else 4) - (n > 6)
        names = [f'x{i}' if i % 3 else '-' for i in range(n)]
        seqs = [()] if first < 0 else [(CALLS[first],)]
        while seqs:
            nxt = []
            for seq in seqs:
                st = State(n)
                if not all(st.step(*c) for c in seq):
                    continue
                ctx.states += 1
                inv = lib.CommandInvocationInitial('foo', [lib.Flag('-v')], [lib.Operand(o) for o in names])
                exp = ('foo', [('F', '-v')],
                       [(k, t if t != '-' or k == ARG else ('<stdout>' if k in model.OUTPUTS else '<stdin>')) for k, t in zip(st.roles, names)],
                       (SI, '<stdin>') if st.imp[0] else None, (SO, '<stdout>') if st.imp[1] else None)
                exp_other = OO in st.roles
                g = Io(inv)
                for c, a in seq:
                    getattr(g, c)(*a)
                    ctx.transitions += 1
                obs = [(lib.canon_withio(g.get_cmd_inv_with_io(inv)), g.get_info().has_other_outputs())]
                if all(len(a) or c in OPS for c, a in seq):
                    info = InputOutputInfo([(WhichClassForArg.PLAINSTRING, None)], n)
                    for c, a in seq:
                        getattr(info, c)(*a)
                        ctx.transitions += 1
                    obs.append((lib.canon_withio(info.apply_input_output_info_to_command_invocation(inv)), info.has_other_outputs()))
                ctx.traces += len(obs)
                ctx.outcome(exp)
                for who, o in zip(('generator', 'information'), obs):
                    ctx.expect(f'{who} operands={n} calls={seq}', 'roles after these calls', (exp, exp_other), o)
                if len(seq) < depth and first >= 0:
                    nxt += [seq + (c,) for c in CALLS]
            seqs = nxt
    elif case[0] == 'append':
        first = case[1]
        calls = [(c, args) for c in APPEND for args in ([()] if not c.endswith('adjf') else [('f', True), ('g', False), ('f', False)])]
        depth = 3 if tier == 'quick' else 4
        if first >= len(calls):
            return
        seqs = [()] if first < 0 else [(calls[first],)]
        inv = lib.CommandInvocationInitial('foo', [], [])
        while seqs:
            nxt = []
            for seq in seqs:
                for comm in (False, True):
                    g = Para(inv)
                    for k, (c, a) in enumerate(seq):
                        getattr(g, c)(*a)
                        ctx.transitions += 1
                        if comm and k == 0:
                            g.set_commutative()
                    if comm and not seq:
                        g.set_commutative()
                    info = g.get_info()
                    got = [look(p, lib) for p in info.parallelizer_list]
                    inferred, rr, cm = info.unpack_info()
                    exp = [want(c, a) for c, a in seq]
                    exp_inf = exp + [('ROUND_ROBIN_UNWRAP_FLAG',) + e[1:] for e in exp if comm and e[0] == 'CONSEC_CHUNKS']
                    ctx.states += 1
                    ctx.traces += 1
                    ctx.outcome(tuple(exp_inf))
                    ctx.expect(f'calls={seq} commutative={comm}', 'parallelizers after these calls', (exp, exp_inf, comm),
                               (got, [look(p, lib) for p in inferred], cm))
                if len(seq) < depth and first >= 0:
                    nxt += [seq + (c,) for c in calls]
            seqs = nxt
    elif case[0] == 'predicates':
        n = case[1]
        name_lists = [list(c) for k in range(0, 4) for c in itertools.combinations(NAMES, k)] + [['-a', '-a'], ['-b', '-a']]
        for fo in itertools.product(ENTRIES, repeat=n):
            inv = lib.make_inv('foo', fo, ['x'] * n)
            for G in (Io, Para):
                if G is Io and any(e[0] == 'O' for e in fo):
                    continue   # the interface table of the command decides what an option argument is (C04)
                g = G(inv)
                for l in name_lists:
                    exp = [e for e in fo if e[1] in l]
                    given = list(l)
                    got = [lib.canon_fo_entry(e) for e in g.get_flag_option_list_filtered_with(given)]
                    has = g.does_flag_option_list_contain_at_least_one_of(given)
                    ctx.states += 1
                    ctx.transitions += 2
                    ctx.traces += 1
                    ctx.outcome((len(exp), bool(exp)))
                    ctx.expect(f'{G.__name__} flags={fo} names={l}', 'flags and options of that name', (exp, bool(exp), l), (got, has, given))
                ctx.expect(f'{G.__name__} flags={fo} length', 'number of operands', n, g.get_operand_list_length())
            ctx.expect(f'flags={fo} after', 'asking changes the invocation', ('foo', list(fo), ['x'] * n), lib.canon_inv(inv))
    else:
        o = OPERANDS[case[1]]
        for rest in ([], ['a'], ['s/', 'b']):
            for G in (Io, Para):
                g = G(lib.make_inv('foo', [], [o] + rest))
                for t in TEXTS:
                    ctx.states += 1
                    ctx.transitions += 2
                    ctx.traces += 1
                    exp = (o[:len(t)] == t, any(o[i:i + len(t)] == t for i in range(len(o) + 1)))
                    ctx.outcome(exp)
                    ctx.expect(f'{G.__name__} first operand {o!r} of {1 + len(rest)}, text {t!r}', 'starts with / contains', exp,
                               (g.does_first_operand_start_with(t), g.does_first_operand_contain(t)))
                ctx.expect(f'{G.__name__} first operand {o!r}', 'name of the first operand', o, g.get_first_operand_name_as_string())
    ctx.sample(case)


def functions(tier, ctx, lib):
    """the small functions, on all lists over a few values; one that does not exist any more is not used by anybody"""
    from pash_annotations import util, util_flag_option

    def known(m, f):
        if not hasattr(m, f):
            ctx.count('functions that do not exist')
        return getattr(m, f, None)

    def check(key, what, exp, f, *args):
        ctx.states += 1
        ctx.transitions += 1
        ctx.traces += 1
        ctx.outcome((what, exp))
        ctx.expect(key, what, exp, lib.safe(f, *args))
    n = 5 if tier == 'quick' else 7
    words = ['-a', '--long', 'x', '']
    make = known(util_flag_option, 'make_arg_simple')
    for k in range(4) if make else ():
        for l in itertools.product(words, repeat=k):
            given = list(l)
            exp = {1: [('F', *l)], 2: [('O', *l)]}.get(k)
            r = lib.safe(make, given)
            check(f'make_arg_simple({given})', 'flag or option of these words', exp, lambda: None if lib.raised(r) else [lib.canon_fo_entry(r)])
            ctx.expect(f'make_arg_simple({l}) words', 'the given words change', list(l), given)
    dedup, fold = known(util, 'list_deduplication'), known(util, 'foldl')
    for k in range(n + 1):
        for l in itertools.product([1, 'a', (2,)], repeat=k):
            given = list(l)
            if k < 5:
                # values of the same text, values that count as no, equal ones of several types of objects
                for m in ({1: 1, 'a': '1', (2,): None}, {1: lib.Flag('-a'), 'a': lib.Operand('-a'), (2,): lib.ArgStringType('-a')}, {1: 0, 'a': '', (2,): []},
                          {1: [1], 'a': (1,), (2,): '[1]'}):
                    o = [m[x] for x in l]
                    if dedup:
                        check(f'list_deduplication({o})', 'first occurrences in order', [x for i, x in enumerate(o) if x not in o[:i]], dedup, list(o))
                    if fold:
                        check(f'foldl over {o}', 'the elements and what was computed before', [[x, y] for x, y in zip(o, [0] + o)],
                              lambda: (lambda seen: (fold(lambda el, acc: seen.append([el, acc]) or el, 0, list(o)), seen)[1])([]))
                        check(f'foldl to {o}', 'what was computed last', [o[-1] if o else 0], lambda: [fold(lambda el, acc: el, 0, list(o))])
            if dedup:
                check(f'list_deduplication({given})', 'first occurrences in order', [x for i, x in enumerate(l) if x not in l[:i]], dedup, given)
            if fold:
                check(f'foldl over {given}', 'applied from the left', [0, *l], lambda: fold(lambda el, acc: acc + [el], [0], given))
            ctx.expect(f'list functions on {l}', 'the given list changes', list(l), given)
    for k in (33, 65, 129, 257, 513, 1025, 2049):
        # many elements: all different, all equal, one repeated at the end, not hashable
        for l in (list(range(k)), [1] * k, list(range(k)) + [0], list(range(k)) + [k - 1, 'x'], [i % 7 for i in range(k)], [[i % 5] for i in range(k)], ['%d' % (i // 2) for i in range(k)]):
            exp = [x for i, x in enumerate(l) if x not in l[:i]]
            for g, what, want_, call in ((dedup, 'first occurrences in order', exp, lambda g: g(list(l))), (fold, 'applied from the left', [0, *l], lambda g: g(lambda el, acc: acc + [el], [0], list(l)))):
                if g:
                    check(f'{what} of {k} elements {l[:3]}..{l[-2:]}', what, want_, call, g)
    for f, std in (('compute_actual_el_for_input', '<stdin>'), ('compute_actual_el_for_output', '<stdout>')):
        g = known(util, f)
        for w in ['-', '', '--', 'x', '-x', ' -', '- ', '/dev/stdin', '0'] if g else ():
            for x in (w, lib.ArgStringType(w)):
                exp = ('std', 'STDIN' if 'input' in f else 'STDOUT') if w == '-' else ('file', w)
                check(f'{f}({x!r})', 'file or descriptor', exp, lambda: (lambda r: ('std', r.get_type().name) if isinstance(r, lib.StdDescriptor) else
                                                                         (type(r) is lib.FileName and 'file', str(r.get_name())))(g(w)))
    for f in ('return_empty_flag_option_list_if_none_else_itself', 'return_empty_pos_config_list_if_none_else_itself', 'return_empty_list_if_none_else_itself'):
        g = known(util, f)
        for v in ([], [1], ['a', 2]) if g else ():
            check(f'{f}({v})', 'the list itself', True, lambda: g(v) is v)
        if g:
            check(f'{f}(None)', 'a new empty list', ([], True), lambda: (lambda a: (list(a), a.append(1) is None and g(None) == []))(g(None)))
    g = known(util, 'return_default_if_none_else_itself')
    for v in (None, 0, '', [], 'x', False) if g else ():
        for d in (None, 1, [2]):
            check(f'return_default_if_none_else_itself({v!r}, {d!r})', 'default', True, lambda: g(v, d) is (d if v is None else v))
    parts = ['\\0', 'a', '\\n', '0', '-', '\\', '[:space:]', 'z\\t', '']
    for k in range(4):
        for l in itertools.product(parts, repeat=k):
            w = ''.join(l)
            o = lib.Operand(w)
            if hasattr(o, 'to_arg_string_type'):
                check(f'operand {w!r} as text', 'text argument of the same content', ('ARG', w), lambda: lib.canon_arg(o.to_arg_string_type()))
            if hasattr(o, 'contains_null_char') and not re.search(r'\\\\|\\0[0-7]', w):
                check(f'operand {w!r}', 'contains the null character', r'\0' in w, lambda: bool(o.contains_null_char()))
            ctx.expect(f'operand {w!r} text', 'the operand changes', w, o.get_name())
    from pash_annotations.annotation_generation.datatypes.Inputs import Inputs, InputsEnum
    for c in ([], [1], [1, 2]):
        for st in ([], [3], [4, 3]):
            i = Inputs(InputsEnum.STREAMING, (list(c), list(st)))
            check(f'inputs {c} {st}', 'configuration, streaming and all inputs', (True, c, st, c + st), lambda: (
                i.is_streaming(), list(i.get_config_inputs()), list(i.get_streaming_inputs()), list(i.get_all_inputs())))
            check(f'inputs {c} {st}', 'asked again', (c, st, c + st), lambda: (
                list(i.get_config_inputs()), list(i.get_streaming_inputs()), list(i.get_all_inputs())))


def look(p, lib):
    a = p.get_aggregator_spec()
    m = p.get_mapper_spec()
    return (p.get_splitter().kind.name, a.get_kind().name, getattr(a, 'cmd_inv_as_str', None), a.is_implemented,
            lib.canon_mapper_spec(m) == ('SAME_AS_SEQ', None, lib.ref_behaviour(('seq',)), True), p.get_info_mapper_aggregator())


def want(c, args):
    s, a = APPEND[c]
    return (s, a, args[0] if args else None, AGG_IMPLEMENTED.get(a, args[1] if args else False), True, 0)


AGG_IMPLEMENTED = {'CONCATENATE': True}
