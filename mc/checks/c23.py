"""C23: classification of access kinds and the wrappers which carry them."""
import itertools
from mc import model

ID = 'C23'
RULE = ('state = (access kind, way of construction, wrapper); transition = one query; every answer of the real code is compared '
        'with the classification table')
BOUNDS = {
    'quick': '7 kinds x 3 ways of construction (constructor, textual name, copy) x 10 queries, asked in all orders of pairs; '
             '7 kinds x 3 descriptors and 13 file names x wrappers; 60 strings that are no access name',
    'thorough': 'as quick with all ordered triples of queries'}
ASSUMPTIONS = ['the names in the interface tables are those of the enumeration']
K = model.ACCESS
QUERY = {'CONFIG_INPUT': 'is_config_input', 'STREAM_INPUT': 'is_stream_input', 'CONTAINER_FOR_INPUT': 'is_container_for_input',
         'EXCLUDES_FROM_INPUT': 'is_excludes_from_input', 'OTHER_INPUT': 'is_other_input', 'STREAM_OUTPUT': 'is_stream_output',
         'OTHER_OUTPUT': 'is_other_output'}
QUERIES = {**{QUERY[k]: {k} for k in K}, 'is_any_input': set(model.INPUTS), 'is_any_output': set(model.OUTPUTS)}
NAMES = ['f', '', '-', 'a b', '/dev/stdin', '/dev/null', 'x' * 300, '\u00e9', '1', 'None', './-', "it's", 'dir/']


def cases(tier):
    return [[k, tier] for k in K] + [[None, tier]]


def run_case(case, ctx):
    import copy
    from mc import lib
    from pash_annotations.datatypes import AccessKind as AK, BasicDatatypesWithIO as W, BasicDatatypes as B
    k, tier = case
    if k is None:
        bad = [x for n in K for x in (n.lower(), n + ' ', ' ' + n, n[:-1], n.replace('_', ''), n.replace('_', '-'),
                                      'AccessKindEnum.' + n)]
        bad += ['', 'INPUT', 'OUTPUT', 'STREAM', 'ANY_INPUT', 'FILE', '-', 'None', '0', 'CONFIG_OUTPUT', 'OTHER', None, 1]
        for b in bad:
            ctx.states += 1
            ctx.transitions += 1
            ctx.traces += 1
            got = lib.safe(AK.get_access_from_string, b)
            ctx.outcome(lib.raised(got))
            if not lib.raised(got):
                ctx.violation(f'name {b!r}', 'unknown access name is not rejected', 'an exception', got)
        # different kinds are different
        for a, b in itertools.product(K, K):
            ctx.states += 1
            ctx.expect(f'{a} == {b}', 'equality of access kinds', a == b, lib.ACCESS_MAKERS[a]() == lib.ACCESS_MAKERS[b]())
        return
    makers = {'constructor': lib.ACCESS_MAKERS[k], 'name': lambda: AK.get_access_from_string(k),
              'copy': lambda: copy.deepcopy(lib.ACCESS_MAKERS[k]())}
    for how, mk in makers.items():
        for order in itertools.permutations(QUERIES, 2 if tier == 'quick' else 3):
            a = mk()
            ctx.states += 1
            for q in order:
                ctx.transitions += 1
                ctx.traces += 1
                got = getattr(a, q)()
                ctx.outcome((k, q, got))
                ctx.expect(f'{k} ({how}) {q}', 'wrong answer', k in QUERIES[q], got)
            ctx.expect(f'{k} ({how})', 'the kind changed', k, lib.access_name(a))
        for n in NAMES:
            ctx.states += 1
            ctx.transitions += 1
            ctx.traces += 1
            a = mk()
            for w in (W.FileNameWithIOInfo(n, a), W.get_from_original_filename_with_ioinfo(B.FileName(n), a)):
                obs = (w.get_name(), lib.access_name(w.get_access()), isinstance(w, B.FileName), isinstance(w, B.StdDescriptor))
                ctx.outcome(obs)
                ctx.expect(f'file {n!r} {k}', 'wrapper', (n, k, True, False), obs)
        for d in B.StdDescriptorEnum:
            ctx.states += 1
            ctx.transitions += 1
            ctx.traces += 1
            a = mk()
            for w in (W.StdDescriptorWithIOInfo(d, a), W.get_from_original_stddescriptor_with_ioinfo(B.StdDescriptor(d), a)):
                obs = (w.get_type(), lib.access_name(w.get_access()), isinstance(w, B.FileName), isinstance(w, B.StdDescriptor))
                ctx.outcome(obs)
                ctx.expect(f'descriptor {d} {k}', 'wrapper', (d, k, False, True), obs)
    for f, d, kk in ((W.make_stdin_with_access_stream_input, B.StdDescriptorEnum.STDIN, 'STREAM_INPUT'),
                     (W.make_stdout_with_access_output, B.StdDescriptorEnum.STDOUT, 'STREAM_OUTPUT')):
        w = f()
        ctx.expect(f.__name__, 'standard stream', (d, kk), (w.get_type(), lib.access_name(w.get_access())))
    for f, d in ((B.get_stdin_fd, 'STDIN'), (B.get_stdout_fd, 'STDOUT'), (B.get_stderr_fd, 'STDERR')):
        try:
            obs = f().get_type().name
        except Exception as e:      # noqa: BLE001 -- a standard stream that cannot be named is a wrong answer
            obs = 'raised ' + type(e).__name__
        ctx.expect(f.__name__, 'standard stream', d, obs)
    # names in the tables: every access in a table is one of the seven (and is understood)
    ctx.sample([k, sorted(q for q in QUERIES if k in QUERIES[q])])
