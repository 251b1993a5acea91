"""C06: totality of the annotation queries and the table of refusals."""
import itertools
from mc import alpha, enumr, model

ID = 'C06'
RULE = ('state = parsed invocation; transition = appending a word; both queries, application and unpacking are run on every '
        'state: no exception may escape, and nothing is returned exactly where the refusal table says so')
BOUNDS = {
    'quick': '35 commands: all words at depth 1 (spellings, clusters, near misses, special words), depth 2 medium x 24 words, '
             'depth 3 over 14 words, all refusal rules x 0..6 operands x every single flag/option, every flag/option amid runs of 4..66 others, every option with 66 odd arguments, lines of 65..2100 operands, flags or options, malformed objects, 70 names like that of the command x 6 argument lists',
    'thorough': 'as quick with depth 2 medium x medium, depth 3 over 24 words, depth 4 over 11 words, all pairs of flags/options'}
ASSUMPTIONS = ['invocations come from the parser, or have unknown flag/option names (only for not raising)']


def cases(tier):
    r = []
    for cmd in model.ALL_COMMANDS:
        r.append([cmd, 'depth1', 0, tier])
        n = len(alpha.medium(cmd))
        for k in range(0, n, 30):
            r.append([cmd, 'depth2', k, tier])
        for n, d in ([(14, 3)] if tier == 'quick' else [(24, 3), (11, 4)]):
            for k in range(len(alpha.small(cmd, n))):
                r.append([cmd, 'trie', [n, d, k], tier])
        g = enumr.n_groups(cmd)
        for k in range(-1, g):
            r.append([cmd, 'rules', k, tier])
        r.append([cmd, 'odd', 0, tier])
        r.append([cmd, 'long', 0, tier])
        r.append([cmd, 'names', 0, tier])
    return r


def names_like(cmd):
    """names of other commands which look like the name of this one"""
    camel = ''.join(x.capitalize() for x in cmd.split('_'))
    n = [d + cmd for d in ('./', '/bin/', '/usr/bin/', '../', 'a/', '//', '~/', '.', '..', '-', '_', ' ', '\t', '\n', '\\', 'g', 'x', 'my', '\ufeff', '=', '$', '%', '"', "'", '#')]
    n += [cmd + d for d in ('/', '/.', '/x', '.sh', '.py', '.json', '.exe', '2', '0', '_', '-', '-x', '.', ' ', ' x', '\t', '\n', '\r', '\0', '=', '=x', ':', ';', ',', '*', 's', '\xa0', '\u0301', '"', "'", '#')]
    n += [cmd.upper(), cmd.capitalize(), camel, camel[:1].lower() + camel[1:], 'InputOutputInfoGenerator' + camel, 'Generator' + camel, cmd.replace('_', '-'), cmd.replace('_', ''), cmd * 2, cmd[::-1], cmd[:-1],
          cmd[1:], cmd[:1], cmd + ' ' + cmd, cmd + '/' + cmd, ''.join(chr(ord(c) + 0xfee0) for c in cmd), '', 'None', '_Interface', 'Interface']
    return [x for x in alpha.uniq(n) if x not in model.TABLES and x not in model.ALL_COMMANDS]


def check(words, ctx, lib):
    ctx.states += 1
    ctx.transitions += 1
    ctx.traces += 1
    text = lib.line(words)
    inv = lib.safe(lib.parse, text)
    if lib.raised(inv):
        ctx.violation('raises ' + text, 'parsing raises', None, inv)
        return
    ref = model.ref_parse(words)
    io, pa = lib.observe_io(inv), lib.observe_para(inv)
    for what, got, exp in (('I/O information', io, model.ref_io(ref)), ('parallelizability information', pa, model.ref_para(ref))):
        if lib.raised(got):
            ctx.violation('raises ' + text, what + ': raises', None, got)
        elif (got is None) != (exp is None):
            ctx.violation('refusal ' + text, what + (': answer instead of a refusal' if exp is None else ': refused'), exp, got)
    if io and not lib.raised(io) and (lib.raised(io[0]) or lib.raised(io[1])):
        ctx.violation('raises ' + text, 'applying the I/O information raises', None, io)
    ctx.outcome((words[0], io is None, pa is None))


def run_case(case, ctx):
    from mc import lib
    cmd, fam, arg, tier = case
    if fam == 'depth1':
        check([cmd], ctx, lib)
        for w in alpha.full(cmd):
            check([cmd, w], ctx, lib)
    elif fam == 'depth2':
        M = alpha.medium(cmd)
        S = alpha.small(cmd, 24) if tier == 'quick' else M
        for a in M[arg:arg + 30]:
            for b in S:
                check([cmd, a, b], ctx, lib)
    elif fam == 'trie':
        n, d, k = arg
        A = alpha.small(cmd, n)
        for rest in itertools.product(A, repeat=d - 1):
            check([cmd, A[k], *rest], ctx, lib)
    elif fam == 'rules':
        sels = [[]] if arg < 0 else list(enumr.selections_from(cmd, 1, arg)) + \
            (list(enumr.selections_from(cmd, 2, arg)) if tier == 'thorough' or cmd in ('mv', 'grep', 'sed', 'wc', 'uniq', 'comm', 'awk') else [])
        for sel in sels:
            for n in range(7):
                check([cmd] + sel + ['f%d' % i for i in range(n)], ctx, lib)
        ctx.sample([cmd] + sel)
    elif fam == 'long':
        for sel in enumr.long_selections(cmd):
            for ops in ([], ['x'], ['a', 'b'], ['a', 'b', 'c']):
                check([cmd] + sel + ops, ctx, lib)
        for ws in enumr.huge_lines(cmd, enumr.TAILS.get(cmd, ())):
            check([cmd] + ws, ctx, lib)
    elif fam == 'names':
        F = (alpha.flags(cmd) + ['-q'])[0]
        for n in names_like(cmd):
            for ws in ([], ['f'], ['a', 'b'], ['a', 'b', 'c'], [F, 'a'], ['-']):
                check([n, *ws], ctx, lib)
    elif fam == 'odd':
        # invocations that were not produced by the parser: the queries must not raise
        from pash_annotations.datatypes.BasicDatatypes import Flag, Option, Operand
        from pash_annotations.datatypes.CommandInvocationInitial import CommandInvocationInitial
        entries = [[], [Flag('-nosuch')], [Option('-nosuch', 'x')], [Flag('-n'), Option('-k', '1')], [Flag('')], [Option('-e', '')],
                   [Option('-t', 'a'), Option('-t', 'b')], [Option('--sort', ''), Option('-d', '\n')]]
        opsl = [[], [''], ['x'], ['-'], ['a', 'b'], ['a', 'b', 'c']]
        for fo in entries:
            for ops in opsl:
                inv = CommandInvocationInitial(cmd, list(fo), [Operand(o) for o in ops])
                ctx.states += 1
                ctx.transitions += 1
                ctx.traces += 1
                for f in (lib.io_info, lib.para_info):
                    r = lib.safe(f, inv)
                    if lib.raised(r):
                        ctx.violation(f'raises {cmd} {fo!r} {ops!r}', 'query raises', None, r)
