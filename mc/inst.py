"""Reference instantiation of mappers and aggregators on canonical invocations, and synthetic invocations for it."""
import copy, itertools

from mc import model


def streams(c):
    """(streaming inputs, streaming outputs) of a canonical invocation, in traversal order"""
    from mc import lib
    vs = lib.used_vars(c)
    return ([v for v in vs if c['access'].get(v) == 'STREAM_INPUT'], [v for v in vs if c['access'].get(v) == 'STREAM_OUTPUT'])


def ref_mapper(c, mapper, i, o, aux):
    """c: canonical original (one streaming input, one streaming output); mapper: (kind, name, transformer, implemented)"""
    from mc import lib
    kind, name, tr, impl = mapper
    if not impl:
        return None
    fo = lib.ref_transform(tr, c['fo'])
    ins, outs = streams(c)
    sub = {ins[0]: i, outs[0]: o}
    f = lambda x: sub.get(x, x) if type(x) is int else x
    r = {'cmd': name or c['cmd']}
    if aux:
        r['fo'] = [(e[0], e[1], f(e[2])) if e[0] == 'O' else e for e in fo]
        r.update({'ops': [i, o] + list(aux), 'in': None, 'out': None})
    else:
        r['fo'] = [(e[0], e[1], f(e[2])) if e[0] == 'O' else e for e in fo]
        r['ops'] = [f(x) for x in c['ops']]
        r['in'], r['out'] = f(c['in']), f(c['out'])
    r['access'] = {v: c['access'].get(v) for v in lib.used_vars(r)}
    r['access'].update({i: 'STREAM_INPUT', o: 'STREAM_OUTPUT'})
    r['access'].update({a: 'STREAM_OUTPUT' for a in aux})
    return r


def ref_aggregator(c, agg, inputs, o):
    """agg: (kind, implemented [, 'string', text | 'transformer', tr])"""
    from mc import lib
    if not agg[1]:
        return None
    r = {'ops': list(inputs), 'in': None, 'out': o}
    if agg[0] == 'CONCATENATE':
        r.update({'cmd': 'cat', 'fo': []})
    elif agg[2] == 'string':
        cmd, fo, ops = model.ref_parse(agg[3].split())
        r.update({'cmd': cmd, 'fo': fo})
    else:
        gone = set(sum(streams(c), []))
        fo = [e for e in c['fo'] if not (e[0] == 'O' and type(e[2]) is int and e[2] in gone)]
        r.update({'cmd': c['cmd'], 'fo': lib.ref_transform(agg[3], fo)})
    r['access'] = {v: c['access'].get(v) for v in lib.used_vars(r)}
    r['access'].update({i: 'STREAM_INPUT' for i in inputs})
    r['access'][o] = 'STREAM_OUTPUT'
    return r


def compare(real, exp, orig_streams, key, what, ctx, lib):
    """real object against the expected canonical form; access map: used variables only, nothing of the original streams"""
    if exp is None or real is None:
        ctx.expect(key, what + ': instantiated although not implemented (or the other way round)', exp is None, real is None)
        return False
    got = lib.canon_vars(real)
    used = lib.used_vars(exp)
    acc = got.pop('access')
    e = dict(exp)
    eacc = e.pop('access')
    ok = ctx.expect(key, what + ': wrong invocation', e, got)
    ok &= ctx.expect(key, what + ': wrong access', eacc, {v: acc.get(v) for v in eacc})
    ok &= ctx.expect(key, what + ': access of the replaced streams is left', [],
                     [v for v in orig_streams if v in acc and v not in used])
    return ok


def instantiate_twice(make, exp, orig, c0, given, key, what, ctx, lib):
    """make() -> real object; judged twice, for independence and for side effects on the original and the given lists"""
    st = sum(streams(c0), [])
    given0 = copy.deepcopy(given)
    res = []
    for n in range(2):
        ctx.transitions += 1
        ctx.traces += 1
        r = lib.safe(make)
        if lib.raised(r):
            ctx.violation(key, what + ': raises', exp, r)
            return None
        if not compare(r, exp, st, key, what, ctx, lib):
            return None
        res.append(r)
    ctx.expect(key, what + ': the original invocation changed', c0, lib.canon_vars(orig))
    ctx.expect(key, what + ': the given lists changed', given0, given)
    if exp is None:
        return None
    if not res[0] == res[1]:
        ctx.violation(key, what + ': repeated instantiation gives unequal results')
    # results are independent of each other and of the original
    a = res[0]
    a.flag_option_list.append(lib.Flag('--probe'))
    a.operand_list.append(999)
    a.access_map[999] = lib.ACCESS_MAKERS['OTHER_OUTPUT']()
    for g in given:
        g.append(998)
    compare(res[1], exp, st, key, what + ' after changing the other result', ctx, lib)
    ctx.expect(key, what + ': changing the result changes the original invocation', c0, lib.canon_vars(orig))
    return res[1]


# ---------------------------------------------------------------- synthetic invocations
EXTRAS = ['flag', 'textopt', 'confopt', 'textop', 'confop', 'otheropt', 'exclop']


CMD_NAMES = ['./my/cmd', '/usr/bin/sort', 'cmd.sh', 'a b', '-', '--', 'CMD', '10', 'é', 'cat', 'grep', 'my-cmd_2', 'x' * 200, '[', 'cmd ', 'cmd/']


def synthetic(in_pos, out_pos, extras, order, lib, cmd='cmd'):
    """an invocation with I/O variables with one streaming input / output at the given position kind ('opt', 'op', 'imp')"""
    n = [1000]
    am = {}

    def var(k):
        n[0] += 1
        am[lib.another(n[0])] = lib.ACCESS_MAKERS[k]()
        return lib.another(n[0])
    fo, ops = [], []
    x_fo, x_ops = [], []
    for e in extras:
        if e == 'flag':
            x_fo += [lib.Flag('-n'), lib.Flag('-r'), lib.Flag('-n')]
        elif e == 'textopt':
            x_fo += [lib.OptionWithIO('-k', lib.ArgStringType(a)) for a in '121']
        elif e == 'confopt':
            x_fo.append(lib.OptionWithIOVar('-c', var('CONFIG_INPUT')))
        elif e == 'otheropt':
            x_fo.append(lib.OptionWithIOVar('-T', var('OTHER_OUTPUT')))
        elif e == 'textop':
            x_ops += [lib.ArgStringType('text'), lib.ArgStringType('1'), lib.ArgStringType('text')]
        elif e == 'confop':
            x_ops.append(var('CONFIG_INPUT'))
        elif e == 'exclop':
            x_ops.append(var('OTHER_INPUT'))
        elif e[0] == 'many':
            _, kind, k = e
            for j in range(k):
                if kind == 'flag':
                    x_fo.append(lib.Flag('-' + 'nrxy'[j % 4] if j % 5 else '--long-flag-%d' % j))
                elif kind == 'textopt':
                    x_fo.append(lib.OptionWithIO('-k', lib.ArgStringType(TEXTS[j % len(TEXTS)])))
                elif kind == 'confopt':
                    x_fo.append(lib.OptionWithIOVar('-c', var('CONFIG_INPUT')))
                elif kind == 'textop':
                    x_ops.append(lib.ArgStringType(TEXTS[j % len(TEXTS)]))
                else:
                    x_ops.append(var('CONFIG_INPUT'))
    imp = {'in': None, 'out': None}
    for d, pos, k in (('in', in_pos, 'STREAM_INPUT'), ('out', out_pos, 'STREAM_OUTPUT')):
        v = var(k)
        if pos == 'opt':
            fo.append(lib.OptionWithIOVar('-' + d, v))
        elif pos == 'op':
            ops.append(v)
        else:
            imp[d] = v
    if order == 'extras first':
        fo, ops = x_fo + fo, x_ops + ops
    elif order == 'extras last':
        fo, ops = fo + x_fo, ops + x_ops
    else:
        fo = x_fo[:1] + fo + x_fo[1:]
        ops = x_ops[:1] + ops[:1] + x_ops[1:] + ops[1:]
    return lib.CommandInvocationWithIOVars(cmd, fo, ops, imp['in'], imp['out'], am)


TEXTS = ['text', '1', '', '-', '--', '-n', '101', 'a b', "it's", '"q"', '$x', '*', 'a=b', '/dev/stdin', '~', 'x' * 300, '\\', 'é',
         '\n', 'text']


def wide():
    """invocations with many options or operands around the streams"""
    for in_pos, out_pos in itertools.product(('opt', 'op', 'imp'), repeat=2):
        for kind in ('flag', 'textopt', 'confopt', 'textop', 'confop'):
            for k in (4, 5, 6, 7, 8, 9, 10, 11, 12, 40, 130, 1100):
                for order in ('extras first', 'extras last', 'mixed') if k < 100 else ('mixed',) if (in_pos == out_pos) == (k > 1000) else ():
                    yield in_pos, out_pos, (('many', kind, k),), order


def synthetics(maxextra):
    for in_pos, out_pos in itertools.product(('opt', 'op', 'imp'), repeat=2):
        for k in range(maxextra + 1):
            for ex in itertools.combinations(EXTRAS, k):
                for order in ('extras first', 'extras last', 'mixed') if k else ('extras first',):
                    yield in_pos, out_pos, ex, order


# transformers used with synthetic invocations (none of them drops a stream option unless marked)
M, K2 = ('F', '-m'), ('O', '-k', ('ARG', '9'))
TRS = [('seq',), ('add', (M,)), ('add', (('F', '-n'), M)), ('remove', ('-n',)), ('remove', ('-n', '-r', '-k')), ('remove', ()),
       ('add', (K2,)), ('chain', (('remove', ('-r',)), ('add', (M,)))), ('filter', ('-n', '-in', '-out', '-c', '-T')),
       ('chain', (('filter', ('-k', '-in', '-out')), ('add', (M, K2)))), ('chain', ())]
DROPPING = [('empty',), ('custom', (M, K2)), ('filter', ('-k',)), ('custom', ())]


def build_tr(tr, lib):
    from pash_annotations.annotation_generation.datatypes.parallelizability import TransformerFlagOptionList as T
    k = tr[0]
    ent = lambda l: [lib.Flag(e[1]) if e[0] == 'F' else lib.OptionWithIO(e[1], lib.ArgStringType(e[2][1])) for e in l]
    if k == 'seq':
        return T.make_transformer_same_as_seq()
    if k == 'empty':
        return T.make_transformer_empty()
    if k in ('filter', 'remove'):
        return {'filter': T.make_transformer_filter, 'remove': T.make_transformer_remove}[k](list(tr[1]))
    if k in ('add', 'custom'):
        return {'add': T.make_transformer_add, 'custom': T.make_transformer_custom}[k](ent(tr[1]))
    return T.ChainTransformerFlagOptionList([build_tr(t, lib) for t in tr[1]])


def offered(cmd, k, first, tier, ctx, lib, ops_limit=None):
    """(key, wired invocation, canonical original, [(real parallelizer, reference strategy)]) of enumerated invocations with one
    streaming input and one streaming output"""
    from mc import enumr
    opls = enumr.operand_lists(cmd, small=True)[:8:3] if k == 'odd' else enumr.operand_lists(cmd, small=k > 1)
    if ops_limit:
        opls = opls[:ops_limit]
    for sel in enumr.odd_values(cmd) if k == 'odd' else enumr.selections_from(cmd, k, first):
        ctx.transitions += 1
        for ops in opls:
            words = [cmd] + sel + ops
            ref_inv = model.ref_parse(words)
            ref = model.ref_para(ref_inv)
            io = model.ref_io(ref_inv)
            if ref is None or io is None:
                continue
            kinds = [x for x in io['opts'] if x] + io['ops']
            if kinds.count('STREAM_INPUT') + io['in'] != 1 or kinds.count('STREAM_OUTPUT') + io['out'] != 1:
                continue
            text = lib.line(words)
            inv = lib.safe(lib.parse, text)
            if lib.raised(inv) or lib.raised(lib.safe(lib.io_info, inv)) or lib.io_info(inv) is None:
                ctx.count('skipped (other property)')
                continue
            info = lib.safe(lib.para_info, inv)
            w = lib.safe(lib.Wired, inv)
            if info is None or lib.raised(info) or lib.raised(w):
                ctx.count('skipped (other property)')
                continue
            c0 = lib.canon_vars(w.inv)
            s = streams(c0)
            if len(s[0]) != 1 or len(s[1]) != 1:
                ctx.count('skipped (other property)')
                continue
            real = info.unpack_info()[0]
            refs = model.ref_inferred(*ref)
            if len(real) != len(refs):
                ctx.count('skipped (other property)')
                continue
            ctx.states += 1
            yield text, w, c0, list(zip(real, refs))
