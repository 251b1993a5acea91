"""C14: edits of invocations with I/O variables - state graph against a list model."""
import enum, itertools
from mc import model

ID = 'C14'
RULE = ('state = (slots with access kinds and texts, number of edits); transition = one edit with fresh variables; every '
        'transition is executed on the real object by replaying the path from its initial invocation, and variables, names, '
        'texts, access map, generated inputs and outputs are compared with a list model; a sibling invocation built from the '
        'same parts must stay as it was')
BOUNDS = {
    'quick': '(a) all 25k initial invocations with 0..2 options and 0..2 operands over {text, 7 kinds} and implicit input/output '
             'x all single edits (up to 2 of them also with numbers falling from left to right, with fresh numbers below the present ones, and with numbers beyond 2^31); (b) 243 initial invocations over {text, config input, stream input, stream output, other output} '
             'x all edit sequences up to length 3; 5..12 and 25 operands or options of one kind with another one at every position, 65..1100 of one kind (edits of 8 of them)',
    'thorough': '(a) also all pairs of edits, (b) sequences up to length 4 and three operands'}
ASSUMPTIONS = ['edits bring in variables that the invocation does not use yet (or replace a variable by itself)',
               'the number of variables given to a substitution is the number of streams']
K = model.ACCESS
EDITS = ['sub_in', 'sub_out', 'sub_both', 'rep', 'rep_self', 'rep_none', 'rem_in', 'rem_out']


class Model:
    """slots: [group, name or None, 'F' | ('ARG', text) | var]; access: var -> kind"""

    def __init__(self, opts, ops, iin, iout, first=10, fresh=None, step=1):
        self.step = step
        self.n = first - step
        self.slots = []
        self.access = {}
        for i, k in enumerate(opts):
            self.slots.append(['fo', '-o%d' % i, self.place(k, 'opt%d' % i)])
            self.slots.append(['fo', '-f%d' % i, 'F'])
        for i, k in enumerate(ops):
            self.slots.append(['op', None, self.place(k, 'op%d' % i)])
        if iin:
            self.slots.append(['in', None, self.place(iin, '')])
        if iout:
            self.slots.append(['out', None, self.place(iout, '')])
        if fresh is not None:
            self.step = 1
            self.n = fresh - 1

    def place(self, k, text):
        if k == 'ARG':
            return ('ARG', text)
        v = self.fresh()
        self.access[v] = k
        return v

    def fresh(self):
        self.n += self.step
        return self.n

    def vars(self, kinds=None):
        return [s[2] for s in self.slots if type(s[2]) is int and (kinds is None or self.access[s[2]] in kinds)]

    def replace(self, old, new):
        for s in self.slots:
            if type(s[2]) is int and s[2] == old:
                s[2] = new
                self.access[new] = self.access.pop(old)
                return

    def remove(self, kind):
        gone = set(self.vars((kind,)))
        self.slots = [s for s in self.slots if not (type(s[2]) is int and s[2] in gone)]
        for v in gone:
            del self.access[v]

    def canon(self):
        fo = [('F', s[1]) if s[2] == 'F' else ('O', s[1], s[2]) for s in self.slots if s[0] == 'fo']
        one = {s[0]: s[2] for s in self.slots}
        return {'cmd': 'cmd', 'fo': fo, 'ops': [s[2] for s in self.slots if s[0] == 'op'], 'in': one.get('in'), 'out': one.get('out'),
                'access': dict(self.access)}


def build(m, lib, given=None):
    fo = []
    for g, name, x in [s for s in m.slots if s[0] == 'fo']:
        if x == 'F':
            fo.append(lib.Flag(name))
        elif type(x) is int:
            fo.append(lib.OptionWithIOVar(name, lib.another(x)))
        else:
            fo.append(lib.OptionWithIO(name, lib.ArgStringType(x[1])) if name.endswith('0') else lib.OptionWithIOVar(name, lib.ArgStringType(x[1])))
    ops = [lib.another(x) if type(x) is int else lib.ArgStringType(x[1]) for g, _, x in m.slots if g == 'op']
    one = {s[0]: s[2] if type(s[2]) is not int else lib.another(s[2]) for s in m.slots}
    am = {lib.another(v): lib.ACCESS_MAKERS[k]() for v, k in m.access.items()}
    return (fo, ops, one.get('in'), one.get('out'), am)


def apply(m, c, op, arg, ctx):
    """one edit on the model m and the real object c (numbers are given as objects of their own)"""
    from mc import lib
    ctx.transitions += 1
    if op in ('sub_in', 'sub_out', 'sub_both'):
        ins = m.vars(('STREAM_INPUT',)) if op != 'sub_out' else []
        outs = m.vars(('STREAM_OUTPUT',)) if op != 'sub_in' else []
        ni, no = [m.fresh() for _ in ins], [m.fresh() for _ in outs]
        if op == 'sub_in':
            c.substitute_inputs_in_cmd_invocation(list(ni))
        elif op == 'sub_out':
            c.substitute_outputs_in_cmd_invocation(list(no))
        else:
            c.substitute_inputs_and_outputs_in_cmd_invocation(list(ni), list(no))
        for o, n in zip(ins + outs, ni + no):
            m.replace(o, n)
    elif op == 'rep':
        v = m.vars()[arg]
        n = m.fresh()
        c.replace_var(lib.another(v), lib.another(n))
        m.replace(v, n)
    elif op == 'rep_self':
        v = m.vars()[arg]
        c.replace_var(lib.another(v), lib.another(v))
    elif op == 'rep_none':
        c.replace_var(m.fresh(), m.fresh())
    elif op == 'rem_in':
        c.remove_streaming_inputs()
        m.remove('STREAM_INPUT')
    elif op == 'rem_out':
        c.remove_streaming_outputs()
        m.remove('STREAM_OUTPUT')


def edits(m):
    n = len(m.vars())
    return [('sub_in', 0), ('sub_out', 0), ('sub_both', 0), ('rem_in', 0), ('rem_out', 0), ('rep_none', 0)] + \
        [('rep', i) for i in (range(n) if n < 65 else (0, 31, 32, 63, 64, n // 2, n - 2, n - 1))] + ([('rep_self', n - 1)] if n else [])


def compare(m, c, key, ctx, lib):
    got = lib.canon_vars(c)
    exp = m.canon()
    ok = ctx.expect(key, 'invocation differs from the model', exp, got)
    ctx.expect(key, 'streaming inputs', m.vars(('STREAM_INPUT',)), list(c.generate_inputs().get_streaming_inputs()))
    i = c.generate_inputs()
    cfg, ins = list(i.get_config_inputs()), list(i.get_streaming_inputs())
    for _ in range(2):
        ctx.expect(key, 'configuration, streaming and all inputs', (cfg, ins, cfg + ins),
                   (list(i.get_config_inputs()), list(i.get_streaming_inputs()), list(i.get_all_inputs())))
    ctx.expect(key, 'outputs', m.vars(model.OUTPUTS), list(c.generate_outputs()))
    ctx.expect(key, 'has_other_outputs', bool(m.vars(('OTHER_OUTPUT',))), c.has_other_outputs())
    if ok and lib.canon_vars(c) != got:
        ctx.violation(key, 'a query changed the invocation', got, lib.canon_vars(c))
    return ok


def explore(init, depth, ctx, lib, names=(10, None)):
    """all edit sequences up to the depth bound"""
    stack = [()]
    while stack:
        path = stack.pop()
        m = Model(*init, *names)
        parts = build(m, lib)
        c = lib.CommandInvocationWithIOVars('cmd', *parts)
        sib = lib.CommandInvocationWithIOVars('cmd', *parts)
        before = m.canon()
        key = f'options={init[0]} operands={init[1]} in={init[2]} out={init[3]} edits={list(path)} variables from {names}'
        err = None
        for op, arg in path:
            r = lib.safe(apply, m, c, op, arg, ctx)
            if lib.raised(r):
                err = r
                break
        ctx.states += 1
        ctx.traces += 1
        if err:
            ctx.violation(key, 'an edit raised an exception', None, err)
            continue
        ok = compare(m, c, key, ctx, lib)
        ctx.expect(key + ' sibling', 'an invocation built from the same parts changed', before, lib.canon_vars(sib))
        if not path:
            # the caller changes the parts it gave
            parts[0].append(lib.Flag('-later'))
            parts[1].append(99)
            parts[4][99] = lib.ACCESS_MAKERS['OTHER_OUTPUT']()
            ctx.expect(key + ' parts', 'changing the given parts changes the invocation', before, lib.canon_vars(c))
            for what, undo in spoiled(parts, lib):
                same = lib.canon_vars(c) == before == lib.canon_vars(sib)
                undo()
                if not same:
                    ctx.violation(key + ' parts', 'changing an object among the given parts changes the invocation', before, what)
                    break
        ctx.outcome((init, len(path), m.canon()['ops'], len(m.slots)))
        if ok and len(path) < depth:
            stack.extend(path + (e,) for e in edits(m))


def spoiled(parts, lib):
    """change each attribute of each object among the parts in turn (objects that refuse are left as they are)"""
    objs = []
    for x in [*parts[0], *parts[1], *parts[4].values()]:
        if hasattr(x, '__dict__') and len(objs) < 40:
            objs += [x] + [y for y in vars(x).values() if type(y) is lib.ArgStringType]
    for x in objs:
        for a, v in list(vars(x).items()):
            new = 98 if type(v) is int else 'changed' if isinstance(v, str) else \
                next(k for k in type(v) if k != v) if isinstance(v, enum.Enum) else None
            if new is None:
                continue
            try:
                setattr(x, a, new)
            except Exception:       # noqa: BLE001 -- immutable
                continue
            yield f'{type(x).__name__}.{a} of a given object', lambda: setattr(x, a, v)


MANY = ('ARG', 'STREAM_INPUT', 'CONFIG_INPUT', 'STREAM_OUTPUT', 'OTHER_OUTPUT', 'OTHER_INPUT')


def cases(tier):
    P = ['ARG'] + K
    r = []
    opts = [()] + [(a,) for a in P] + [(a, b) for a in P for b in P]
    for o in opts:
        r.append(['all', list(o), 1 if tier == 'quick' else 2])
    Q = [None, 'ARG', 'STREAM_INPUT', 'STREAM_OUTPUT', 'OTHER_OUTPUT', 'CONFIG_INPUT']
    for o in itertools.product(Q[:5] if tier == 'quick' else Q, repeat=1):
        for p in itertools.product(Q[:5] if tier == 'quick' else Q, repeat=2):
            r.append(['seq', [[x for x in o if x], [x for x in p if x]], 3 if tier == 'quick' else 4])
    r.append(['two options', [], 3])
    r += [['many', [n, x], 1] for n in (5, 6, 8, 9, 10, 11, 12, 25) for x in MANY]
    r += [['huge', [n, x], 1] for n in (65, 130, 300, 600, 1100) for x in MANY]
    r.append(['cat', [], 0])
    return r


def run_case(case, ctx):
    from mc import lib
    fam, a, depth = case
    P = ['ARG'] + K
    if fam == 'all':
        ops = [()] + [(x,) for x in P] + [(x, y) for x in P for y in P]
        for o in ops:
            for i in (None, 'STREAM_INPUT'):
                for u in (None, 'STREAM_OUTPUT', 'OTHER_OUTPUT'):
                    explore((tuple(a), o, i, u), depth, ctx, lib, (0, None))
                    if len(a) + len(o) <= 2:
                        explore((tuple(a), o, i, u), depth, ctx, lib, (100, 0))
                        explore((tuple(a), o, i, u), depth, ctx, lib, (60, 50, -1))
                        explore((tuple(a), o, i, u), depth, ctx, lib, (2 ** 31 - 2, 256))
    elif fam == 'seq':
        for i in (None, 'STREAM_INPUT'):
            for u in (None, 'STREAM_OUTPUT'):
                explore((tuple(a[0]), tuple(a[1]), i, u), depth, ctx, lib, (100000, 0))
        ctx.sample(a)
    elif fam == 'many':
        # one kind at every position among many of another one
        n, x = a
        for y in MANY:
            for pos in range(n) if n < 13 else (0, 9, 10, n - 1):
                l = tuple(y if k == pos else x for k in range(n))
                explore(((), l, None, 'STREAM_OUTPUT'), depth, ctx, lib, (1000, None))
                explore((l, ('ARG',), 'STREAM_INPUT', None), depth, ctx, lib, (200, 20, -1))
                if x == y:
                    explore((l, l, None, None), depth, ctx, lib, (0, None))
                    break
    elif fam == 'huge':
        n, x = a
        for y in ('ARG', 'STREAM_INPUT') if x != 'STREAM_INPUT' else ('STREAM_OUTPUT',):
            l = (x,) * (n - 1) + (y,)
            explore(((), l, None, 'STREAM_OUTPUT'), depth, ctx, lib, (1000, None))
            explore((l, (), 'STREAM_INPUT', None), depth, ctx, lib, (1000, None))
        explore((('ARG',), (x,) * n, 'STREAM_INPUT', None), depth, ctx, lib, (1000, None))
    elif fam == 'two options':
        for o in itertools.product(('STREAM_INPUT', 'STREAM_OUTPUT', 'CONFIG_INPUT'), repeat=2):
            explore((o, ('STREAM_INPUT',), None, 'STREAM_OUTPUT'), depth, ctx, lib)
        for o in itertools.product(('STREAM_INPUT', 'STREAM_OUTPUT', 'OTHER_OUTPUT', 'ARG'), repeat=4):
            explore(((), o, None, None), 2, ctx, lib)
            explore((o, (), None, 'STREAM_OUTPUT'), 2, ctx, lib)
    else:
        for n in list(range(0, 14)) + [40, 100, 130, 260, 520, 1100, 2100]:
            ins = list(range(120, 120 + n)) if n < 2000 else list(range(n + 60, 60, -1))
            c = lib.CommandInvocationWithIOVars.make_cat_command_invocation_with_io_vars(list(ins), 50)
            ctx.states += 1
            ctx.transitions += 1
            ctx.traces += 1
            exp = {'cmd': 'cat', 'fo': [], 'ops': ins, 'in': None, 'out': 50,
                   'access': {**{i: 'STREAM_INPUT' for i in ins}, 50: 'STREAM_OUTPUT'}}
            ctx.expect(f'cat of {n}', 'cat invocation', exp, lib.canon_vars(c))
            for perm in itertools.permutations(ins[:3]):
                given = list(perm)
                c = lib.CommandInvocationWithIOVars.make_cat_command_invocation_with_io_vars(given, 50)
                given.append(77)
                ctx.states += 1
                ctx.expect(f'cat of {perm}', 'cat invocation', list(perm), lib.canon_vars(c)['ops'])
                ctx.expect(f'cat of {perm}', 'streaming inputs', list(perm), c.generate_inputs().get_streaming_inputs())
                ctx.expect(f'cat of {perm}', 'outputs', [50], c.generate_outputs())
