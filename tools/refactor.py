"""python3 tools/refactor.py REPO KIND...: rewrite the sources of a scratch copy of the repository without changing what they do.
KINDS: ret (name returned values), inv (swap branches), comp (comprehensions to loops), order (reverse methods and functions), local (rename local
variables), nest (conjunctions to nested ifs), assert (assertions to raises), helper (bodies of methods to helpers), enum (loops over
enumerate), lists (reverse lists of names that are only searched), kw (reverse keyword arguments), noop (statements without effect),
guard (else after return dropped).  Checks have to stay quiet on the result; used with tools/refrun.sh."""
import ast, copy, glob, os, sys

FUN = (ast.FunctionDef,)


def own(fn):
    """nodes of a function without those of nested functions and classes"""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            todo += ast.iter_child_nodes(n)


def blocks(tree):
    for n in ast.walk(tree):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def name(i, ctx=None):
    return ast.Name(i, ctx or ast.Load())


def ret(t):
    for fn in [n for n in ast.walk(t) if isinstance(n, FUN)]:
        for o, f, b in list(blocks(fn)):
            new = []
            for s in b:
                if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                    new += [ast.Assign([name('result_value', ast.Store())], s.value, lineno=1), ast.Return(name('result_value'))]
                else:
                    new.append(s)
            setattr(o, f, new)


def inv(t):
    for n in ast.walk(t):
        if isinstance(n, ast.If) and n.orelse:
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        elif isinstance(n, ast.IfExp):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body


def comp(t):
    k = 0
    for fn in [n for n in ast.walk(t) if isinstance(n, FUN)]:
        for o, f, b in list(blocks(fn)):
            new = []
            for s in b:
                v = getattr(s, 'value', None)
                if isinstance(s, (ast.Return, ast.Assign, ast.AnnAssign)) and isinstance(v, ast.ListComp) and not any(g.is_async for g in v.generators) \
                        and (not isinstance(s, ast.Assign) or len(s.targets) == 1) and not any(isinstance(x, ast.Lambda) for x in ast.walk(v)):
                    k += 1
                    acc = f'collected_{k}'
                    mp = {x.id: f'{x.id}_c{k}' for g in v.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                    first = v.generators[0].iter
                    v = copy.deepcopy(v)
                    for x in ast.walk(v):
                        if isinstance(x, ast.Name) and x.id in mp:
                            x.id = mp[x.id]
                    v.generators[0].iter = first
                    body = [ast.Expr(ast.Call(ast.Attribute(name(acc), 'append', ast.Load()), [v.elt], []))]
                    for g in reversed(v.generators):
                        for c in reversed(g.ifs):
                            body = [ast.If(c, body, [])]
                        body = [ast.For(g.target, g.iter, body, [], lineno=1)]
                    new += [ast.Assign([name(acc, ast.Store())], ast.List([], ast.Load()), lineno=1)] + body
                    s.value = name(acc)
                new.append(s)
            setattr(o, f, new)


def order(t):
    for n in [t] + [n for n in ast.walk(t) if isinstance(n, ast.ClassDef)]:
        i = [k for k, s in enumerate(n.body) if isinstance(s, FUN)]
        fs = [n.body[k] for k in i]
        if isinstance(n, ast.Module) and (any(f.decorator_list or f.args.defaults for f in fs) or not all(
                isinstance(s, FUN + (ast.Import, ast.ImportFrom)) for s in (n.body[i[0]:i[-1] + 1] if i else []))):
            continue
        if any(f.decorator_list and not all(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'abstractmethod') for d in f.decorator_list)
               for f in fs) or len({f.name for f in fs}) < len(fs):
            continue
        for k, f in zip(i, reversed(fs)):
            n.body[k] = f


def local(t):
    for fn in [n for n in ast.walk(t) if isinstance(n, FUN)]:
        inner = [n for n in ast.walk(fn) if n is not fn and isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Global, ast.Nonlocal))]
        if inner or any(isinstance(n, ast.Name) and n.id in ('exec', 'eval', 'locals', 'vars', 'globals') for n in ast.walk(fn)):
            continue
        args = {a.arg for n in ast.walk(fn) if isinstance(n, ast.arguments) for a in n.args + n.kwonlyargs + n.posonlyargs + [x for x in (n.vararg, n.kwarg) if x]}
        st = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - args
        st -= {a.asname or a.name for n in ast.walk(fn) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        for s in fn.body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and n.id in st:
                    n.id += '_renamed'


def nest(t):
    for n in list(ast.walk(t)):
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            body = n.body
            for v in reversed(n.test.values[1:]):
                body = [ast.If(v, body, [])]
            n.test, n.body = n.test.values[0], body


def assert_(t):
    for o, f, b in list(blocks(t)):
        setattr(o, f, [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Raise(ast.Call(name('AssertionError'), [s.msg] if s.msg else [], []), None)], [])
                       if isinstance(s, ast.Assert) else s for s in b])


def helper(t):
    for c in [n for n in ast.walk(t) if isinstance(n, ast.ClassDef)]:
        new = []
        for f in c.body:
            if isinstance(f, FUN) and not f.decorator_list and not f.name.startswith('__') and not f.args.vararg and not f.args.kwarg \
                    and not any(isinstance(n, ast.Name) and n.id in ('super', '__class__') for n in ast.walk(f)) and f.args.args:
                # the helper is a function of the module, so that subclasses which override the method are unaffected
                h = copy.deepcopy(f)
                h.name = f'_{c.name}_{f.name}_body'.replace('__', '_')
                call = ast.Call(name(h.name), [name(a.arg) for a in f.args.args], [ast.keyword(a.arg, name(a.arg)) for a in f.args.kwonlyargs])
                h.returns = None
                h.args.defaults = []
                h.args.kw_defaults = [None] * len(h.args.kwonlyargs)
                for a in h.args.args + h.args.kwonlyargs:
                    a.annotation = None
                f.body = [ast.Return(call)]
                new.append(h)
        t.body += new


def enum(t):
    k = 0
    for fn in [n for n in ast.walk(t) if isinstance(n, FUN)]:
        for n in list(own(fn)):
            if isinstance(n, ast.For) and not (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'enumerate'):
                k += 1
                n.iter = ast.Call(name('enumerate'), [n.iter], [])
                n.target = ast.Tuple([name(f'position_{k}', ast.Store()), n.target], ast.Store())


def lists(t):
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'does_flag_option_list_contain_at_least_one_of' \
                and isinstance(n.args[0], ast.List):
            n.args[0].elts.reverse()
        if isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], ast.List):
            n.comparators[0].elts.reverse()


def kw(t):
    for n in ast.walk(t):
        if isinstance(n, ast.Call):
            n.keywords.reverse()


def noop(t):
    for o, f, b in list(blocks(t)):
        if isinstance(o, (ast.FunctionDef, ast.If, ast.For, ast.While)):
            b.insert(len(b) - 1 if isinstance(b[-1], (ast.Return, ast.Raise, ast.Break, ast.Continue)) else len(b), ast.Pass())
            b.insert(0, ast.Expr(ast.Constant(None)))


def guard(t):
    for o, f, b in reversed(list(blocks(t))):
        new = []
        for s in b:
            new.append(s)
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                new += s.orelse
                s.orelse = []
        setattr(o, f, new)


KINDS = {'ret': ret, 'inv': inv, 'comp': comp, 'order': order, 'local': local, 'nest': nest, 'assert': assert_, 'helper': helper, 'enum': enum,
         'lists': lists, 'kw': kw, 'noop': noop, 'guard': guard}


def main():
    repo, kinds = sys.argv[1], sys.argv[2:]
    assert os.path.realpath(repo) != '/repo'
    n = 0
    for p in sorted(glob.glob(repo + '/pash_annotations/**/*.py', recursive=True)):
        if '/tests/' in p or os.path.basename(p).startswith('test_'):
            continue
        src = open(p).read()
        t = ast.parse(src)
        for k in kinds:
            KINDS[k](t)
            t = ast.parse(ast.unparse(ast.fix_missing_locations(t)))
        new = ast.unparse(t) + '\n'
        if new != ast.unparse(ast.parse(src)) + '\n':
            n += 1
        open(p, 'w').write(new)
    print(n, 'files rewritten')


if __name__ == '__main__':
    main()
