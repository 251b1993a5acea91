"""python3 tools/mutate.py OUTDIR [--jobs N] [--only FILE-SUBSTRING]: systematic small changes of /repo's Python source.

Development tool (no registered check uses it): every change of the operators below is applied to a scratch copy,
those which keep the stable tests passing are run against the checks, and survivors are listed for inspection."""
import ast, copy, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent/pycache', PYTHONHASHSEED='0')
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Lt: [ast.LtE, ast.GtE],
       ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}


def mutants(src):
    """(line, description, new source)"""
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    doc = set()
    for n in nodes:
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(id(n.value)); doc.add(id(n))
        if isinstance(n, (ast.FunctionDef, ast.AnnAssign, ast.arg)):
            ann = [getattr(n, 'returns', None), getattr(n, 'annotation', None)]
            for a in ann:
                if a is not None:
                    for m in ast.walk(a):
                        doc.add(id(m))
        if isinstance(n, ast.FunctionDef) and n.name in ('__repr__', '__str__'):
            for m in ast.walk(n):
                doc.add(id(m))
        if isinstance(n, (ast.Raise, ast.Assert)):
            for m in ast.walk(n):
                if isinstance(m, ast.Constant) or isinstance(m, ast.JoinedStr):
                    doc.add(id(m))
    for i, n in enumerate(nodes):
        if id(n) in doc:
            continue

        def var(edit, what, i=i, n=n):
            t = copy.deepcopy(tree)
            # deepcopy keeps walk order
            m = list(ast.walk(t))[i]
            r = edit(m, t)
            ast.fix_missing_locations(t)
            try:
                s = ast.unparse(t)
                compile(s, 'x', 'exec')
            except Exception:
                return None
            return (getattr(n, 'lineno', 0), what, s)

        def setf(f, v):
            def e(m, t):
                setattr(m, f, v(m) if callable(v) else v)
            return e
        out = []
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                out.append(var(setf('ops', lambda m, o=o: [o()]), f'{type(n.ops[0]).__name__}->{o.__name__}'))
        if isinstance(n, ast.BoolOp):
            out.append(var(setf('op', lambda m: ast.Or() if isinstance(m.op, ast.And) else ast.And()), 'and<->or'))
            for k in range(len(n.values)):
                if len(n.values) > 1:
                    out.append(var(setf('values', lambda m, k=k: m.values[:k] + m.values[k + 1:] + ([m.values[:k] + m.values[k + 1:]][0] if len(m.values) == 2 else [])), f'drop operand {k}'))
        if isinstance(n, (ast.If, ast.IfExp)):
            out.append(var(setf('test', lambda m: ast.UnaryOp(ast.Not(), m.test)), 'negate condition'))
            out.append(var(setf('test', ast.Constant(True)), 'condition True'))
            out.append(var(setf('test', ast.Constant(False)), 'condition False'))
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for k, g in enumerate(n.generators):
                for q in range(len(g.ifs)):
                    def e(m, t, k=k, q=q):
                        del m.generators[k].ifs[q]
                    out.append(var(e, 'drop filter'))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append(var(setf('operand', lambda m: ast.UnaryOp(ast.Not(), m.operand)), 'drop not'))
        if isinstance(n, ast.Constant) and not isinstance(n.value, type(None)):
            v = n.value
            if isinstance(v, bool):
                out.append(var(setf('value', not v), f'{v}->{not v}'))
            elif isinstance(v, int):
                out.append(var(setf('value', v + 1), f'{v}->{v + 1}'))
                if v:
                    out.append(var(setf('value', v - 1), f'{v}->{v - 1}'))
            elif isinstance(v, str):
                out.append(var(setf('value', v + 'X'), f'{v!r}+X'))
                if v:
                    out.append(var(setf('value', ''), f'{v!r}->empty'))
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            out.append(var(setf('value', ast.Constant(None)), 'return None'))
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)) and isinstance(getattr(n, 'ctx', ast.Load()), ast.Load) and n.elts:
            for k in range(len(n.elts)):
                out.append(var(setf('elts', lambda m, k=k: m.elts[:k] + m.elts[k + 1:]), f'drop element {k}'))
            if len(n.elts) > 1:
                out.append(var(setf('elts', lambda m: m.elts[::-1]), 'reverse elements'))
        if isinstance(n, ast.Dict):
            for k in range(len(n.keys)):
                def e(m, t, k=k):
                    del m.keys[k], m.values[k]
                out.append(var(e, f'drop entry {k}'))
        if isinstance(n, ast.Call):
            if len(n.args) >= 2:
                for k in range(len(n.args) - 1):
                    def e(m, t, k=k):
                        m.args[k], m.args[k + 1] = m.args[k + 1], m.args[k]
                    out.append(var(e, f'swap arguments {k},{k + 1}'))
            for k in range(len(n.keywords)):
                def e(m, t, k=k):
                    del m.keywords[k]
                out.append(var(e, f'drop keyword {n.keywords[k].arg}'))
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
            if name in ('copy', 'deepcopy', 'list', 'set', 'sorted', 'reversed', 'tuple', 'str', 'dict') and len(n.args) == 1:
                def e(m, t):
                    a = m.args[0]
                    for fld in ast.walk(t):
                        for fn, val in ast.iter_fields(fld):
                            if val is m:
                                setattr(fld, fn, a)
                            elif isinstance(val, list):
                                for q, x in enumerate(val):
                                    if x is m:
                                        val[q] = a
                out.append(var(e, f'unwrap {name}'))
            if name in ('extend', 'append'):
                pass
            if name == 'isinstance' and len(n.args) == 2:
                pass
            if name == 'any' or name == 'all':
                out.append(var(setf('func', ast.Name('all' if name == 'any' else 'any', ast.Load())), 'any<->all'))
        if isinstance(n, ast.BinOp):
            if isinstance(n.op, (ast.Add, ast.Sub)):
                out.append(var(setf('op', ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()), '+<->-'))
                for side in ('left', 'right'):
                    def e(m, t, side=side):
                        a = getattr(m, side)
                        for fld in ast.walk(t):
                            for fn, val in ast.iter_fields(fld):
                                if val is m:
                                    setattr(fld, fn, a)
                                elif isinstance(val, list):
                                    for q, x in enumerate(val):
                                        if x is m:
                                            val[q] = a
                    out.append(var(e, f'only {side} of {type(n.op).__name__}'))
                def e(m, t):
                    m.left, m.right = m.right, m.left
                out.append(var(e, 'swap sides'))
        if isinstance(n, ast.Slice):
            if n.lower is not None:
                out.append(var(setf('lower', None), 'no lower bound'))
            if n.upper is not None:
                out.append(var(setf('upper', None), 'no upper bound'))
        if isinstance(n, (ast.Break,)):
            out.append(var(lambda m, t: setattr(m, '__class__', ast.Continue), 'break->continue'))
        if isinstance(n, (ast.Continue,)):
            out.append(var(lambda m, t: setattr(m, '__class__', ast.Break), 'continue->break'))
        # statement deletion / swap
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                for k, st in enumerate(b):
                    if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Assert, ast.Delete, ast.For)) and id(st) not in doc:
                        def e(m, t, fld=fld, k=k):
                            getattr(m, fld)[k] = ast.Pass()
                        o = var(e, 'delete statement')
                        if o:
                            out.append((st.lineno, 'delete: ' + ast.unparse(st)[:60], o[2]))
                        if k + 1 < len(b) and not isinstance(n, ast.ClassDef) and not isinstance(n, ast.Module):
                            def e(m, t, fld=fld, k=k):
                                l = getattr(m, fld)
                                l[k], l[k + 1] = l[k + 1], l[k]
                            o = var(e, 'swap')
                            if o:
                                out.append((st.lineno, 'swap with next: ' + ast.unparse(st)[:50], o[2]))
        # attribute siblings
        if isinstance(n, ast.Attribute):
            SIB = [('operand_list', 'flag_option_list'), ('implicit_use_of_streaming_input', 'implicit_use_of_streaming_output'),
                   ('streaming', 'all_inputs'), ]
            m = re.match(r'(.*)_(input|output)(s?.*)$', n.attr)
            if m:
                o = 'output' if m.group(2) == 'input' else 'input'
                new = f'{m.group(1)}_{o}{m.group(3)}'
                if new in src:
                    out.append(var(setf('attr', new), f'{n.attr}->{new}'))
        for o in out:
            if o and o[2] != ast.unparse(tree):
                yield o


def stage1(job):
    f, k, line, what, src, top = job
    repo = tempfile.mkdtemp(prefix='m-', dir=top)
    try:
        subprocess.check_call(['cp', '-a', '/repo/.', repo])
        open(os.path.join(repo, f), 'w').write(src)
        env = dict(ENV, PYTHONPATH=repo)
        try:
            subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', '-o', 'junit_family=xunit2',
                            '--junitxml=' + repo + '/j.xml'], cwd=repo, env=env, capture_output=True, timeout=120)
            subprocess.run([PY, '/opt/vp/results.py', repo + '/r.json', 'junit:' + repo + '/j.xml'], cwd=repo, env=env, capture_output=True)
            passed = set(json.load(open(repo + '/r.json'))['passed'])
        except Exception:
            return job, False
        return job, not (STABLE - passed)
    finally:
        shutil.rmtree(repo)


def main():
    out = sys.argv[1]
    jobs = int(sys.argv[sys.argv.index('--jobs') + 1]) if '--jobs' in sys.argv else 8
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else ''
    os.makedirs(out, exist_ok=True)
    files = subprocess.check_output(['git', '-C', '/repo', 'ls-files', '*.py'], text=True).split()
    files = [f for f in files if 'test' not in f.lower().replace('testone', '').replace('testtwo', '') and 'old_annotations' not in f and f != 'setup.py' and only in f]
    todo = []
    for f in files:
        seen = set()
        for k, (line, what, src) in enumerate(mutants(open('/repo/' + f).read())):
            if src in seen:
                continue
            seen.add(src)
            todo.append((f, k, line, what, src, out))
    print(len(todo), 'mutants', flush=True)
    if '--count' in sys.argv:
        from collections import Counter
        for f, c in Counter(t[0] for t in todo).most_common():
            print(c, f)
        return
    alive = 0
    with ThreadPoolExecutor(jobs) as ex, open(os.path.join(out, 'stage1.jsonl'), 'w') as fo:
        for job, ok in ex.map(stage1, todo):
            if ok:
                alive += 1
                fo.write(json.dumps({'file': job[0], 'k': job[1], 'line': job[2], 'what': job[3], 'src': job[4]}) + '\n')
                fo.flush()
    print(alive, 'pass the tests')


if __name__ == '__main__':
    main()
