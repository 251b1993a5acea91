"""C13: histories of queries - every step compared with the same query in a fresh process, earlier results re-inspected."""
import itertools, json, os, pickle, subprocess, sys
from mc import alpha, enumr, model

ID = 'C13'
RULE = ('state = history of operations (one process each, forked from a process that never called the library); transition = one '
        'operation: complete query of a line (parse, I/O, apply, parallelizability, infer, wire, instantiate), the same in the '
        'other order, queries repeated on the last invocation object, caller changes everything it was given last; every answer '
        'is compared with that of a fresh interpreter, every earlier unchanged result is inspected again at the end')
BOUNDS = {
    'quick': 'all histories of length 3 over 26 operations (22 lines of colliding commands) and of length 4 over 9; all ordered pairs of 100..230 easily confused lines of each of 35 commands (asked in one process per 12 distances) and of the 35 commands with n operands, n <= 12; fresh '
             'interpreters in 5 working directories (files or directories named like the words in them) x 4 environments x 3 hash seeds',
    'thorough': 'all histories of length 3 over 40 operations, of length 4 over 16 and of length 5 over 7'}
ASSUMPTIONS = ['callers change lists and attributes of invocations, information objects and parallelizers, not the value objects in them (which may be shared constants)']
LINES = ['sort -n -k 2 f', 'sort', 'sort -n', 'custom_sort -r', 'grep pat', "grep -c pat f", "grep -e x -f pats", "tr -d '\\n'", "tr a-z A-Z", 'cut -d , -f 1 f',
         'uniq -c', 'uniq', 'bigrams_aux', 'alt_bigrams_aux', 'sed s/a/b/ f', "sed '/x/d'", 'foo -x y', 'cat - f', 'xargs -n 2 echo', 'set_diff f',
         'test_one', 'mv a b', 'test_two', 'sort -o out -T tmp -u f', 'comm a b', 'rm -rf x', 'head -n 1 f', 'tr -s a b', 'col -b', 'custom_tr x', 'tee a',
         'wc -l', 'grep -qv x -', 'diff a b', 'sort --parallel=2 -m f', 'cut --zero-terminated -f1']
SMALL = [0, 2, 4, 7, 12, 16]


def alphabet(n):
    """operations: ('q', line) ('p', line) query; 'again'; 'spoil'"""
    return [['q', i] for i in range(n)] + [['p', 0], ['p', 4], ['again', 0], ['spoil', 0]]


def small_alphabet(k):
    a = [['q', i] for i in (0, 2, 7, 12, 4)] + [['again', 0], ['spoil', 0], ['p', 2], ['q', 1], ['q', 16], ['q', 3], ['q', 17], ['q', 20], ['q', 22], ['p', 12], ['q', 9]]
    return a[:k]


def sets(tier):
    if tier == 'quick':
        return [(alphabet(22), 3), (small_alphabet(9), 4)]
    return [(alphabet(36), 3), (small_alphabet(16), 4), (small_alphabet(7), 5)]


def cases(tier):
    r = [['env', e, None, tier] for e in environments()]
    for cmd in model.ALL_COMMANDS:
        n = len(confusables(cmd))
        step = 12
        r += [['tour', cmd, [k, min(k + step, n)], tier] for k in range(1, n, step)]
    r += [['tour', n, [1, len(model.ALL_COMMANDS)], tier] for n in range(13)]
    for k, (A, d) in enumerate(sets(tier)):
        for i in range(len(A)):
            for j in range(len(A)):
                r.append(['hist', k, [i, j], tier])
    return r


def confusables(cmd):
    """command lines which agree in a lot: same words in another order, same text split differently, same arguments of another
    command, one flag, argument or operand more, less or different"""
    from mc import lib
    if type(cmd) is int:       # every command with so many operands
        return [lib.line([c] + ['abcdefghijklm'[i] for i in range(cmd)]) for c in model.ALL_COMMANDS]
    F = (alpha.flags(cmd) + ['-q', '-w'])[:2]
    O = [g[0][0] for g in enumr.groups(cmd) if len(g[0]) == 2][:2] + ['-o', '-p']
    x, y, z = (enumr.FIRST.get(cmd, []) + ['x', 'y', 'z'])[:3]
    f, g, o = F[0], F[1], O[0]
    t = [[], [x], [y], [x, y], [y, x], [x + ' ' + y], [x + y], [x, ''], ['', x], [x, x], [x.upper() + 'X'], [' ' + x], ['-', x], [x, '-'], [x, y, z],
         [x, z, y], [x, y + ' ' + z], [x, 'in'], [f], [f, x], [g, x], [f, g, x], [g, f, x], [f, f, x], [x, f], [f + ' ' + x], ['--', f, x],
         [o, '1', x], [o, '2', x], [o, '1 ' + x], [o, x, '1'], [x, o, '1'], [f, o, '1', x], [o, '1', f, x], [o, '1', o, '2', x], [o, '2', o, '1', x],
         [o, f, x], [o, '1', x, y], [o, '1', '-'], [O[1], '1', x]]
    t += [v + [x] for gr in enumr.groups(cmd) for v in gr] + [v + ['x', 'y'] for gr in enumr.groups(cmd) for v in gr[:2]]
    t += [[v] for v in enumr.FIRST.get(cmd, [])] + [[v, 'f'] for v in enumr.FIRST.get(cmd, [])]
    r = [lib.line([cmd] + ws) for ws in t]
    # commands nothing is known about, with names like the one of this command
    for n in (cmd[:-1] + 'x', 'x' + cmd[1:], cmd[:2] + 'zzzzzzzzzzzz'[:len(cmd) - 2], cmd.capitalize(), cmd[::-1], cmd + 'x', cmd[:1] + 'q' * (len(cmd) - 1)):
        if n not in model.TABLES:
            r += [lib.line([n] + ws) for ws in ([], [x, y], [f, x], [o, '1', x])]
    for other in ('sort', 'custom_sort', 'tr', 'foo', 'uniq', 'cat'):
        r += [lib.line([other] + ws) for ws in ([], [x], [f, x], [o, '1', x])]
    return alpha.uniq(r)


class Light:
    """parse, annotate, apply"""

    def __init__(self, text):
        from mc import lib
        self.inv = lib.parse(text)
        self.io = lib.io_info(self.inv)
        self.w = self.io and self.io.apply_input_output_info_to_command_invocation(self.inv)
        self.p = lib.para_info(self.inv)

    def observe(self):
        from mc import lib, chain
        return (lib.canon_inv(self.inv), self.io and (lib.canon_withio(self.w), self.io.has_other_outputs()),
                self.p and ([chain.short_parallelizer(x) for x in self.p.get_inferred_parallelizer_list()], self.p.is_commutative))


def tour_case(cmd, b, ctx):
    """one history of a process which asks every line directly after the line k before it, for all k in the range, both ways"""
    L = confusables(cmd)
    base = {}
    for t in L:
        base[t], err = in_child(lambda: Light(t).observe())
        if err:
            ctx.violation('query of ' + t, 'raises', None, err)
            return
        ctx.states += 1

    def tour():
        n, kept, seen, asked = 0, [], set(), []
        for k in range(*b):
            for i in range(len(L)):
                for t in (L[i], L[(i + k) % len(L)]):
                    c = Light(t)
                    asked.append(t)
                    n += 1
                    if c.observe() != base[t]:
                        return n, (asked[-3:], t, base[t], c.observe())
                    if t not in seen:
                        seen.add(t)
                        kept.append((t, c))
        for t, c in kept:
            if c.observe() != base[t]:
                return n, (['later inspection'], t, base[t], c.observe())
        return n, None
    res, err = in_child(tour)
    ctx.traces += 1
    if err:
        ctx.violation(f'tour {cmd} {b}', 'an operation raises', None, err)
        return
    ctx.transitions += res[0]
    ctx.count('queries in tours', res[0])
    ctx.outcome((cmd, b, res[1] is None))
    if res[1]:
        ctx.violation(f'tour {cmd}: ' + res[1][1], f'differs from a fresh process, after {res[1][0]}', res[1][2], res[1][3])


def in_child(f):
    """runs f in a forked process; (result, error)"""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            try:
                res = (f(), None)
            except BaseException as e:
                import traceback
                res = (None, f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-800:])
            with os.fdopen(wfd, 'wb') as w:
                pickle.dump(res, w)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(wfd)
    with os.fdopen(rfd, 'rb') as r:
        data = r.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else (None, 'process died')


_base = {}


def baseline(i, para_first=False):
    """answers about a line in a process that was asked nothing before"""
    k = (i, para_first)
    if k not in _base:
        from mc import chain
        _base[k] = in_child(lambda: chain.Chain(LINES[i], para_first).observe())
    return _base[k]


def history(ops):
    """-> list of violations (step, what, expected, observed); library calls happen here only"""
    from mc import chain
    chains, spoiled, bad = [], set(), []

    def judge(n, c, what):
        e, err = BASE[(c.i, c.pf)]
        got = c.observe()
        if got != e:
            k = next((k for k in range(min(len(e), len(got))) if e[k] != got[k]), -1)
            bad.append((n, what + ' of ' + LINES[c.i], e[k] if k >= 0 else len(e), got[k] if k >= 0 else len(got)))
    for n, (op, i) in enumerate(ops):
        if op in 'qp':
            c = chain.Chain(LINES[i], op == 'p')
            c.i, c.pf = i, op == 'p'
            chains.append(c)
            judge(n, c, 'query')
        elif op == 'again' and chains and len(chains) - 1 not in spoiled:
            l = chains[-1]
            c = chain.Chain(LINES[l.i], l.pf, inv=l.inv)
            c.i, c.pf = l.i, l.pf
            chains.append(c)
            judge(n, c, 'repeated query')
        elif op == 'spoil' and chains:
            l = chains[-1]
            l.spoil()
            spoiled.update(k for k, c in enumerate(chains) if c is l or c.inv is l.inv)
    for k, c in enumerate(chains):
        if k not in spoiled:
            judge(len(ops), c, f'later inspection of result {k}')
    return bad


BASE = {}


def run_case(case, ctx):
    fam, a, b, tier = case
    if fam == 'env':
        return env_case(*a, ctx)
    if fam == 'tour':
        return tour_case(a, b, ctx)
    A, depth = sets(tier)[a]
    global BASE
    BASE = {}
    for op, i in A:
        if op in 'qp':
            BASE[(i, op == 'p')] = baseline(i, op == 'p')
            if BASE[(i, op == 'p')][1]:
                ctx.violation(f'query of {LINES[i]}', 'raises', None, BASE[(i, op == 'p')][1])
                return
    # queries of both orders give the same information
    heads = [A[i] for i in b]
    for d in range(depth - 1):
        if d == 0:
            if depth == 3 or tier == 'thorough':
                rests = [()]
            else:
                continue
        elif d < depth - 2:
            continue
        else:
            rests = itertools.product(A, repeat=d)
        for rest in rests:
            ops = heads + list(rest)
            ctx.states += 1
            ctx.transitions += len(ops)
            ctx.traces += 1
            bad, err = in_child(lambda: history(ops))
            key = 'history ' + ' ; '.join(f'{o} {LINES[i]}' if o in 'qp' else o for o, i in ops)
            if err:
                ctx.violation(key, 'an operation raises', None, err)
            for n, what, e, g in bad or []:
                ctx.violation(key, f'step {n}: {what} differs from a fresh process', e, g)
            ctx.outcome((ops, bool(bad)))
    ctx.sample(key)


CWDS = ['root', 'empty', 'files', 'directories', 'gone']
ENVS = {'plain': {}, 'posix': {'POSIXLY_CORRECT': '1', 'LC_ALL': 'C', 'LANG': 'C', 'TZ': 'UTC+5'},
        'options': {'GREP_OPTIONS': '-r', 'GREP_COLOR': '1', 'TMPDIR': '/nonexistent', 'COLUMNS': '1', 'HOME': '/nonexistent', 'SHELL': '/bin/false',
                    'LC_ALL': 'C.UTF-8', 'PASH_TOP': '/nonexistent', 'DEBUG': '1', 'PAGER': 'x'},
        'bare': None}


def environments():
    return [[c, e, s] for c in CWDS for e in ENVS for s in (0, 1, 42)]


def env_case(cwd, envname, seed, ctx):
    """fresh interpreters with different string hashing, working directories and environments give the same answers"""
    import shutil, tempfile
    from mc import core
    code = ("import sys, pickle, os; sys.path[:0] = [%r]; sys.dont_write_bytecode = True\n"
            "from mc import core; core.setup_import()\n"
            "from mc import chain; from mc.checks import c13\n"
            "if %r: os.rmdir(os.getcwd())\n"
            "sys.stdout.buffer.write(pickle.dumps([chain.Chain(l).observe() for l in c13.LINES]))") % (core.VERIF, cwd == 'gone')
    base = {} if ENVS[envname] is None else dict(os.environ, **ENVS[envname])
    env = dict(base, PYTHONHASHSEED=str(seed), VERIF_REPO=core.REPO)
    top = tempfile.mkdtemp(prefix='mc-c13-')
    try:
        d = os.path.join(top, 'd')
        os.mkdir(d)
        if cwd in ('files', 'directories'):
            import shlex
            for w in sorted({w for l in LINES for w in shlex.split(l)}):
                if '/' not in w and w not in ('.', '..'):
                    q = os.path.join(d, w)
                    if cwd == 'files':
                        open(q, 'w').write('a\nb\n')
                    else:
                        os.mkdir(q)
                        open(os.path.join(q, 'f'), 'w').close()
        p = subprocess.run([sys.executable, '-c', code], capture_output=True, env=env, cwd='/' if cwd == 'root' else d, stdin=subprocess.DEVNULL)
    finally:
        shutil.rmtree(top)
    ctx.states += len(LINES)
    ctx.transitions += len(LINES)
    key = f'interpreter in {cwd} directory, {envname} environment, hash seed {seed}'
    if p.returncode:
        ctx.violation(key, 'raises', None, p.stderr.decode()[-800:])
        return
    for i, got in enumerate(pickle.loads(p.stdout)):
        e, err = baseline(i)
        ctx.traces += 1
        if got != e:
            k = next((k for k in range(min(len(e), len(got))) if e[k] != got[k]), -1)
            ctx.violation(f'{key}: {LINES[i]}', 'the answer depends on the process', e and e[k], got and got[k])
