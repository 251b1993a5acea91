"""C08: bounded exploration of all inputs and all splits: original command against split / mappers / aggregator, with real commands."""
import itertools, json, os

from mc import enumr, model, runner

ID = 'C08'
RULE = ('state = (invocation, offered strategy, input, split); an invocation is parsed, annotated and instantiated by the real '
        'code, mappers and aggregators are executed as the real objects say (installed commands); transition = one mapper or '
        'aggregator execution; all line sequences up to the bound over the alphabet (last line with and without newline), every '
        'cut into consecutive chunks, every cut into three blocks for round robin, every assignment of lines to two workers '
        'for commutative round robin; output must equal that of the original command on the whole input')
BOUNDS = {
    'quick': 'cut grep sed sort tr uniq xargs, menus of values, patterns, sets and scripts: no flag/option x inputs of <=3 lines over '
             '6-7 colliding lines, one x <=2 over 7, two (cut, uniq: three) x <=2 over 4, some 100 further arguments (keys, keywords, lists) and delimiters given twice x <=2 over 7; tr: all flag subsets x 22 first x 12 second '
             'sets x <=2 lines over 4; xargs: 35 invocations x <=3 lines over 6; all chunk, block and worker splits',
    'thorough': 'no flag/option x <=4 lines over 7, one x <=3 over 7, two x <=3 over 5, three x <=2 over 4 (grep, sort: 3), file operand x <=2; tr: <=3 '
                'lines over 5; xargs: <=5 lines over 5'}
ASSUMPTIONS = ['only the installed annotated commands run (cut, grep, sed, sort, tr, uniq, xargs; GNU versions, locale C)',
               'chunks are not empty and are cut at line boundaries; text without NUL characters',
               'invocations with one streaming input and one streaming output whose sequential run reports an error are skipped',
               'cut -z (a listed finding) is explored without further flags', 'a combination of flags that prints help or the version is skipped', 'cat is executed as concatenation']
CASE_TIMEOUT = 600
TIMEOUT_IS_VIOLATION = False
CMDS = ['cut', 'grep', 'sed', 'sort', 'tr', 'uniq', 'xargs']

LINES = {
    'cut': [b'a,b,c', b'', b'ab', b',x', b'a b\tc', b'n,n'],
    'grep': [b'a', b'', b'ab', b'B', b'b a', b'-A'],
    'sed': [b'a', b'', b'ab', b'xa', b'b d', b'dq'],
    'sort': [b'2', b'10', b' a,1', b'A,1', b'', b'a,2', b'1K'],
    'tr': [b'a', b'', b'aab \tA', b'n0', b'b', b' '],
    'uniq': [b'a', b'', b'A', b'b a', b'c a', b'ab'],
    'xargs': [b'a', b'', b'b c', b' d', b'END', b'a,b'],
}
VALUES = {
    'cut': {'-b': ['1', '2-'], '-c': ['1-2'], '-d': [',', '\n', 'n', ' '], '-f': ['1', '2-', '1,3'], '--output-delimiter': [':', '\n', '']},
    'grep': {'-e': ['a', '^$', 'b'], '-f': ['pats'], '--color': ['always', 'never'], '-m': ['1'], '--label': ['L'], '-A': ['1', '0'],
             '-B': ['1'], '-C': ['1', '0'], '--group-separator': ['x'], '--binary-files': ['text'], '-D': ['skip'], '-d': ['skip'],
             '--exclude': ['g'], '--exclude-from': ['pats'], '--exclude-dir': ['g'], '--include': ['f']},
    'sed': {'-e': ['s/a/b/', 'p', '/a/d', 'y/a/b/', 's/a/d/g', '-x'], '-f': ['scr'], '-l': ['1']},
    'sort': {'--check': ['quiet'], '-k': ['1', '2', '2,2n', '1.2', '1,1r', '1b,1', '2V', '1,1f', '1R'], '-o': ['out'], '-T': ['tmp'], '-S': ['1M'], '-t': [',', 'a'],
             '--parallel': ['2'], '--batch-size': ['2'], '--compress-program': ['cat'], '--random-source': ['pats'], '--files0-from': ['nuls'],
             '--sort': ['numeric', 'general-numeric', 'human-numeric', 'month', 'version', 'random', 'r', 'n']},
    'uniq': {'-f': ['1'], '-s': ['1'], '-w': ['1'], '--all-repeated': ['none', 'prepend'], '--group': ['append']},
    'xargs': {},
}
SKIP_FLAGS = ('--help', '--version', '-V', '-r', '-R')
SETS1 = ['a', 'a-c', ' ', '\\n', '[:alpha:]', '[:space:]', '\\t-\\r', '[:blank:]', '\n', '\\012', 'a\\n', '[:lower:]', 'n', '0-9', 'ab', '[:cntrl:]', '[=a=]',
         '\\11-\\13', '[:punct:]', '\\\\n', 'a-', '\\055-\\142']
SETS2 = ['b', 'A-C', '\\n', ' ', '[:upper:]', 'x\\n', '\n', 'bb', '\\012', '[x*]', '[\\n*]', 'a']
SCRIPTS = ['s/a/b/', 's/a/d/', 's/b//g', 'p', '/a/p', '/a/d', 'y/ab/ba/', 's/a/x\\ny/', 's/$/q/', 'l', 's/ *$//', '/a/!s/b/c/', 's/^/a/;s/aa/q/', '/a/{s/b/c/}',
           # depend on the position of the line or on other lines
           '3s/a/b/', '2p', '=', 'N', '$s/$/x/', 's/a/b/;2d', 's/a/b/;q', 'q', '2q', '$d', '$!N', 'x;s/a/b/', 's/x/y/;x', 'G', '1i\\x', '/a/,/b/s/a/x/', 'n;p',
           '1~2p', 's/a/b/;$!N', '0,/a/p', 's/b/d/;/x/q', '/a/q', 'Sq', '1!G;h;$!p']
XARGS = [['echo'], ['echo', 'x'], [], ['-n', '1', 'echo'], ['-n', '2', 'echo'], ['-L', '1', 'echo'], ['-L', '2', 'echo'], ['-I', '{}', 'echo', 'x{}'], ['-r', 'echo'],
         ['-r', '-n', '1', 'echo'], ['-r', '-L', '1', 'echo'], ['-i', 'echo', '{}'], ['-l', 'echo'], ['-x', '-n', '1', 'echo'], ['-P', '1', '-I', '{}', 'echo', '{}'],
         ['-0', 'echo'], ['-d', '\\n', '-n', '1', 'echo'], ['-d', ',', 'echo'], ['-E', 'END', '-I', '{}', 'echo', '{}'], ['-a', 'pats', '-n', '1', 'echo'], ['-s', '40', '-r', 'echo'],
         ['-d', '\\n', '-I', '{}', 'echo', '{}'], ['-o', '-I', '{}', 'echo', '{}'], ['-e', 'echo'], ['-t', 'echo'], ['--process-slot-var', 'V', '-I', '{}', 'echo', '{}'],
         ['-0', '-n', '1', '-r', 'echo'], ['-d', '\n', '-n', '1', 'echo'],
         # options given twice
         ['-r', '-n', '1', '-n', '1', 'echo'], ['-r', '-n', '2', '-n', '1', 'echo'], ['-I', '{}', '-I', '[]', 'echo', '[]'], ['-d', ',', '-d', '\n', '-n', '1', 'echo'],
         ['-d', '\n', '-d', ',', '-n', '1', 'echo'], ['-r', '-r', '-n', '1', 'echo'], ['-n', '1', '-r', '-n', '1', 'echo']]
PATTERNS = ['a', '^$', 'b', '', 'A\\|^-', 'a$']


def groups(cmd):
    t = model.table(cmd)
    fl = {s for g in t['flag'] for s in g}
    G = [[[g[0]]] for g in t['flag'] if g[0] not in SKIP_FLAGS]
    for g in t['option']:
        sep = [s for s in g[:-1] if s not in fl]
        G.append([[sep[0], v] if sep else [g[0] + '=' + v] for v in VALUES[cmd].get(g[0], [])])
    return [g for g in G if g]


def selections(cmd, k):
    G = groups(cmd)
    for c in itertools.combinations(G, k):
        for vs in itertools.product(*c):
            yield [w for v in vs for w in v]
    if k == 2:
        for g in G:
            if len(g) > 1:                       # the same option twice with different values
                for a, b in itertools.permutations(g, 2):
                    yield a + b


def invocations(cmd, k):
    """word lists of the invocations with k flags/options"""
    if cmd == 'tr':
        if k == 0:
            for n in range(len(TRF) + 1):
                for fl in itertools.combinations(TRF, n):
                    for s in SETS1:
                        yield ['tr'] + list(fl) + [s]
                        for s2 in SETS2:
                            yield ['tr'] + list(fl) + [s, s2]
        elif k == 1:                             # the sets composed of few parts
            for first in enumr.TR_TOKENS:
                for s in enumr.tr_sets(first, 2):
                    yield ['tr', '-d', s]
                    yield ['tr', '-s', s]
                    if len(s) < 12:
                        yield ['tr', '-s', 'a', s]
                    yield ['tr', '-c', '-d', s]
        return
    if cmd == 'xargs':
        if k == 0:
            for x in XARGS:
                yield ['xargs'] + x
        return
    if k == 9:                                   # further option arguments, alone and with an ordering or matching flag
        t = model.table(cmd)
        fl = {s for g in t['flag'] for s in g}
        for g in t['option']:
            sep = [s for s in g[:-1] if s not in fl]
            for v in enumr.WORDS.get(cmd, {}).get(g[0], []):
                if g[0] == '--color' and v not in ('always', 'never', 'auto'):
                    continue     # prints the help
                w = [sep[0], v] if sep else [g[0] + '=' + v]
                for more in {'sort': ([], ['-n'], ['-r'], ['-t', ',']), 'cut': ([], ['-f', '2']), 'grep': ([], ['-v']), 'uniq': ([], ['-i'])}.get(cmd, ([],)):
                    yield [cmd] + more + w + (['a'] if cmd == 'grep' else [])
        if cmd == 'cut':                         # delimiters given twice, around the list of fields
            for a, b in itertools.product(VALUES['cut']['-d'] + [':'], repeat=2):
                yield from (['cut', '-d', a, '-d', b, '-f', '1'], ['cut', '-d', a, '-f', '2', '-d', b], ['cut', '-d', a, '-d', ',', '-d', b, '-f', '1'])
        return
    for sel in selections(cmd, k):
        if cmd == 'cut' and '-z' in sel and (k > 2 or set(sel) & {'-n', '-s', '--complement', '-d', '--output-delimiter'}):
            continue             # cut -z is a listed finding, explored without further flags only
        if cmd == 'grep':
            if '-e' in sel or '-f' in sel:
                yield ['grep'] + sel
            else:
                for p in PATTERNS[:6 if k < 2 else 2]:
                    yield ['grep'] + sel + [p]
        elif cmd == 'sed':
            if '-e' in sel or '-f' in sel:
                yield ['sed'] + sel
            else:
                for s in SCRIPTS[:len(SCRIPTS) if k == 0 else 14]:
                    yield ['sed'] + sel + [s]
        else:
            yield [cmd] + sel


TRF = ['-c', '-d', '-s', '-t']


def plan(tier):
    """[(cmd, k, max lines, number of different lines, with file operand)]"""
    q = tier == 'quick'
    r = []
    for cmd in CMDS:
        if not runner.installed(cmd):
            continue
        if cmd == 'xargs':
            r.append((cmd, 0, 3 if q else 5, 6 if q else 5, False))
        elif cmd == 'tr':
            r += [(cmd, 0, 2 if q else 3, 4 if q else 5, False), (cmd, 1, 2, 2 if q else 4, False)]
        elif q:
            r += [(cmd, 0, 3, 7, False), (cmd, 1, 2, 7, False), (cmd, 1, 1, 7, True), (cmd, 2, 2, 4, False)]
            if cmd in ('cut', 'uniq', 'grep', 'sort'):
                r.append((cmd, 9, 2, 7, False))
            if cmd in ('cut', 'uniq'):
                r.append((cmd, 3, 2, 4, False))
            if cmd == 'cut':
                r.append((cmd, 2, 2, 4, True))
        else:
            r += [(cmd, 0, 4, 7, False), (cmd, 1, 3, 7, False), (cmd, 1, 2, 7, True), (cmd, 2, 3, 5, False), (cmd, 2, 2, 4, True),
                  (cmd, 3, 2, 3 if cmd in ('grep', 'sort') else 4, False)]
            if cmd in ('cut', 'uniq', 'grep', 'sort'):
                r.append((cmd, 9, 3, 7, False))
    return r


def cases(tier):
    res = []
    for cmd, k, n, a, f in plan(tier):
        inv = list(invocations(cmd, k))
        step = {0: 6, 1: 4, 2: 24, 3: 60, 9: 4}[k] if cmd != 'tr' else 24
        for i in range(0, len(inv), step):
            res.append([cmd, k, n, a, f, i, step])
    return sorted(res, key=lambda c: (-(c[3] ** c[2]), c))


def sequences(cmd, n, a):
    A = LINES[cmd][:a]
    for k in range(1, n + 1):
        yield from itertools.product(A, repeat=k)


FILES = {'pats': b'a\nb\n', 'scr': b's/a/b/\n', 'nuls': b'f\0', 'f': b'', 'g': b''}


def prepare_dir():
    d = runner.scratch()
    for n, c in FILES.items():
        with open(os.path.join(d, n), 'wb') as f:
            f.write(c)
    os.makedirs(os.path.join(d, 'tmp'), exist_ok=True)
    os.chdir(d)
    return d


class Exec:
    """executes invocations with I/O variables; results are memoised by argument vector and contents"""

    def __init__(self, ctx):
        self.memo = {}
        self.ctx = ctx
        self.cache_key = None

    def render(self, c, names):
        """canonical invocation -> argument vector; names: variable -> file name"""
        from mc import lib
        argv = [c['cmd']]
        for e in c['fo']:
            if e[0] == 'F':
                argv.append(e[1])
                continue
            a = e[2]
            a = names[a] if type(a) is int else a[1]
            argv += [e[1] + '=' + a] if e[1].startswith('--') else [e[1], a]
        for o in c['ops']:
            argv.append(names[o] if type(o) is int else o[1])
        return argv

    def run(self, argv, stdin, files, outs):
        """files: name -> content to put there, outs: output files to collect; -> (ok, output)"""
        k = (tuple(argv), stdin, tuple(sorted(files.items())), tuple(outs))
        if k in self.memo:
            return self.memo[k]
        for n, c in files.items():
            with open(n, 'wb') as f:
                f.write(c)
        for n in outs:
            if os.path.exists(n):
                os.unlink(n)
        self.ctx.transitions += 1
        rc, out, err = runner.run(argv, stdin)
        for n in outs:
            if os.path.exists(n):
                with open(n, 'rb') as f:
                    out += f.read()
        r = (rc, out, err)
        if len(self.memo) < 200000:
            self.memo[k] = r
        return r


def failed(cmd, rc, err):
    return bool(err) or (rc not in (0, 1) if cmd == 'grep' else rc != 0)


def run_case(case, ctx):
    cmd, k, n, a, with_file, start, step = case
    prepare_dir()
    try:
        for words in list(invocations(cmd, k))[start:start + step]:
            explore(words + ['f'] * with_file, cmd, n, a, ctx)
    finally:
        runner.cleanup()


def explore(words, cmd, n, alph, ctx):
    from mc import inst, lib
    text = lib.line(words)
    inv = lib.parse(text)
    para = lib.safe(lib.para_info, inv)
    if para is None or lib.raised(para) or lib.raised(lib.safe(lib.io_info, inv)) or lib.io_info(inv) is None:
        ctx.count('invocations without strategies')
        return
    offered = para.unpack_info()[0]
    offered = [p for p in offered if p.are_all_parts_implemented()]
    if not offered:
        ctx.count('invocations without strategies')
        return
    w = lib.Wired(inv)
    c0 = lib.canon_vars(w.inv)
    ins, outs = inst.streams(c0)
    if len(ins) != 1 or len(outs) != 1:
        ctx.count('invocations with several streams')
        return
    ex = Exec(ctx)
    name = lambda x: x.get_name() if isinstance(x, lib.FileNameWithIOInfo) else None
    src, dst = name(w.res[ins[0]]), name(w.res[outs[0]])
    fixed = {v: name(x) or '-' for v, x in w.res.items()}

    def original(data):
        if src:
            return ex.run(words, b'', {src: data}, [dst] if dst else [])
        return ex.run(words, data, {}, [dst] if dst else [])

    def execute(c, given, data, out):
        """runs a canonical invocation; given: variables of its inputs, data: their contents"""
        names = dict(fixed)
        files, stdin = {}, b''
        if c['cmd'] == 'cat' and not c['fo'] and c['ops'] == given:
            ctx.transitions += 1
            return 0, b''.join(data), b''
        for j, (v, d) in enumerate(zip(given, data)):
            if v == c['in']:
                stdin = d
            else:
                names[v] = src if src and len(given) == 1 else f'part{j}'
                files[names[v]] = d
        o = []
        if out != c['out']:
            names[out] = dst or 'outfile'
            o = [names[out]]
        argv = ex.render(c, names)
        if not runner.installed(argv[0]):
            return None
        return ex.run(argv, stdin, files, o)

    # does the invocation work at all?
    if all(failed(cmd, *original(b''.join(l + b'\n' for l in s))[::2]) for s in sequences(cmd, 1, alph)):
        ctx.count('invocations that fail sequentially')
        return
    ctx.count('invocations explored')
    seen = set()
    agg_memo = {}
    for p in offered:
        kind = p.get_splitter().kind.name
        i, o = w.fresh(), w.fresh()
        m = lib.safe(p.get_actual_mapper, w.inv, i, o, [])
        a_in, a_out = [w.fresh(), w.fresh()], w.fresh()
        a = lib.safe(p.get_actual_aggregator, w.inv, list(a_in), a_out)
        if m is None or a is None or lib.raised(m) or lib.raised(a) or p.get_info_mapper_aggregator():
            ctx.violation(text, 'a fully implemented strategy cannot be instantiated', kind, (m, a))
            return
        if getattr(p.info_splitter_mapper, 'name', None) != 'NO_ADD_INPUT':
            ctx.count('strategies with additional splitter information')
            continue
        cm, ca = lib.canon_vars(m), lib.canon_vars(a)

        def mapped(data):
            return execute(cm, [i], [data], o)

        def aggregated(x, y):
            if (kind, x, y) not in agg_memo:
                agg_memo[(kind, x, y)] = execute(ca, a_in, [x, y], a_out)
            return agg_memo[(kind, x, y)]
        if mapped(b'x\n') is None or aggregated(b'x\n', b'x\n') is None:
            ctx.count('strategies with commands that are not installed')
            continue
        ctx.count('strategies explored')
        seen.add(kind)
        if not judge(text, cmd, kind, n, alph, original, mapped, aggregated, ctx):
            return
    ctx.sample(text)


def judge(text, cmd, kind, n, alph, original, mapped, aggregated, ctx):
    for seq in sequences(cmd, n, alph):
        for end in (b'\n', b''):
            lines = [l + b'\n' for l in seq[:-1]] + [seq[-1] + end]
            if not lines[-1]:
                continue
            rc, exp, err = original(b''.join(lines))
            if failed(cmd, rc, err):
                ctx.count('inputs skipped (sequential error)')
                continue
            for parts in splits(kind, lines):
                ctx.states += 1
                ctx.traces += 1
                acc = None
                for part in parts:
                    r = mapped(part)
                    acc = r[1] if acc is None else aggregated(acc, r[1])[1]
                if acc != exp:
                    ctx.violation(text, f'{kind}: parallel output differs for {parts!r}', exp, acc)
                    return False
    ctx.outcome((text, kind, exp))
    return True


def splits(kind, lines):
    n = len(lines)
    if kind == 'ROUND_ROBIN_UNWRAP_FLAG':
        for mask in range(2 ** n):
            a = b''.join(l for k, l in enumerate(lines) if mask >> k & 1)
            b = b''.join(l for k, l in enumerate(lines) if not mask >> k & 1)
            yield [x for x in (a, b) if x]
        return
    for k in range(n):
        for cut in itertools.combinations(range(1, n), k):
            if k > 2:
                continue
            b = (0,) + cut + (n,)
            yield [b''.join(lines[x:y]) for x, y in zip(b, b[1:])]
