"""Enumeration of invocations (as word lists) per command: selections of flags/options x operand lists."""
import itertools
from mc import alpha, model

# values for option arguments, simplest first
VALUES = {
    'cut': {'-d': [',', '\n', '\\n', 'n'], '-f': ['1', '2-'], '-b': ['1'], '-c': ['1-2'], '--output-delimiter': [':', '\n']},
    'sort': {'--check': ['quiet', 'diagnose-first'], '-k': ['1', '2,2n', '1R', '2r'], '--sort': ['numeric', 'random', 'r', 'month'], '-t': [','], '-T': ['tmp'], '-o': ['out', '-']},
    'custom_sort': {},
    'sed': {'-e': ['s/a/b/', 'p', '/a/d', 'q', '-x', 'y/a/b/'], '-f': ['scr'], '--in-place': ['.bak'], '-l': ['5']},
    'xargs': {'--delimiter': ['\n', '\\n', ',', 'n'], '-n': ['1', '2'], '-I': ['{}'], '-E': ['END'], '-a': ['items']},
    'grep': {'-e': ['pat', '-'], '-f': ['pats'], '-m': ['1', '0'], '-A': ['1'], '-d': ['skip', 'recurse', 'rec', 'read'], '--color': ['auto'],
             '--label': ['L']},
    'uniq': {'-f': ['1'], '-s': ['1'], '-w': ['2'], '--all-repeated': ['none'], '--group': ['append']},
}
# first operands that matter for a command
FIRST = {
    'sed': ['s/a/b/', 's/d/q/', 'p', '/x/d', 'q', '5q', '-n', '$d', '', 'y/q/d/', 'Sd', '  s/d/e/', 'x;s', '=', 'dsq'],
    'tr': ['a-z', '\\n', '[:space:]', '[:cntrl:]', '\\012', '\n', '\\t-\\r', 'a-\\n', ' -z', '\\0', '\\1-\\12', '\\013-\\040', 'n',
           '[:alpha:]', '\\\\n', '\\n-a', 'ab\\nc', '\\0-\\377', '-\\n', '\\--z', '[:blank:]', '\\11-\\13x', '[=\\n=]', '[\\n*2]'],
    'grep': ['pat', '-', ''],
    'awk': ['{print}', ''],
}
SECOND_TR = ['A-Z', '\\n', ' ', '[:space:]', '\\012', '\\n-a', '']


def groups(cmd):
    t = model.table(cmd)
    r = []
    for g in t['flag']:
        r.append([[g[0]]])
    fl = set(alpha.flags(cmd))
    for g in t['option']:
        vals = VALUES.get(cmd, {}).get(g[0], ['v'])
        sep = [s for s in g[:-1] if s not in fl]
        if sep:
            r.append([[sep[0], v] for v in vals])
        else:
            r.append([[g[0] + '=' + v] for v in vals])
    return r


# names of every look
ODD = ['/dev/stdin', '/dev/stdout', './-', '-x', '--', 'a=b', 'a b', "it's", '*', '~', '$x', '\\', '0', '-1', 'n' * 300, '\u00e9', 'a,b:c', '.', '/', 'a\tb', 'a\u00a0b', '\u2028', '\u3000-', 'e\u0301', '\u2013n',
       '\U0001f600', '\x1b[0m', '\x7f', '\ufeff-', '\uff0d', 'a\x0b', '\x0c', 'x\r', '-\u00a0', '%s',
       'd/', 'a//b', '~user', '`x`', 'a;b', '+x', '=', '@', '{a,b}', '"', "'", 'A', '%', ':', '\n', 'a\nb', '1', '-n', 'a/../b', '<', '>f', '&', '|', '(', '#', 'None', 'True', '0x1', '1e3', '\\n']


def operand_lists(cmd, small=False):
    base = [[], ['a'], ['-'], ['a', 'b'], ['-', 'b'], ['a', '-'], ['-', '-'], ['a', 'b', 'c']]
    more = [['a', 'b', '-'], ['-', 'a', 'b'], ['a', 'b', 'c', 'd'], ['-', 'b', '-', 'd'], ['a', 'b', 'c', 'd', 'e'],
            ['a', 'a'], ['', 'a'], ['a', ''], ['x', '--', '-v'], ['f%d' % i for i in range(7)], ['f%d' % i for i in range(12)]]
    more += [[n] for n in ODD] + [['a', n, '-'] for n in ODD[::3]] + [ODD, ODD[::-1]]
    r = base + ([] if small else more)
    if cmd == 'tr':
        r = r[:1] + [[s] for s in FIRST['tr']] + [[a, b] for a in FIRST['tr'] for b in SECOND_TR] + [['a', 'b', 'c']]
    elif cmd in FIRST:
        r = r + [[s] + rest for s in FIRST[cmd] for rest in ([], ['f'], ['f', 'g'])]
    return r


def selections(cmd, k, ordered=2):
    """all selections of k groups (every value of each); both orders up to size `ordered`, and repetition for k == 2"""
    G = groups(cmd)
    if k == 2:
        combos = itertools.product(range(len(G)), repeat=2)
    else:
        combos = itertools.combinations(range(len(G)), k)
    for c in combos:
        for vs in itertools.product(*[G[i] for i in c]):
            yield [w for v in vs for w in v]


def n_groups(cmd):
    return len(groups(cmd))


def selections_from(cmd, k, first):
    """the selections of selections(cmd, k) whose first group is `first`"""
    G = groups(cmd)
    if k == 0:
        if first == 0:
            yield []
        return
    if first >= len(G):
        return
    if k == 2:
        rest = ((j,) for j in range(len(G)))
    else:
        rest = itertools.combinations(range(first + 1, len(G)), k - 1)
    for c in rest:
        for vs in itertools.product(*[G[i] for i in (first,) + tuple(c)]):
            yield [w for v in vs for w in v]


def partitions(cmds, maxk, tier):
    """cases [cmd, k, first group]"""
    for cmd in cmds:
        n = max(1, n_groups(cmd))
        for k in range(maxk + 1):
            for first in range(n if k else 1):
                yield [cmd, k, first, tier]


def noise(cmd):
    """flags/options that change neither roles nor strategies of a plain invocation (according to the model)"""
    for base in (['x'], ['a', 'b']):
        def facts(sel):
            inv = model.ref_parse([cmd] + sel + base)
            io = model.ref_io(inv)
            return io and (io['ops'], io['in'], io['out']), model.ref_para(inv)
        if facts([])[0] is not None or cmd not in model.ANNOTATED_IO:
            return [g[0] for g in groups(cmd) if facts(g[0]) == facts([])]
    return []


def long_selections(cmd):
    """every flag/option (every value) before, behind and amid long runs of others; options with odd arguments"""
    yield from odd_values(cmd)
    N = noise(cmd)
    if not N:
        return
    runs = []
    for k in (0, len(N) // 2, len(N) - 1):
        runs.append([w for _ in range(4) for w in N[k]])
        runs.append([w for _ in range(33) for w in N[k]])
    runs.append(N[0] * 300)
    runs.append(N[-1] * 1100)
    runs.append([w for n in N for w in n])
    runs.append([w for n in N[::-1] for w in n])
    for g in groups(cmd):
        for v in g:
            for r in runs:
                yield r + v
                yield v + r
                yield r + v + r
                yield v + r + v


TAILS = {'sed': ['s/a/b/'], 'comm': ['b'], 'grep': ['pat'], 'awk': ['{print}'], 'tr': ['a'], 'set_diff': ['f'], 'xargs': ['echo']}
HUGE = (65, 130, 260, 520, 1100, 2100)


def huge_lines(cmd, tail=()):
    """very many operands, flags and options"""
    tail, N = list(tail), noise(cmd) or [g[0] for g in groups(cmd)][:1]
    for n in HUGE:
        ops = ['f%d' % i for i in range(n)]
        for o in (ops, ['-'] * n, ['x'] * (n - 1) + ['-'], ['-'] + ops[1:], ops[:-1] + [''], tail + ops, [''] * n):
            yield o
            for r in N[:1]:
                yield r + o
                if n > 500:
                    yield r * n + o
        for g in groups(cmd):
            yield g[0] * n + tail
            yield g[0] * n + tail + ops[:n // 2] + ['-'] + ops[n // 2:]
        G = [g[-1] for g in groups(cmd)]
        for s in (1, 3, 7) if G else ():
            yield [w for k in range(n) for w in G[k * s % len(G)]] + tail
            yield [w for k in range(n) for w in N[k * s % len(N)]] + tail


def prefixes(*words):
    return [w[:k] for w in words for k in range(1, len(w) + 1)]


# further arguments that are words or small languages of their own
WORDS = {
    'sort': {'--sort': prefixes('general-numeric', 'human-numeric', 'month', 'numeric', 'random', 'version'), '--check': prefixes('diagnose-first', 'quiet', 'silent'),
             '-k': ['1R,2', '1,2R', '1nR', '2.3Rb', '1.2,3.4Rr', '1rR,1', '1,1', '1b,2b', '1.1nr,1.2', '+1', '1,', ',1', 'R'] + ['1' + x for x in 'bdfgiMhnRrV'] + ['2,2' + x for x in 'bdfgiMhnRrV'],
             '-t': ['\\0', '\\t'], '--parallel': ['1', '8'], '-S': ['1b', '50%'], '--batch-size': ['2']},
    'grep': {'-d': prefixes('read', 'recurse', 'skip'), '-D': prefixes('read', 'skip'), '--color': prefixes('always', 'never', 'auto'),
             '--binary-files': prefixes('text', 'without-match', 'binary'), '-m': ['00', '+1', '999999999999'], '-A': ['0'], '-B': ['0'], '-C': ['0']},
    'uniq': {'--group': prefixes('separate', 'prepend', 'append', 'both'), '--all-repeated': prefixes('none', 'prepend', 'separate'), '-w': ['0'], '-f': ['0'], '-s': ['0']},
    'xargs': {'--delimiter': ['\\012', '\\x0a', '\\x0A', '\\t', '\\0', '\\12', '\r\n', '\\r'], '-P': ['0', '2'], '-L': ['1'], '-n': ['0'], '-s': ['100'], '-E': ['_']},
    'sed': {'-e': ['s/d/x/', 's/q/x/', 'yd', 'd', 'q', '1d', '-d', '-q', ' sd', 's|q|d|w f', 'xd', '{d}', '#d', 'a\\d', 'b;d'], '-l': ['0', '1'], '--in-place': ['', '*', 'a/*']},
    'cut': {'-d': ['\\0', '\\t', 'ab'], '-f': ['1,3-', '-2', '1-1']},
    'mv': {'--backup': prefixes('numbered', 'existing', 'simple', 'none', 'off'), '-S': ['~', '.bak'], '-t': ['.', '/', 'd/']},
    'head': {'-n': ['-1', '+1', '0', '1k'], '-c': ['-1', '1M']}, 'tail': {'-n': ['-1', '+1', '0'], '-c': ['+0']},
    'wc': {'--files0-from': ['-']}, 'rm': {'--interactive': prefixes('always', 'never', 'once')},
    'diff': {'-U': ['0'], '--color': prefixes('always', 'never', 'auto')}, 'seq': {'-s': ['\n'], '-f': ['%g']}, 'comm': {'--output-delimiter': ['\n']},
    'tee': {'--output-error': prefixes('warn', 'warn-nopipe', 'exit', 'exit-nopipe')},
}


def odd_values(cmd):
    """every option with arguments of every look, alone and behind another flag or option"""
    fl = set(alpha.flags(cmd))
    G = groups(cmd)
    for g in model.table(cmd)['option']:
        sep = [s for s in g[:-1] if s not in fl][:1]
        eq = [s for s in g[:-1] if s.startswith('--')][:1]
        for v in ODD + [''] + WORDS.get(cmd, {}).get(g[0], []):
            for s in sep:
                yield [s, v]
            for s in eq:
                yield [s + '=' + v]
            if sep:
                yield G[0][0] + [sep[0], v] + [sep[0], 'x']


# parts of the sets of tr
TR_TOKENS = ['a', '-', '\\n', '\\t', '[:space:]', '[:alpha:]', '\\1', '\n', '[=\\n=]', '[=a=]', '\\\\', '\\12', '\\-', '[', ']', '[\\n*]', '[a*]', '[\\n*2]', '~', '[:cntrl:]', '\\', '\\012',
             '2', '\\[:space:]', '\\r', ' ', 'n', ':', '\\400', '\\0', '\\a', '[=\n=]', '[a*\\n]', '*', '!', '[:', '\xe9', '\\177', '[a-b]', '[:space\\:]', 'b', '0']


def tr_sets(first, n, three=21):
    """all sets of at most n parts that begin with the given one; those of three parts use the first part of the alphabet"""
    yield first
    for k in range(2, n + 1):
        A = TR_TOKENS if k == 2 else TR_TOKENS[:three]
        if k == 2 or first in A:
            for t in itertools.product(A, repeat=k - 1):
                yield first + ''.join(t)
