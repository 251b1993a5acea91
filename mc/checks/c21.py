"""C21: every spelling of every interface table probed against the installed command; synonyms compared on canned inputs."""
import os, shutil

from mc import runner

ID = 'C21'
RULE = ('state = spelling of a table (as flag or as option) or structural rule of an entry; transition = run of the installed '
        'command: "cmd SPELLING --unknown" must stumble over the unknown word only (flag), "cmd SPELLING" must ask for an '
        'argument and "cmd SPELLING=v" must not be refused (option), all spellings of one entry give the same exit status, '
        'output and files in every scenario')
BOUNDS = {
    'quick': 'all commands with a table; all spellings; 2-6 scenarios per command for synonyms',
    'thorough': 'as quick, synonyms also together with every other single flag of the command'}
ASSUMPTIONS = ['GNU option syntax of the installed versions; awk (only mawk is installed), col and the custom commands are checked for '
               'structure only', 'tail follows a dead process only, xargs never prompts']
CASE_TIMEOUT = 600
TIMEOUT_IS_VIOLATION = False
GNU = ['cat', 'comm', 'cut', 'diff', 'grep', 'head', 'mkfifo', 'mv', 'rm', 'sed', 'seq', 'sort', 'tail', 'tee', 'tr', 'uniq', 'wc', 'xargs']
ACCESS = ['CONFIG_INPUT', 'STREAM_INPUT', 'CONTAINER_FOR_INPUT', 'EXCLUDES_FROM_INPUT', 'OTHER_INPUT', 'STREAM_OUTPUT', 'OTHER_OUTPUT']
# spellings the installed version announces to be obsolete or has dropped
FILES = {'a': b'a\tb c\n\n\n10 x\nA\tb c\nab ab\n2 y\n', 'b': b'a b c\n\n2 y\nZ\n10 x\nab\n', 'c': b'x' * 30 + b'\ny z\n', 'n': b'a\0b\nc\0', 'pats': b'a\n', 'scr': b's/a/Q/\n',
         's1': b'a\nb\nc\n', 's2': b'b\nc\nd\n', 'd/a': b'a\n', 'd/e': b'e a\n', 'l0': b'a\0b\0', 'items': b'x y\nz\n'}
# scenarios: (words before, words after, stdin)
SCEN = {
    'cat': [([], ['a', 'b'], b''), ([], ['n'], b''), ([], [], b'\x01\x80\t\n\n\n')],
    'comm': [([], ['s1', 's2'], b''), ([], ['b', 'a'], b'')],
    'cut': [(['-f1'], ['a'], b''), (['-c', '1-3'], ['a'], b''), ([], ['a'], b''), (['-f2', '--output-delimiter=:'], ['n'], b'')],
    'diff': [([], ['a', 'b'], b''), ([], ['d', '.'], b''), ([], ['a', 'a'], b''), ([], ['c', 's1'], b''), ([], ['c', 'nofile'], b'')],
    'grep': [([], ['a', 'a', 'b'], b''), ([], ['a'], b'a b\nab\nxa\nA\n'), ([], ['a', 'd'], b''), ([], ['b*', 'n', 'nofile'], b''), (['-o'], ['(a|b)', 'a'], b''),
             ([], ['a'], b'b\nc\na\nd\ne\nf\ng\na\n')],
    'head': [([], ['a'], b''), ([], ['a', 'b'], b''), ([], ['n'], b'')],
    'mkfifo': [([], ['p'], b''), ([], ['p', 'a'], b'')],
    'mv': [([], ['a', 'b'], b''), ([], ['a', 'd'], b''), ([], ['a', 'd/'], b''), ([], ['d', 's1', 'a'], b'')],
    'rm': [([], ['a', 'nofile'], b''), ([], ['d'], b''), ([], ['b'], b'y\n')],
    'sed': [(['-e', 's/b/X/;1l'], ['a', 'b'], b''), ([], ['p', 'a'], b''), ([], ['s/\\(a\\|b\\)+/x/', 's1', 'a'], b''), ([], ['$p', 'n', 'a'], b'')],
    'seq': [([], ['8', '10'], b''), ([], ['1', '.5', '2'], b'')],
    'sort': [([], ['a'], b''), ([], ['a', 'b'], b''), ([], ['n'], b''), ([], ['s1', 's2'], b''), ([], [], b'1K\n2M\n10\nJan\nDec\n b\nB\na\n a1.10\n a1.9\n\x01a\n')],
    'tail': [(['--pid=4194303'], ['a'], b''), (['--pid=4194303'], ['a', 'b'], b''), (['--pid=4194303'], ['n'], b'')],
    'tee': [([], ['o', 'a'], b'data\n')],
    'tr': [([], ['a-c', 'x'], b'aabbccdd\n'), ([], ['ab'], b'aabbccdd\n'), ([], ['a', 'xy'], b'aabb')],
    'uniq': [([], ['b'], b''), ([], [], b'a\na\nA\nb c\nd c\nabx\naby\n'), ([], [], b'a\0a\0b\0')],
    'wc': [([], ['a', 'b'], b''), ([], [], b'\xc3\xa4 x\n')],
    'xargs': [([], ['echo'], b'a b\nc\n\nEND d\n'), ([], ['echo', 'x'], b''), ([], [], b'a\0b\0'), (['-n', '1'], ['echo'], b'a {} _\n')],
}
# one or more values per option that tell it from others
VALS = {
    'comm': {'--output-delimiter': [':']},
    'cut': {'-b': ['1-2'], '-c': ['2'], '-d': [' '], '-f': ['2'], '--output-delimiter': [':']},
    'diff': {'-C': ['1'], '-U': ['1'], '-W': ['40'], '-F': ['a'], '--label': ['L'], '--tabsize': ['4'], '-x': ['a'], '--exclude-from': ['pats'], '-S': ['b'], '--from-file': ['a'],
             '--to-file': ['b'], '-I': ['a'], '-D': ['N'], '--line-format': ['%l'], '--horizon-lines': ['1'], '--color': ['always'], '--palette': ['ad=1']},
    'grep': {'-e': ['x'], '-f': ['pats'], '--color': ['always'], '-m': ['1'], '--label': ['L'], '-A': ['1'], '-B': ['1'], '-C': ['1'], '--group-separator': ['G'],
             '--binary-files': ['text'], '-D': ['skip'], '-d': ['skip', 'recurse'], '--exclude': ['a'], '--exclude-from': ['pats'], '--exclude-dir': ['d'], '--include': ['b']},
    'head': {'-n': ['2'], '-c': ['5']},
    'mkfifo': {'-m': ['600'], '--context': ['x']},
    'mv': {'--update': ['none'], '--backup': ['numbered'], '-S': ['.s'], '-t': ['d']},
    'rm': {'--interactive': ['never'], '--preserve-root': ['all']},
    'sed': {'-e': ['s/a/E/'], '-f': ['scr'], '--in-place': ['.bak'], '-l': ['5']},
    'seq': {'-f': ['%g!'], '-s': [',']},
    'sort': {'--check': ['quiet'], '--random-source': ['a'], '--sort': ['numeric'], '--batch-size': ['2'], '--compress-program': ['cat'], '--files0-from': ['l0'], '-k': ['2'], '-o': ['o'], '-S': ['1M'],
             '-t': ['b'], '-T': ['d'], '--parallel': ['1']},
    'tail': {'--follow': ['name'], '-c': ['5'], '-n': ['1'], '--max-unchanged-stats': ['5'], '--pid': ['4194303'], '-s': ['0.1']},
    'tee': {'--output-error': ['warn']},
    'uniq': {'--all-repeated': ['prepend'], '-f': ['1'], '--group': ['append'], '-s': ['1'], '-w': ['2']},
    'wc': {'--files0-from': ['l0']},
    'xargs': {'-a': ['items'], '--delimiter': ['b'], '-E': ['END'], '-I': ['{}'], '-L': ['1'], '-n': ['1'], '-P': ['1'], '-s': ['20'], '--process-slot-var': ['V']},
}
NEVER_RUN = {'xargs': ['-p', '--interactive']}       # prompts on the terminal


def cases(tier):
    from mc import model
    r = [['structure', c] for c in sorted(model.TABLES)]
    for c in GNU:
        if runner.installed(c):
            r.append(['probe', c])
            r += [['synonyms', c, k, tier] for k in range(4)]
    return r


def table(cmd):
    from pash_annotations.parser.util_parser import get_json_data
    return get_json_data(cmd)


def run_case(case, ctx):
    cmd = case[1]
    try:
        t = table(cmd)
        if case[0] == 'structure':
            structure(cmd, t, ctx)
        elif case[0] == 'probe':
            probe(cmd, t, ctx)
        else:
            synonyms(cmd, t, case[2], case[3], ctx)
    finally:
        runner.cleanup()


def structure(cmd, t, ctx):
    seen = {}
    for kind in ('flag', 'option'):
        ctx.expect(f'{cmd} {kind}', 'list of entries', True, isinstance(t.get(kind), list))
        for g in t.get(kind, []):
            ctx.states += 1
            ctx.transitions += 1
            ctx.traces += 1
            key = f'{cmd} {kind} {g}'
            names = g if kind == 'flag' else g[:-1]
            if not names or not all(isinstance(s, str) and len(s) > 1 and s[0] == '-' and s != '--' and '=' not in s and ' ' not in s for s in names):
                ctx.violation(key, 'entry has no or malformed spellings', None, g)
                continue
            if kind == 'option':
                a = g[-1]
                if isinstance(a, list):
                    ok = len(a) == 2 and a[0] in ('FILE', 'DIR', 'DIRECTORY') and a[1] in ACCESS
                else:
                    ok = isinstance(a, str) and a not in ('FILE', 'DIR', 'DIRECTORY') and not a.startswith('-')
                ctx.expect(key, 'argument: name, or file with access', True, ok)
            for s in names:
                ctx.expect(f'{cmd} {kind} {s}', 'spelling listed twice', None, seen.get((kind, s)))
                seen[(kind, s)] = g
    ctx.outcome((cmd, sorted(seen, key=str)))


UNKNOWN = '--zzz-unknown'


def probe(cmd, t, ctx):
    fresh()
    flags = {s for g in t['flag'] for s in g}

    def run(*words):
        ctx.transitions += 1
        ctx.traces += 1
        rc, out, err = runner.run([cmd] + list(words))
        return rc, (out + err).decode('utf-8', 'replace')
    for s in sorted(flags):
        ctx.states += 1
        rc, text = run(s, UNKNOWN)
        ok = 'zzz' in text and rc != 0 if s not in ('--help', '--version', '-V', '-v') else rc == 0 or 'zzz' in text
        ctx.expect(f'{cmd} flag {s}', 'the command does not accept it without argument', True, ok)
        if not ok:
            ctx.count('note ' + text[:100])
        if s.startswith('--') and s not in {x for g in t['option'] for x in g[:-1]}:
            rc, text = run(s + '=x')
            ctx.expect(f'{cmd} flag {s}', 'the command accepts an argument after = which the table does not list', True,
                       "doesn't allow an argument" in text)
    for g in t['option']:
        for s in g[:-1]:
            ctx.states += 1
            key = f'{cmd} option {s}'
            if s in flags:
                v = VALS.get(cmd, {}).get(g[0], ['x'])[0]
                rc, text = run(s + '=' + v if s.startswith('--') else s + v, UNKNOWN)
                ctx.expect(key, 'the optional argument is refused', True, 'zzz' in text)
            else:
                rc, text = run(s)
                ctx.expect(key, 'the command does not ask for an argument', True, 'requires an argument' in text and rc != 0)
                v = VALS.get(cmd, {}).get(g[0], ['x'])[0]
                rc, text = run(s, v, UNKNOWN)
                ctx.expect(key, 'the argument is refused or not consumed', True, 'zzz' in text)
                if s.startswith('--'):
                    rc, text = run(s + '=' + v, UNKNOWN)
                    ctx.expect(key, 'the argument after = is refused', True, 'zzz' in text)
            ctx.outcome((cmd, s, text[:60]))
    ctx.sample(f'{cmd} {sorted(flags)[:1]} {UNKNOWN}')


def fresh():
    d = os.path.join(runner.scratch(), 'x')
    os.chdir('/')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, 'd'))
    for n, c in FILES.items():
        with open(os.path.join(d, n), 'wb') as f:
            f.write(c)
        os.utime(os.path.join(d, n), (10**9 + (n == 'a'), 10**9 + (n == 'a')))
    os.chdir(d)
    return d


def files(d):
    r = {}
    for base, dirs, fs in os.walk(d):
        for n in dirs + fs:
            p = os.path.join(base, n)
            st = os.lstat(p)
            r[os.path.relpath(p, d)] = (oct(st.st_mode), open(p, 'rb').read() if os.path.isfile(p) else None)
    return r


MODIFIES = ('mv', 'rm', 'mkfifo', 'tee')


def behaviour(cmd, words, scen, ctx):
    before, after, stdin = scen
    d = fresh() if cmd in MODIFIES or ctx.dirty else os.path.join(runner.scratch(), 'x')
    ctx.dirty = cmd in MODIFIES or (cmd == 'sed' and any(w.startswith(('-i', '--in-p')) for w in words)) or (cmd == 'sort' and any(w.startswith(('-o', '--ou')) for w in words))
    ctx.transitions += 1
    ctx.traces += 1
    if cmd == 'sort' and not any(w.startswith('--random-source') for w in words):
        before = ['--random-source=a']
    rc, out, err = runner.run([cmd] + before + words + after, stdin)
    if cmd == 'diff':                                 # the header of a pair of files repeats the words
        out = b'\n'.join(l for l in out.split(b'\n') if not l.startswith(b'diff ') and b' Page ' not in l)
    return rc, out, bool(err), files(d) if ctx.dirty else None


def synonyms(cmd, t, part, tier, ctx):
    ctx.dirty = True
    flags = {s for g in t['flag'] for s in g}
    entries = []
    for g in t['flag']:
        entries.append((g, [[[s] for s in g]]))
    for g in t['option']:
        alts = []
        for v in VALS.get(cmd, {}).get(g[0], []):
            ws = []
            for s in g[:-1]:
                if s.startswith('--'):
                    ws.append([s + '=' + v])
                    if s not in flags:
                        ws.append([s, v])
                elif s not in flags:
                    ws += [[s, v], [s + v]]
            alts.append(ws)
        entries.append((g, alts))
    ctx_words = [[]]
    if tier == 'thorough':
        ctx_words += [[g[0]] for g in t['flag'] if g[0] not in ('--help', '--version', '-V') and g[0] not in NEVER_RUN.get(cmd, [])
                      and not (cmd in ('diff', ) and g[0] == '-l')]
    for n, (g, alts) in enumerate(entries):
        if n % 4 != part or set(g if isinstance(g[-1], str) else g[:-1]) & set(NEVER_RUN.get(cmd, [])):
            continue
        ctx.states += 1
        for ws in alts:
            if len(ws) < 2:
                continue
            for extra in ctx_words:
                for scen in SCEN.get(cmd, []):
                    ref = None
                    for w in ws:
                        b = behaviour(cmd, extra + w, scen, ctx)
                        if ref is None:
                            ref, first = b, w
                        elif b != ref:
                            ctx.violation(f'{cmd} {first} {w}', f'spellings of one entry behave differently in {scen} {extra}', ref, b)
                            break
                    ctx.outcome((cmd, g[0], ref and ref[:2]))
    ctx.sample([cmd, [e[0] for e in entries[:3]]])
