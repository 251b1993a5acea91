"""C29: from a man page to an interface table to the parser."""
import itertools, json, os, shutil, subprocess, sys, tempfile
from mc import core

ID = 'C29'
RULE = ('state = man page (list of lines); transition = appending a line; the real script is run on a command whose man page this is, the '
        'table it prints is compared with the option lines of the page, is stored as the interface table of the command in a scratch copy of '
        'the package, and every spelling of the page is parsed there by a fresh interpreter')
BOUNDS = {'quick': 'all pages of up to 2 lines over 28 lines (option lines, descriptions, headings, other indentation) and of 3 lines over 9, 21 pages of 28 and 84 lines, 20 of up to 1030 distinct option lines, 5 '
                   'command names; commands without a page; every spelling alone, all ordered pairs, --name=value, clusters and unknown words parsed',
          'thorough': 'as quick with all pages of 3 lines over 28 and of 4 lines over 9, distinct option lines of every number up to 139 and of 19 up to 1331'}
ASSUMPTIONS = ['man is replaced by a stand-in that prints the page (no man pages are installed); the script is called from its directory, as '
               'documented', 'a UTF-8 locale']
CASE_TIMEOUT = 900
# line of the page -> [(spelling, argument or None)...] for option lines, None for all others
LINES = [
    ('       -a, --all', [('-a', None), ('--all', None)]),
    ('       -b     print the blanks', [('-b', None)]),
    ('       -c, --count=NUM', [('-c', None), ('--count', 'NUM')]),
    ('       -d DIR, --directory DIR', [('-d', 'DIR'), ('--directory', 'DIR')]),
    ('       --extra[=WHEN]', [('--extra', 'WHEN')]),
    ('       -a', [('-a', None)]),
    ('       --all, -e', [('--all', None), ('-e', None)]),
    ('       -G', [('-G', None)]),
    ('       -o FILE', [('-o', 'FILE')]),
    ('       --two-words   does two words', [('--two-words', None)]),
    ('       -xyz', [('-xyz', None)]),
    ('       -b, --blank  ‘prints’ the “blanks” – é', [('-b', None), ('--blank', None)]),
    ('       -i, -j, --k-l', [('-i', None), ('-j', None), ('--k-l', None)]),
    ('       -l, --a-very-long-name-of-a-flag-with-many-words, --another-very-long-name-of-the-same-flag, -m', [('-l', None), ('--a-very-long-name-of-a-flag-with-many-words', None),
                                                                                                             ('--another-very-long-name-of-the-same-flag', None), ('-m', None)]),
    ('       -n, --name=WORD   ' + 'text ' * 60, [('-n', None), ('--name', 'WORD')]),
    ('       -', []), ('       --', []), ('       -WORD', []),
    ('', None), ('NAME', None), ('-p', None), ('   -q', None), ('      -r', None), ('        -s', None), ('              -t, --deeper', None),
    ('       text about -u', None), ('\t-v', None), ('       cmd [OPTION] -- ‘quoted’', None)]
BASE = len(LINES)
for _n, (_a, _b, _c) in enumerate(itertools.product('acegikmoqsu', repeat=3)):  # distinct option lines for long pages
    LINES.append([(f'       --x{_a}{_b}{_c}', [(f'--x{_a}{_b}{_c}', None)]), (f'       --y{_a}{_b}{_c}=NUM', [(f'--y{_a}{_b}{_c}', 'NUM')]),
                  (f'       --z{_a}{_b}{_c}, --w{_a}{_b}{_c}   some text', [(f'--z{_a}{_b}{_c}', None), (f'--w{_a}{_b}{_c}', None)])][_n % 3])
LONG = {'quick': (30, 33, 41, 51, 65, 101, 129, 257, 520, 1030), 'thorough': tuple(range(4, 140)) + (200, 201, 255, 256, 257, 300, 400, 500, 511, 512, 513, 520, 600, 800, 1000, 1024, 1025, 1030, 1200, 1331)}
SMALL = [0, 1, 2, 3, 5, 9, 19, 24, 25]
NAMES = ['newcmd', 'new-cmd', 'git-new', 'new2', 'n.w']

MAN = '''#!/bin/sh
[ $# -eq 1 ] && [ -f "$PAGES/$1.page" ] && exec cat "$PAGES/$1.page"
echo "No manual entry for $1" >&2
exit 16
'''
PROBE = r'''
import sys, json
sys.dont_write_bytecode = True
sys.path[:] = [p for p in sys.path if 'site-packages' not in p]
sys.path.insert(0, sys.argv[1])
from pash_annotations.parser.parser import parse
def show(t):
    try:
        r = parse(t)
        return [r.cmd_name, [[f.get_name(), str(f.option_arg) if hasattr(f, 'option_arg') else None] for f in r.flag_option_list],
                [str(o.get_name()) if hasattr(o, 'get_name') else str(o) for o in r.operand_list]]
    except Exception as e:
        return 'raises ' + type(e).__name__ + ': ' + str(e)[:200]
for l in sys.stdin:
    print(json.dumps(show(json.loads(l))))
'''


def table(page):
    seen, flags, opts = set(), [], []
    for i in page:
        new = []
        for s, a in LINES[i][1] or []:
            if s.replace('-', '') not in seen:
                seen.add(s.replace('-', ''))
                new.append((s, a))
        if new and all(a is None for _, a in new):
            flags.append([s for s, _ in new])
        else:
            flags.extend([s] for s, a in new if a is None)
            opts.extend([s, a] for s, a in new if a is not None)
    return flags, opts


def reference(flags, opts, words):
    prim = {s: g[0] for g in flags for s in g}
    names = {o[0] for o in opts}
    out, i = [], 0
    while i < len(words):
        w = words[i]
        if w == '':
            break
        if w in prim:
            out.append([prim[w], None])
        elif w in names and i + 1 < len(words):
            out.append([w, words[i + 1]])
            i += 1
        elif w.startswith('--') and '=' in w and w.split('=')[0] in names:
            out.append(list(w.split('=', 1)))
        elif len(w) > 1 and w[0] == '-' and all('-' + c in prim for c in w[1:]):
            out += [[prim['-' + c], None] for c in w[1:]]
        else:
            break
        i += 1
    return [out, words[i:]]


def queries(flags, opts, page):
    sp = [s for i in page for s, _ in LINES[i][1] or []]
    pairs = [[a, b, 'x'] for a in sp for b in sp] if len(page) <= 3 * BASE and len(sp) <= 90 else [[a, b, 'x'] for a, b in zip(sp, sp[1:] + sp[:1])]
    r = [[s] for s in sp] + [[s, 'v', 'w'] for s in sp] + pairs + [[s + '=v', 'w'] for s in sp]
    short = [s[1] for s in sp if len(s) == 2]
    r += [['-' + a + b, 'x'] for a in short for b in short]
    r += [[], ['-'], ['--'], ['-Z', 'x'], ['-p'], ['-q'], ['-r'], ['-s'], ['-t'], ['--deeper'], ['-u'], ['-v'], ['-WORD'], ['x', *sp[:1]]]
    return [list(w) for w in dict.fromkeys(map(tuple, r))]


def pages(tier):
    n = BASE
    r = [()] + [(i,) for i in range(n)] + list(itertools.product(range(n), repeat=2))
    for s in range(0, n, 4 if tier == 'quick' else 1):
        r += [tuple((s + k) % n for k in range(n)), tuple((s - k) % n for k in range(n)), tuple((s + 5 * k) % n for k in range(3 * n))]
    for m in LONG[tier]:
        # alone, and between the lines that contribute nothing
        r += [tuple(range(BASE, BASE + m)), tuple(x for k in range(m) for x in ((BASE + k,) if k % 3 else (BASE + k, 16 + k % (BASE - 16))))]
    r += list(itertools.product(SMALL, repeat=3)) if tier == 'quick' else list(itertools.product(range(n), repeat=3)) + list(itertools.product(SMALL, repeat=4))
    return r


def cases(tier):
    size = 120 if tier == 'quick' else 400
    p = pages(tier)
    return [[tier, i, i + size] for i in range(0, len(p), size)] + [[tier, -1, -1]]


def run_case(case, ctx):
    tier, lo, hi = case
    top = tempfile.mkdtemp(prefix='c29-', dir='/tmp')
    try:
        go(pages(tier)[lo:hi] if lo >= 0 else [], lo, top, ctx)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def go(todo, lo, top, ctx):
    shutil.copytree(os.path.join(core.REPO, 'pash_annotations'), top + '/lib/pash_annotations',
                    ignore=shutil.ignore_patterns('old_annotations', 'tests', '__pycache__', '*.pyc'))
    where = top + '/lib/pash_annotations/parser/command_flag_option_info'
    os.makedirs(top + '/bin')
    os.makedirs(top + '/pages')
    with open(top + '/bin/man', 'w') as f:
        f.write(MAN)
    os.chmod(top + '/bin/man', 0o755)
    py = os.path.dirname(os.path.realpath(sys.executable))
    env = {'PATH': top + '/bin:/opt/venv/bin:' + py + ':/usr/bin:/bin', 'PAGES': top + '/pages', 'LC_ALL': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1', 'HOME': top}

    def script(cmd):
        p = subprocess.run(['bash', './manpage-to-json.sh', cmd], cwd=where, env=env, capture_output=True, stdin=subprocess.DEVNULL, timeout=120)
        return p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')

    def state(key, cmd, page):
        flags, opts = table(page)
        ctx.states += 1
        ctx.transitions += 1
        ctx.traces += 1
        out, err = script(cmd)
        try:
            t = json.loads(out)
        except ValueError:
            ctx.violation(key, 'the script prints no table', {'flag': flags, 'option': opts}, (out[:500], err[:500]))
            return None
        form = isinstance(t, dict) and set(t) >= {'flag', 'option'} and all(isinstance(t[k], list) and all(isinstance(g, list) for g in t[k]) for k in ('flag', 'option'))
        norm = lambda f, o: (sorted(map(tuple, f)), sorted(map(tuple, o)))
        ctx.outcome(norm(flags, opts))
        if not form or norm(t['flag'], t['option']) != norm(flags, opts):
            ctx.violation(key, 'the table is not that of the option lines of the page', {'flag': flags, 'option': opts}, t)
            return None
        return out

    if lo < 0:
        for cmd in NAMES + ['nothing', '']:
            state(f'no page for {cmd!r}', cmd, [])
    asked = []
    for k, page in enumerate(todo):
        cmd = NAMES[(lo + k) % len(NAMES)] + str(k)
        with open(f'{top}/pages/{cmd}.page', 'w', encoding='utf-8') as f:
            f.write(''.join(LINES[i][0] + '\n' for i in page))
        key = 'page ' + repr([LINES[i][0] for i in page])
        out = state(key, cmd, page)
        if out is None:
            continue
        with open(f'{where}/data/{cmd}.json', 'w') as f:
            f.write(out)
        flags, opts = table(page)
        asked += [(key, cmd, w, [cmd] + reference(flags, opts, w)) for w in queries(flags, opts, page)]
        if k < 2:
            ctx.sample(key)
    if not asked:
        return
    p = subprocess.run([sys.executable, '-B', '-c', PROBE, top + '/lib'], cwd='/', env=env, text=True, capture_output=True,
                       input=''.join(json.dumps(' '.join([c, *w])) + '\n' for _, c, w, _ in asked), timeout=600)
    got = [json.loads(l) for l in p.stdout.splitlines()]
    if len(got) != len(asked):
        raise RuntimeError(f'probe: {p.stderr[-500:]}')
    for (key, cmd, w, exp), g in zip(asked, got):
        ctx.transitions += 1
        ctx.expect(f'{key} parse {w}', 'parsing by the generated table', exp, g)
