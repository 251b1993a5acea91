"""C28: copies and installations of the package, wherever they are and whoever uses them."""
import json, os, pickle, shutil, subprocess, sys, tempfile
from mc import core, model

ID = 'C28'
RULE = ('state = (how the package got there, where it is, who runs it and from where) or the module that is imported first; transition = a '
        'complete query of one command line in a fresh interpreter there; every answer is compared with that of the source tree')
BOUNDS = {
    'quick': '{copy of the tree, installation, installation from a source archive} x 7 locations x 6 working directories x '
             '{as is, POSIX locale, other user} in all combinations, and imported by a relative path; every module of the package imported '
             'first; 69 command lines each; the command line tool run from 3 working directories of every copy',
    'thorough': 'as quick with 570 command lines'}
ASSUMPTIONS = ['installation by the pip and setuptools of /opt/venv without network', 'the other user can read the installation']
CASE_TIMEOUT = 600
KINDS = ['copy', 'installed', 'from source archive']
PLACES = ['plain', "with space 'n \"quotes\"", 'per%cent {brace} [bracket] $HOME', 'ünï', 'tests/pash_annotations/parser', 'link', '.hidden/a/b/c/d/e/f/g/h']
CWDS = ['root', 'place', 'inside', 'decoy', 'gone', 'unreadable']
USERS = ['as is', 'locale', 'other user']
PIP = '/opt/venv/bin/python'
PROBE = r'''
import sys, os, json, pickle
sys.dont_write_bytecode = True
place, verif, first, rel, lines = json.loads(sys.stdin.readline())
sys.path[:] = [p for p in sys.path if 'site-packages' not in p]
if rel:
    os.chdir(os.path.dirname(place) or '.')
sys.path.insert(0, os.path.basename(place) if rel else place)
import importlib
if first:
    importlib.import_module(first)
import pash_annotations
if rel:
    import pash_annotations.parser.parser, pash_annotations.annotation_generation.AnnotationGeneration
    os.chdir('/')
sys.path.append(verif)
from mc import chain, lib
def ask(t):
    try:
        return chain.Chain(t).observe()
    except Exception as e:
        return 'raises ' + type(e).__name__ + ': ' + str(e)[:200]
out = [ask(t) for t in lines]
sys.stdout.buffer.write(pickle.dumps((os.path.realpath(list(pash_annotations.__path__)[0]), out)))
'''
# the library is only used in the probes; this module must not import it


def lines(tier):
    r = []
    for c in model.ALL_COMMANDS:
        r.append(f'{c} -n 2 x y' if c not in ('tr', 'cut') else f'{c} -d x y')
    r += ["sort -k 1,1 -o out a", "grep -i x f", "tr -d '[:alpha:]'", 'cut -d , -f 1', 'uniq -c a b', 'sed s/a/b/', 'head -n 1 f', 'xargs -n 1 rm', 'mv a b', 'comm a b',
          'cat', 'wc -l', 'grep -c pat', 'sort', 'sort -rn', 'uniq', 'tee a', 'diff a b', "grep -e x -f pats", 'rm -rf x', 'tail -c 5 f', 'mkfifo p', "awk '{print}' f",
          'custom_sort -r', 'alt_bigrams_aux', 'caf\u00e9 -x a', '\u4e2d', 'sort -k \u00e9 \u4e2d', "grep '\u00df' \u00e9", "tr '\u00e9' '\\n'", 'cat \u4e2d.txt \udc80',
          'so\udcffrt x', 'SORT -r x', '\u017fort -r']
    if tier == 'thorough':
        r += [f'{c} {w}' for c in model.ALL_COMMANDS for w in ('', 'x', '-', 'x y z', '-a', '-r x', '-c x', '-f x y', '-o x y', '-e x - y', '--help', '-z', '-l x', '-i x y', '-s x')]
    return r


def modules():
    r = []
    top = os.path.join(core.REPO, 'pash_annotations')
    for d, ds, fs in sorted(os.walk(top)):
        ds[:] = sorted(x for x in ds if x not in ('tests', '__pycache__', 'old_annotations'))
        for f in sorted(fs):
            if f.endswith('.py') and f[:-3].isidentifier() and not f.startswith('test_'):
                m = os.path.relpath(os.path.join(d, f[:-3]), core.REPO).replace(os.sep, '.')
                if 'command_flag_option_info' not in m and not m.endswith('_cli'):      # scripts
                    r.append(m[:-len('.__init__')] if m.endswith('.__init__') else m)
    return r


def cases(tier):
    return [['where', k, p, tier] for k in KINDS for p in PLACES] + [['first', m, None, tier] for m in modules()]


def env(extra=()):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'PIP_', 'VERIF_'))}
    return dict(e, PYTHONDONTWRITEBYTECODE='1', PIP_NO_CACHE_DIR='1', PIP_DISABLE_PIP_VERSION_CHECK='1', **dict(extra))


def sources(to):
    """what a user gets from the repository: all files but those which git ignores"""
    shutil.copytree(core.REPO, to, symlinks=True, ignore=lambda d, names: [
        n for n in names if n in ('.git', '__pycache__', 'build', 'dist', '.pytest_cache', '.vscode', '.idea') or n.endswith('.egg-info')])


def install(kind, place, top):
    """-> error or None; the package can be imported from place afterwards"""
    src = os.path.join(top, 'src')
    sources(src)
    if kind == 'copy':
        shutil.copytree(os.path.join(src, 'pash_annotations'), os.path.join(place, 'pash_annotations'))
        return
    e = env({'HOME': os.path.join(top, 'home'), 'TMPDIR': os.path.join(top, 'tmp')}.items())
    for d in ('home', 'tmp'):
        os.mkdir(os.path.join(top, d))
    what = src
    if kind == 'from source archive':
        p = subprocess.run([PIP, 'setup.py', '-q', 'sdist', '-d', '../dist'], cwd=src, env=e, capture_output=True, text=True, stdin=subprocess.DEVNULL)
        if p.returncode:
            return 'sdist: ' + p.stderr[-800:]
        what = os.path.join(top, 'dist', os.listdir(os.path.join(top, 'dist'))[0])
    p = subprocess.run([PIP, '-m', 'pip', 'install', '-q', '--no-build-isolation', '--no-index', '--no-deps', '--no-compile', '--target', os.path.join(top, 'target'),
                        what], cwd=top, env=e, capture_output=True, text=True, stdin=subprocess.DEVNULL)
    if p.returncode:
        return 'pip: ' + p.stderr[-800:]
    for n in os.listdir(os.path.join(top, 'target')):
        shutil.move(os.path.join(top, 'target', n), os.path.join(place, n))


def ask(place, first, rel, texts, cwd, user, remove_cwd=False):
    """answers of a fresh interpreter; (realpath of the package, answers) or text of the failure"""
    pre = None
    if remove_cwd or user == 'other user':
        def pre():
            if remove_cwd:
                os.rmdir(os.getcwd())
            if user == 'other user':
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
    e = env({'LC_ALL': 'POSIX', 'LANG': 'POSIX', 'POSIXLY_CORRECT': '1', 'PYTHONCOERCECLOCALE': '0',
             'PYTHONUTF8': '0' if place.isascii() else '1'}.items() if user == 'locale' else ())
    p = subprocess.run([sys.executable, '-P', '-c', PROBE], input=json.dumps([place, core.VERIF, first, rel, texts]).encode() + b'\n', capture_output=True, cwd=cwd,
                       env=e, preexec_fn=pre, timeout=300)
    if p.returncode:
        return p.stderr.decode(errors='replace')[-800:]
    return pickle.loads(p.stdout)


_base = {}


def base(tier):
    if tier not in _base:
        r = ask(core.REPO, None, False, lines(tier), '/', 'as is')
        if isinstance(r, str):
            raise RuntimeError('the source tree does not answer: ' + r)
        _base[tier] = r[1]
    return _base[tier]


def compare(key, place, r, tier, ctx):
    ctx.states += 1
    ctx.transitions += len(lines(tier))
    if isinstance(r, str):
        ctx.violation(key, 'the package does not work', 'answers', r)
        return
    if r[0] != os.path.realpath(os.path.join(place, 'pash_annotations')):
        raise RuntimeError(f'probed {r[0]}')
    for t, e, g in zip(lines(tier), base(tier), r[1]):
        ctx.traces += 1
        ctx.outcome(e)
        if e != g:
            k = next((k for k in range(min(len(e), len(g))) if e[k] != g[k]), -1)
            ctx.violation(f'{key}: {t}', 'answer differs from that of the source tree', e if isinstance(e, str) else e[k], g if isinstance(g, str) else g[k])


def decoy(d):
    """a directory with files which must not be used"""
    for sub in ('', 'data', 'command_flag_option_info/data', 'parser/command_flag_option_info/data', 'pash_annotations/parser/command_flag_option_info/data'):
        os.makedirs(os.path.join(d, sub), exist_ok=True)
        for c in model.ALL_COMMANDS + ['_default_data_for_commands']:
            with open(os.path.join(d, sub, c + '.json'), 'w') as f:
                f.write('{"flag": [["-x"]], "option": []}')
    for m in ('util', 'parser', 'AnnotationGeneration', 'json_', 'datatypes'):
        with open(os.path.join(d, m + '.py'), 'w') as f:
            f.write('raise RuntimeError("decoy")\n')


def run_case(case, ctx):
    what, a, where, tier = case
    if what == 'first':
        key = f'import {a} first'
        compare(key, core.REPO, ask(core.REPO, a, False, lines(tier), '/', 'as is'), tier, ctx)
        return
    top = tempfile.mkdtemp(prefix='mc-c28-')
    try:
        os.chmod(top, 0o755)
        place = os.path.join(top, 'p', where)
        os.makedirs(place)
        bad = install(a, place, top)
        if bad:
            ctx.violation(f'{a}', 'the package cannot be installed', None, bad)
            return
        if where == 'link':
            os.rename(place, place + ' target')
            os.symlink('link target', place)
        for d, ds, fs in os.walk(os.path.join(top, 'p')):
            os.chmod(d, 0o755)
        os.makedirs(os.path.join(top, 'decoy'))
        decoy(os.path.join(top, 'decoy'))
        os.mkdir(os.path.join(top, 'closed'))
        for cwd in CWDS:
            for user in USERS:
                d = {'root': '/', 'place': place, 'inside': os.path.join(place, 'pash_annotations', 'parser'), 'decoy': os.path.join(top, 'decoy'),
                     'gone': os.path.join(top, 'gone'), 'unreadable': os.path.join(top, 'closed')}[cwd]
                if cwd == 'gone':
                    os.mkdir(d)
                if cwd == 'unreadable':
                    os.chmod(d, 0)
                r = ask(place, None, False, lines(tier), d, user, cwd == 'gone')
                compare(f'{a} in {where!r} used from {cwd} ({user})', place, r, tier, ctx)
        compare(f'{a} in {where!r} by relative path', place, ask(place, None, True, lines(tier), '/', 'as is'), tier, ctx)
        tool(a, place, where, top, ctx)
        ctx.sample([a, where])
    finally:
        shutil.rmtree(top)


def tool(kind, place, where, top, ctx):
    import re
    norm = lambda s: re.sub(r'0x[0-9a-f]+', '0x', s)
    for text in ('sort -n f', 'mv a b', 'grep -c x'):
        exp = None
        for d in ('/', os.path.join(place, 'pash_annotations'), os.path.join(top, 'decoy')):
            for p0 in (core.REPO, place):
                # -I: nothing is imported from the working directory
                code = "import sys, runpy; sys.path.insert(0, %r); sys.argv[0] = 'annotation_cli'; runpy.run_module('pash_annotations.annotation_cli', run_name='__main__', alter_sys=True)" % p0
                p = subprocess.run([sys.executable, '-I', '-B', '-c', code, text], cwd=d, capture_output=True, text=True, env=env(), stdin=subprocess.DEVNULL)
                got = (p.returncode, norm(p.stdout))
                if exp is None:
                    exp = got
                ctx.transitions += 1
                ctx.traces += 1
                ctx.expect(f'command line tool of {kind} in {where!r} run from {d if d == "/" else os.path.basename(d)} on {text}', 'report differs from that of the source tree', exp, got)
