"""C18: the command line tool in every state of the path to save to, and against a file that appears while it runs."""
import itertools, os, pickle, subprocess, sys, tempfile, shutil

ID = 'C18'
RULE = ('state = (invocation, way to start the tool, path form, state of the path, working directory); transition = one run of the '
        'real tool as a process in a scratch directory, the directory is compared before and after, the report with the answers of '
        'the library; schedules: another process creates the file before the k-th line of the tool, for every k')
BOUNDS = {
    'quick': '41 invocations and 10 of 300..5000 words or characters (6 of them also started as module and as script by a new interpreter) x 14 (path form, state) combinations, schedules for 6 invocations with 5 '
             'kinds of files; 58 names to save to (also through links to directories, and from a linked directory) x 4 states x 2 ways to give them for 2 invocations',
    'thorough': 'all invocations of the menu plus every annotated command with 0-3 operands x all combinations, schedules for all'}
ASSUMPTIONS = ['the report may be laid out freely (white space) and headed freely; the parts are the library\'s own texts in order']
INVS = ['grep pat f', 'grep -c pat', "grep -e x -f pats a b", 'sort', 'sort -n -k 2 f', 'sort -T tmp f', 'sort -u', 'sort -o out f', 'uniq', 'uniq a b', 'uniq a b c',
        'rm -rf x', 'mv a b', 'tee a', 'mkfifo p', 'cat', 'cat - f', 'cut -d , -f 1', 'tr a b', "tr -d '\\n'", 'comm a', 'comm a -', 'foo -x y', 'bigrams_aux', 'test_one',
        'wc -l', 'sed s/a/b/', "sed '/x/d'", 'xargs -n 1 echo', "grep 'a b' 'c d'", 'head -n 1', 'custom_sort -r', 'set_diff f', 'diff a b',
        "cut -d '  ' -f 1", 'cut -d \\  ', " grep  'a  b\tc' ", "grep '\n'", "cut -d 'é ' ' x '", "tr '\\n' '\r'", 'sort -k 1,1 -k 1,1 a a ',
        "cat 'a\r\nb'", "grep '\r\n\n' '\x0b' '\x0c\x1c'", "grep '\u2028\x85' 'a\xa0'", "cut -d '\ufeff' 'x\n\r' '\n\n'"]
LONG = ['cat ' + ' '.join('file%d' % i for i in range(1000)), 'sort' + ' -k 1,1' * 500 + ' x', 'sort' + ''.join(' -k %d -r -u f%d' % (i, i) for i in range(300)),
        'grep ' + 'x' * 5000 + ' ' + 'y' * 300, 'foo ' + ' '.join('-o%d a' % i for i in range(600)), 'rm ' + ' '.join('f%d' % i for i in range(400)), "grep '" + 'a b ' * 2000 + "' f",
        'tee ' + ' '.join('t%d' % i for i in range(300)), 'cut -d , -f ' + ','.join(str(i) for i in range(1, 1200)) + ' a b', 'cat' + ' ' * 3000 + 'x']
PROCESSES = ['grep pat f', 'grep -c pat', 'sort', 'rm -rf x', 'foo -x y', 'sort -o out f']
STATES = ['absent', 'empty file', 'file', 'directory', 'link to file', 'dangling link', 'link to directory', 'read-only file', 'long file']
FORMS = ['relative', 'absolute', 'subdirectory']


NAMES = ['-', '--', '~', '~/x', '$HOME', '$HOME/x', '${HOME}x', 'a b', ' a', 'a ', "it's", '"q"', '*', '?', '[a]', 'é.txt', '\u4e2d', '.hidden', '..x', './out', 'deep/../out',
         '-x', '-', 'out', 'out.txt', 'out.json', 'out.py', 'out.tmp', 'out~', 'out.txt.bak', 'n' * 255, 'a\nb', 'a\tb', 'a\\b', 'a=b', 'a,b', 'a;b', '%s', '{}', 'CON', '0', 'None',
         'False', '/dev/../{d}/work/abs', '{d}/work/./abs', '{d}//work/abs', '../work/up', 'deep/er/out', '../sub/x', 'lnk/out', 'lnk/../out', 'lnk/deep/../../out', 'deep/../lnk/../x', 'lnk/../lnk/out', './lnk/../work/../out', 'result', 'stdout', 'tmp']


def combos():
    r = [('none', None)]
    r += [('relative', s) for s in STATES]
    return r + [('absolute', 'absent'), ('absolute', 'file'), ('subdirectory', 'absent'), ('subdirectory', 'file')]


def cases(tier):
    invs = list(INVS)
    if tier == 'thorough':
        from mc import model
        invs += [' '.join([c] + ['a', 'b', 'c'][:k]) for c in model.ALL_COMMANDS for k in range(4)]
    r = []
    for i in invs:
        for start in ('module', 'script', 'fork') if i in PROCESSES else ('fork',):
            r.append(['run', i, start])
    r += [['run', i, 'fork'] for i in LONG]
    r += [['names', i, k] for i in INVS[:1] + INVS[9:10] for k in range(len(NAMES))]
    r += [['race', i, None] for i in (invs if tier == 'thorough' else INVS[:6])]
    return r


def norm(s):
    return ' '.join(s.split())


def expected_parts(text):
    from mc import lib
    from pash_annotations.annotation_generation.datatypes.ParallelizabilityInfo import ParallelizabilityInfo
    inv = lib.parse(text)
    io = lib.io_info(inv)
    parts = [text, str(inv)]
    if io is None:
        parts.append('side-effectful')
    elif io.has_other_outputs():
        parts.append('outputs other than streaming')
    else:
        parts.append(str(io.apply_input_output_info_to_command_invocation(inv)))
    p = lib.para_info(inv)
    parts.append(str(p if p is not None else ParallelizabilityInfo()))
    words = [text] + [e.get_name() for e in inv.flag_option_list] + [o.get_name() for o in inv.operand_list]
    words += [e.get_arg() for e in inv.flag_option_list if type(e) is lib.Option]
    return [norm(p) for p in parts] + [words]


def snapshot(d):
    r = {}
    for base, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(base, n)
            if os.path.islink(p):
                r[os.path.relpath(p, d)] = ('link', os.readlink(p))
            elif os.path.isdir(p):
                r[os.path.relpath(p, d)] = ('dir',)
            else:
                with open(p, 'rb') as f:
                    r[os.path.relpath(p, d)] = ('file', f.read(), os.stat(p).st_mode)
    return r


def setup(d, form, state):
    """creates the state of the path; -> (argument, path below d)"""
    os.makedirs(os.path.join(d, 'sub'))
    os.makedirs(os.path.join(d, 'work'))
    with open(os.path.join(d, 'work', 'other'), 'w') as f:
        f.write('precious\n')
    rel = {'relative': 'work/out.txt', 'absolute': 'sub/out.txt', 'subdirectory': 'sub/out.txt'}[form]
    p = os.path.join(d, rel)
    if state in ('empty file', 'file', 'read-only file', 'long file'):
        with open(p, 'w') as f:
            f.write({'empty file': '', 'long file': 'precious\n' * 20000}.get(state, 'precious\n'))
        if state == 'read-only file':
            os.chmod(p, 0o444)
    elif state == 'directory':
        os.makedirs(p)
    elif state == 'link to file':
        os.symlink('other', p)
    elif state == 'dangling link':
        os.symlink('nowhere', p)
    elif state == 'link to directory':
        os.symlink('../sub', p)
    return {'relative': 'out.txt', 'absolute': p, 'subdirectory': '../sub/out.txt'}[form], rel


def check_report(key, what, parts, text, ctx):
    t, pos = norm(text), 0
    for w in parts[-1]:
        if w not in text:
            ctx.violation(key, what + ': a text of the invocation is not in the report as it is', w, text[-3000:])
            return
    parts = parts[:-1]
    for p in parts:
        k = t.find(p, pos)
        if k < 0:
            ctx.violation(key, what + ': part of the report is missing or out of order', p, text[-3000:])
            return
        pos = k + len(p)
    if parts[2] not in ('side-effectful', 'outputs other than streaming'):
        for w in ('side-effectful', 'outputs other than streaming'):
            if w in t[t.find(parts[1]) + len(parts[1]):]:
                ctx.violation(key, what + ': the report says "' + w + '"', parts, text[-3000:])


def run_case(case, ctx):
    fam, text, start = case
    if fam == 'race':
        for what in ('file', 'empty file', 'link', 'dangling link', 'directory') if text in INVS[:2] else ('file', 'dangling link'):
            race(text, what, ctx)
        return
    if fam == 'names':
        return names(text, NAMES[start], ctx)
    from mc import core, lib
    parts = expected_parts(text)
    env = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C.UTF-8', 'PYTHONPATH': core.REPO, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': '/nonexistent/pycache'}
    plain = None
    how = ['-m', 'pash_annotations.annotation_cli'] if start == 'module' else [os.path.join(core.REPO, 'pash_annotations', 'annotation_cli.py')]
    for form, state in combos():
        d = tempfile.mkdtemp(prefix='verif-cli-')
        try:
            arg, rel = setup(d, form if form != 'none' else 'relative', state)
            before = snapshot(d)
            argv = [sys.executable] + how + ['--command_invocation', text] + ([] if form == 'none' else ['--save_to', arg])
            if start == 'fork':
                p = forked(argv[len(how) + 1:], os.path.join(d, 'work'))
            else:
                p = subprocess.run(argv, cwd=os.path.join(d, 'work'), env=env, stdin=subprocess.DEVNULL, capture_output=True)
            after = snapshot(d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        ctx.states += 1
        ctx.transitions += 1
        ctx.traces += 1
        key = f'{start} {text} [{form}, {state}]'
        out = p.stdout.decode('utf-8', 'replace')
        if p.returncode:
            ctx.violation(key, 'the tool fails', 0, p.stderr.decode('utf-8', 'replace')[-1500:])
            continue
        if form != 'none' and state == 'absent':
            f = after.pop(rel, None)
            if f is None or f[0] != 'file':
                ctx.violation(key, 'nothing saved', rel, sorted(after))
            else:
                check_report(key, 'saved', parts, f[1].decode('utf-8', 'replace'), ctx)
            ctx.expect(key, 'the report is saved, but the tool prints', '', norm(out))
        else:
            check_report(key, 'printed', parts, out, ctx)
            if form == 'none':
                plain = norm(out)
            elif not norm(out).replace(plain, '', 1):
                ctx.violation(key, 'the tool does not say that it has not saved the report', 'the report and a notice', out[:500])
        ctx.expect(key, 'files changed', before, after)
        ctx.outcome((parts, form, state))
    ctx.sample(key)


def names(text, name, ctx):
    """names of every look, not there and there already"""
    parts = expected_parts(text)
    for state, joined, via in itertools.product(('absent', 'file', 'dangling link', 'directory'), (False, True), (False, True)):
        if name.startswith('-') and name != '-' and not joined or via and (joined or not ('/' in name or name == 'out')):
            continue
        d = tempfile.mkdtemp(prefix='verif-cli-')
        try:
            arg = name.replace('{d}', d)
            # the working directory may have been entered by a link, and there is a directory link in it
            if via:
                os.makedirs(os.path.join(d, 'far', 'away', 'work'))
                os.symlink('far/away/work', os.path.join(d, 'work'))
                os.makedirs(os.path.join(d, 'far', 'away', 'sub'))
            else:
                os.makedirs(os.path.join(d, 'work'))
            os.makedirs(os.path.join(d, 'work', 'deep', 'er'))
            os.makedirs(os.path.join(d, 'work', name.split('/')[0] if '~/' in name or '$HOME/' in name else 'deep2'))
            os.makedirs(os.path.join(d, 'sub'))
            os.makedirs(os.path.join(d, 'up', 'lower', 'deep'))
            os.makedirs(os.path.join(d, 'up', 'work'))
            os.symlink(os.path.join(d, 'up', 'lower'), os.path.join(d, 'work', 'lnk'))
            os.symlink(os.path.join(d, 'up', 'lower'), os.path.join(d, 'up', 'lnk'))
            with open(os.path.join(d, 'work', 'other'), 'w') as f:
                f.write('precious\n')
            full = os.path.join(d, 'work', arg)
            rel = os.path.relpath(os.path.join(os.path.realpath(os.path.dirname(full)), os.path.basename(full)), os.path.realpath(d))
            assert not rel.startswith('..'), rel
            if state == 'file':
                with open(full, 'x') as f:
                    f.write('precious\n')
            elif state == 'dangling link':
                os.symlink('nowhere', full)
            elif state == 'directory':
                os.makedirs(full)
            before = snapshot(d)
            p = forked(['--command_invocation', text] + (['--save_to=' + arg] if joined else ['--save_to', arg]), os.path.join(d, 'work'), env={'HOME': os.path.join(d, 'sub'), 'PWD': os.path.join(d, 'work')})
            after = snapshot(d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        ctx.states += 1
        ctx.transitions += 1
        ctx.traces += 1
        key = f'save {text} to {name!r} ({state}{", joined" if joined else ""}{", in a linked directory" if via else ""})'
        out = p.stdout.decode('utf-8', 'replace')
        if p.returncode:
            ctx.violation(key, 'the tool fails', 0, p.stderr.decode('utf-8', 'replace')[-1500:])
            continue
        if state == 'absent':
            f = after.pop(rel, None)
            if f is None or f[0] != 'file':
                ctx.violation(key, 'nothing saved', rel, sorted(after))
            else:
                check_report(key, 'saved', parts, f[1].decode('utf-8', 'replace'), ctx)
            ctx.expect(key, 'the report is saved, but the tool prints', '', norm(out))
        else:
            check_report(key, 'printed', parts, out, ctx)
        ctx.expect(key, 'files changed', before, after)
        ctx.outcome((text, name, state))


class Result:
    pass


def forked(args, cwd, race=None, env=None):
    """the tool as main program in a forked process in which the library has been imported but not used;
    race: (line number, path) - the file is created before that line of the tool is executed"""
    import runpy
    from mc import core
    cli = os.path.join(core.REPO, 'pash_annotations', 'annotation_cli.py')
    fds = [os.memfd_create(n) for n in ('out', 'err')]
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.chdir(cwd)
            os.environ.update(env or {})
            os.dup2(fds[0], 1)
            os.dup2(fds[1], 2)
            sys.stdout = open(1, 'w', encoding='utf-8', closefd=False)
            sys.stderr = open(2, 'w', encoding='utf-8', closefd=False)
            sys.argv = [cli] + args
            if race:
                sys.settrace(tracer(cli, *race))
            try:
                runpy.run_path(cli, run_name='__main__')
            finally:
                if race:
                    sys.settrace(None)
                    sys.stderr.write('@lines %d\n' % N[0])
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except BaseException:
            import traceback
            traceback.print_exc()
            code = 1
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    r = Result()
    r.returncode = os.waitstatus_to_exitcode(st)
    from mc import runner
    r.stdout, r.stderr = runner.slurp(fds[0]), runner.slurp(fds[1])
    for f in fds:
        os.close(f)
    return r


N = [0]
CONTENT = {'file': b'precious\n', 'empty file': b''}


def appear(what, target):
    """False if the tool has created the file already"""
    try:
        if what in CONTENT:
            fd = os.open(target, os.O_WRONLY | os.O_CREAT | os.O_EXCL)
            os.write(fd, CONTENT[what])
            os.close(fd)
        elif what == 'directory':
            os.mkdir(target)
        else:
            os.symlink('precious' if what == 'link' else 'nowhere', target)
    except FileExistsError:
        return False
    return True


def tracer(cli, k, target, what):
    def local(frame, event, arg):
        if event == 'line':
            if N[0] == k:
                sys.stderr.write('@created\n' if appear(what, target) else '@late\n')
            N[0] += 1
        return local
    return lambda frame, event, arg: local if os.path.realpath(frame.f_code.co_filename) == cli else None


def race(text, what, ctx):
    """another process creates the path to save to just before the k-th line of the tool, for every k"""
    for k in range(1000):
        d = tempfile.mkdtemp(prefix='verif-cli-')
        try:
            with open(os.path.join(d, 'precious'), 'w') as f:
                f.write('other\n')
            t = os.path.join(d, 'out.txt')
            p = forked(['--command_invocation', text, '--save_to', t], d, (k, t, what))
            got = snapshot(d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        err = p.stderr.decode('utf-8', 'replace')
        ctx.states += 1
        ctx.transitions += 1
        ctx.traces += 1
        key = f'race {text} {what} line {k}'
        ctx.expect(key, 'another file was changed', b'other\n', got.pop('precious', (0, 0))[1])
        if '@created' in err:
            got = {n: v[:2] for n, v in got.items()}
            exp = {'file': ('file', b'precious\n'), 'empty file': ('file', b''), 'directory': ('dir',), 'link': ('link', 'precious'),
                   'dangling link': ('link', 'nowhere')}[what]
            ctx.expect(key, 'what appeared meanwhile was changed, or there is another file', {'out.txt': exp}, got)
        elif '@late' not in err:
            ctx.count('lines of the tool', k)
            break
        ctx.outcome((text, what, '@created' in err))
