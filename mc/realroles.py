"""Validation of the role model (mc.model.ref_io) by running the installed commands and watching what they touch (inotify)."""
import ctypes, os, shutil, struct

from mc import enumr, model, runner

CMDS = ['cat', 'comm', 'cut', 'diff', 'grep', 'head', 'mkfifo', 'mv', 'rm', 'sed', 'seq', 'sort', 'tail', 'tee', 'tr', 'uniq', 'wc', 'xargs', 'awk']
IN_ISDIR = 0x40000000
IN_ACCESS, IN_MODIFY, IN_ATTRIB, IN_OPEN, IN_MOVED_FROM, IN_MOVED_TO, IN_CREATE, IN_DELETE = 1, 2, 4, 0x20, 0x40, 0x80, 0x100, 0x200
WRITE = IN_MODIFY | IN_MOVED_FROM | IN_MOVED_TO | IN_CREATE | IN_DELETE
MASK = IN_ACCESS | IN_OPEN | WRITE
libc = ctypes.CDLL(None, use_errno=True)

# options and values that let a run succeed; an option without entry is used with 'v'
VALUES = {
    'comm': {'--output-delimiter': [':']},
    'cut': {'-b': ['1-2'], '-c': ['2'], '-d': [' '], '-f': ['1'], '--output-delimiter': [':']},
    'diff': {'-C': ['1'], '-U': ['1'], '-W': ['40'], '-F': ['a'], '--label': ['fd'], '--tabsize': ['4'], '-x': ['fd'], '--exclude-from': ['pats'], '-S': ['fd'],
             '--from-file': ['fd'], '--to-file': ['fd'], '-I': ['Q'], '-D': ['N'], '--line-format': ['%L'], '--horizon-lines': ['1'], '--color': ['always'], '--palette': ['ad=1']},
    'grep': {'-e': ['a', 'fd'], '-f': ['pats'], '--color': ['always'], '-m': ['1'], '--label': ['fd'], '-A': ['1'], '-B': ['1'], '-C': ['1'], '--group-separator': ['fd'],
             '--binary-files': ['text'], '-D': ['skip'], '-d': ['skip', 'recurse', 'read'], '--exclude': ['fd'], '--exclude-from': ['pats2'], '--exclude-dir': ['d'], '--include': ['*']},
    'head': {'-n': ['1'], '-c': ['5']},
    'mkfifo': {'-m': ['600']},
    'mv': {'--backup': ['numbered'], '-S': ['.s'], '-t': ['d'], '--update': ['all']},
    'rm': {'--interactive': ['never'], '--preserve-root': ['all']},
    'sed': {'-e': ['s/a/E/', 'p'], '-f': ['scr'], '-l': ['5']},
    'seq': {'-f': ['%g!'], '-s': ['fd']},
    'sort': {'--random-source': ['rnd'], '--sort': ['numeric'], '--batch-size': ['2'], '--compress-program': ['cat'], '--files0-from': ['l0'], '-k': ['2'], '-o': ['o', 'fd'], '-S': ['1M'],
             '-t': [' '], '-T': ['d'], '--parallel': ['1'], '--check': []},
    'tail': {'-c': ['5'], '-n': ['1'], '--max-unchanged-stats': [], '--pid': [], '-s': [], '--follow': []},
    'tee': {'--output-error': ['warn']},
    'uniq': {'--all-repeated': ['prepend'], '-f': ['1'], '--group': ['append'], '-s': ['1'], '-w': ['2']},
    'wc': {'--files0-from': ['l0']},
    'xargs': {'-a': [], '--delimiter': ['b'], '-E': ['END'], '-I': ['{}'], '-L': ['1'], '-n': ['2'], '-P': ['1'], '-s': ['200'], '--process-slot-var': ['V']},
    'awk': {'-F': [':'], '-v': ['fd=1'], '-f': ['prog'], '-e': [], '-E': [], '-i': [], '-l': []},
}
# flags whose runs are no evidence: help, prompts, runs without end, terminals
SKIP = {'*': ['--help', '--version', '-V'], 'mv': ['-i', '-n', '-u', '-T', '--update'], 'rm': ['-i', '-I', '--interactive'], 'tail': ['-f', '--retry'], 'xargs': ['-p', '-o'], 'sort': ['-c', '-C'],
        'diff': ['-v', '-l'], 'sed': ['-i', '--in-place'], 'mkfifo': ['-Z', '--context']}
FIRST = {'sed': ['s/a/b/', 'p'], 'grep': ['a', 'fd'], 'awk': ['{print}', '/a/']}
OPERANDS = {
    None: [[], ['fa'], ['-'], ['fa', 'fb'], ['fa', '-'], ['-', 'fb'], ['fa', 'fb', 'fc'], ['fb', 'fa', '-']],
    'tr': [['fa', 'fb']],
    'seq': [['1'], ['1', '2'], ['1', '2', '6']],
    'xargs': [[], ['echo'], ['echo', 'fa'], ['echo', 'fa', '-']],
    'mkfifo': [['o'], ['o', 'p'], ['o', 'p', 'q'], ['d/o']],
    'mv': [['fa', 'fb'], ['fa', 'd'], ['fa', 'fb', 'd'], ['fa', 'o'], ['fa', 'fb', 'fc', 'd'], ['fa'], ['d', 'o']],
    'rm': [['fa'], ['fa', 'fb'], ['fa', 'fb', 'fc'], ['d']],
    'tee': [[], ['fa'], ['o'], ['fa', 'o', 'p']],
    'comm': [['fa', 'fb'], ['fa', '-'], ['-', 'fb']],
    'diff': [['fa', 'fb'], ['fa', '-'], ['-', 'fb'], ['fa', 'd']],
    'uniq': [[], ['fa'], ['fa', 'o'], ['-', 'fb'], ['-', 'o'], ['-'], ['fb', '-']],
}
# '-' where the command means a file of that name (or does not)
DASH = {'tee': [['-'], ['fa', '-']], 'mv': [['fa', '-'], ['-', 'fa']], 'rm': [['-']], 'mkfifo': [['-']], 'sort': [['-o', '-', 'fa']], 'xargs': [['echo', '-']]}
CONTENT = {'fa': b'a b\nbb a\nc a\nd a b\n', 'fb': b'a b\na b\nc a\ndd a a\n', '-': b'dash a\n', 'fc': b'Z a\na\nfd\n', 'fd': b'a\n', 'pats': b'a\n', 'pats2': b'nomatch\n', 'scr': b's/a/Q/\n', 'prog': b'{print}\n',
           'rnd': b'0123456789abcdef' * 64, 'l0': b'fd\0', 'd/fa': b'x a\n', 'd/z': b'a\n'}
STDIN = b'a b\na b\nbb a b\na b\n'           # as long as fa and fb


def flags_and_options(cmd):
    t = model.table(cmd)
    fl = {s for g in t['flag'] for s in g}
    skip = SKIP['*'] + SKIP.get(cmd, [])
    G = [[[g[0]]] for g in t['flag'] if not set(g) & set(skip)]
    for g in t['option']:
        if set(g[:-1]) & set(skip):
            continue
        sep = [s for s in g[:-1] if s not in fl]
        G.append([[sep[0], v] if sep else [g[0] + '=' + v] for v in VALUES.get(cmd, {}).get(g[0], [])])
    if cmd == 'awk':                                 # only mawk is installed
        G = [g for g in G if g and g[0][0] in ('-F', '-v', '-f')]
    return [g for g in G if g]


def selections(cmd, k):
    import itertools
    for c in itertools.combinations(flags_and_options(cmd), k):
        for vs in itertools.product(*c):
            r = [w for v in vs for w in v]
            yield (['-R'] if '--random-source' in r and '-R' not in r else []) + r


def operands(cmd, sel):
    base = OPERANDS.get(cmd, OPERANDS[None])
    if cmd in FIRST:
        script = {'sed': ('-e', '-f'), 'grep': ('-e', '-f'), 'awk': ('-f',)}[cmd]
        if set(sel) & set(script):
            return base
        return [[f] + b for f in FIRST[cmd] for b in base]
    return base


def plan(tier):
    r = []
    for cmd in CMDS:
        if not runner.installed(cmd):
            continue
        for k in range(2 if tier == 'quick' else 3):
            n = len(list(selections(cmd, k)))
            step = 8 if k < 2 else 40
            r += [[cmd, k, i, step] for i in range(0, n, step)]
    return r


def setup(d):
    os.chdir('/')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, 'd'))
    for n, c in CONTENT.items():
        with open(os.path.join(d, n), 'wb') as f:
            f.write(c)
    os.chdir(d)


class Watch:
    def __init__(self, d):
        self.fd = libc.inotify_init1(os.O_NONBLOCK | os.O_CLOEXEC)
        if self.fd < 0:
            raise OSError('inotify is not available')
        self.names = {libc.inotify_add_watch(self.fd, os.path.join(d, s).encode(), MASK): s for s in ('', 'd')}

    def events(self):
        """name -> event mask"""
        r = {}
        try:
            while True:
                b = os.read(self.fd, 1 << 16)
                o = 0
                while o < len(b):
                    wd, mask, _, ln = struct.unpack_from('iIII', b, o)
                    name = b[o + 16:o + 16 + ln].split(b'\0')[0].decode('utf-8', 'replace')
                    if name and wd in self.names and not (mask & IN_ISDIR and mask & (IN_ACCESS | IN_OPEN)):
                        p = os.path.join(self.names[wd], name)
                        r[p] = r.get(p, 0) | mask
                    o += 16 + ln
        except BlockingIOError:
            pass
        os.close(self.fd)
        return r


def observe(words, d):
    """-> (ok, {name: 'R'/'W'/'RW'}, stdin read, stdout written)"""
    setup(d)
    if words[0] == 'mkfifo':
        os.unlink('-')
    w = Watch(d)
    try:
        rc, out, err = runner.run(words, STDIN)
    finally:
        ev = w.events()
    pos = os.lseek(runner.fds()[0], 0, 1)
    ok = not err and rc in ((0, 1) if words[0] in ('grep', 'diff') else (0,))
    return ok, {n: ('R' if m & IN_ACCESS else '') + ('W' if m & WRITE else '') + ('o' if m & IN_OPEN else '') for n, m in ev.items()}, pos > 0, bool(out)


def touched(name, acc):
    """accesses to the file or anything in the directory of this name"""
    r = set(acc.get(name, ''))
    for n, a in acc.items():
        if n.startswith(name + '/'):
            r |= set(a)
    return r


def judge(words, ctx, confirm):
    from mc import lib
    inv = model.ref_parse(words)
    io = model.ref_io(inv)
    if io is None:
        ctx.count('real runs without prediction')
        return
    cmd, fo, ops = inv
    ok, acc, sin, sout = observe(words, os.path.join(runner.scratch(), 'x'))
    ctx.states += 1
    ctx.transitions += 1
    if not ok:
        ctx.count('real runs that fail (no evidence)')
        return
    ctx.traces += 1
    ctx.count('real runs')
    key = 'real ' + lib.line(words)
    things = [(e[2], k) for e, k in zip(fo, io['opts']) if e[0] == 'O'] + list(zip(ops, io['ops']))
    may = {}                      # name -> allowed accesses
    stdin_ok, stdout_ok = io['in'], io['out']
    for name, k in things:
        if name == '-' and k != 'ARG':
            if k in model.INPUTS:
                stdin_ok = True
            else:
                stdout_ok = True
            continue
        if k in model.INPUTS:
            a = 'RW' if k == 'OTHER_INPUT' and cmd == 'mv' else 'R'
        elif k in ('STREAM_OUTPUT', 'OTHER_OUTPUT'):
            a = 'W'
        else:
            a = ''
        may[name] = may.get(name, '') + a
    if any(e[1] == '--files0-from' for e in fo):
        may['fd'] = may.get('fd', '') + 'R'                       # named by the contents of that file
    # nothing but what is predicted is touched
    for n, a in acc.items():
        allowed = set(may.get(n, ''))
        for m, x in may.items():
            if n.startswith(m + '/'):
                allowed |= set(x)
        if n not in CONTENT and os.path.dirname(n) in ('', 'd') and cmd == 'mv' and 'W' in a and n != '-':
            allowed.add('W')                                      # backups and moved files
        extra = set(a) - allowed - {'o'}
        if extra:
            ctx.violation(key, f'the command accesses {n} differently from its annotation', sorted(allowed), a)
    if sin and not stdin_ok:
        ctx.violation(key, 'the command reads stdin although the annotation says it does not', False, True)
    if sout and not stdout_ok:
        # -v of mv and rm reports on stdout
        if not (cmd in ('mv', 'rm') and '-v' in words):
            ctx.violation(key, 'the command writes to stdout although the annotation says it does not', False, True)
    # what is predicted happens (judged over all runs of one selection)
    for name, k in things:
        # a directory for temporary files and the start of a directory comparison are not needed here
        if k == 'ARG' or (cmd == 'sort' and k == 'OTHER_OUTPUT') or (cmd == 'diff' and k == 'OTHER_INPUT'):
            continue
        if name == '-':
            seen, what = (sin if k in model.INPUTS else sout), 'operand - as ' + k
        else:
            t = touched(name, acc)
            what = 'file as ' + k
            seen = bool(t & ({'W'} if k in model.OUTPUTS else {'R', 'o', 'W'} if k == 'OTHER_INPUT' else {'R', 'o'}))
        confirm[what] = confirm.get(what, False) or seen
    for what, p, seen in (('stdin', io['in'], sin), ('stdout', io['out'], sout)):
        if p:
            confirm[what] = confirm.get(what, False) or seen
    ctx.outcome((words[0], sorted(acc.items()), sin, sout))


def run(case, ctx):
    cmd, k, i, step = case
    try:
        for sel in list(selections(cmd, k))[i:i + step]:
            confirm = {}
            for ops in operands(cmd, sel):
                judge([cmd] + sel + ops, ctx, confirm)
            for what, seen in confirm.items():
                ctx.count('confirmed predictions', int(seen))
                if not seen and k < 2:               # two flags may cancel each other
                    ctx.violation('real ' + ' '.join([cmd] + sel), f'annotated ({what}), but the command never does it', what, None)
            if k == 0:
                for ops in DASH.get(cmd, []):
                    judge([cmd] + ops, ctx, {})
    finally:
        runner.cleanup()
