"""Running installed commands in a scratch directory: stdin/stdout/stderr are anonymous files, nothing is inherited."""
import os, shutil, signal, tempfile

SCRATCH = None
ENV = {'LC_ALL': 'C', 'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'TZ': 'UTC'}


def scratch():
    """own scratch directory of this process (made once, removed by cleanup)"""
    global SCRATCH
    if SCRATCH is None or SCRATCH[0] != os.getpid():
        SCRATCH = (os.getpid(), tempfile.mkdtemp(prefix='verif-run-'))
    return SCRATCH[1]


def cleanup():
    global SCRATCH
    if SCRATCH and SCRATCH[0] == os.getpid():
        os.chdir('/')
        shutil.rmtree(SCRATCH[1], ignore_errors=True)
        SCRATCH = None


_which = {}


def installed(cmd):
    if cmd not in _which:
        _which[cmd] = shutil.which(cmd, path=ENV['PATH'])
    return _which[cmd]


def spawn(path, argv, fin, fout, ferr, limits):
    pid = os.posix_spawn(path, argv, ENV, file_actions=[(os.POSIX_SPAWN_DUP2, fin, 0), (os.POSIX_SPAWN_DUP2, fout, 1),
                                                         (os.POSIX_SPAWN_DUP2, ferr, 2)], setpgroup=0)
    return pid


_fds = None


def fds():
    global _fds
    if _fds is None or _fds[0] != os.getpid():
        _fds = (os.getpid(), [os.memfd_create(n) for n in ('in', 'out', 'err')])
    return _fds[1]


def slurp(fd):
    r, off = [], 0
    while True:
        b = os.pread(fd, 1 << 16, off)
        if not b:
            return b''.join(r)
        r.append(b)
        off += len(b)


def run(argv, stdin=b'', cwd=None, path=None):
    """-> (exit status, stdout, stderr); the working directory of this process becomes cwd"""
    if cwd:
        os.chdir(cwd)
    i, o, e = fds()
    for fd, data in ((i, stdin), (o, b''), (e, b'')):
        os.ftruncate(fd, 0)
        os.lseek(fd, 0, 0)
        if data:
            os.write(fd, data)
            os.lseek(fd, 0, 0)
    pid = spawn(path or installed(argv[0]), argv, i, o, e, None)
    try:
        _, st = os.waitpid(pid, 0)
    except BaseException:
        os.killpg(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    return os.waitstatus_to_exitcode(st), slurp(o), slurp(e)
