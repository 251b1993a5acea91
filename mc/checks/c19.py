"""C19: all one-preemption schedules (thorough: also two) of two threads that use the library, against the answers each gets alone."""
import os, pickle, sys, threading

ID = 'C19'
RULE = ('state = schedule: thread A runs to its k-th step (line, call or byte code instruction) inside the library, thread B then runs '
        'completely (or until it waits for A), A finishes; every k of every pair is visited (the process is forked at each step, '
        'starting from a process that never used the library); thorough: also A to step k, B to step j, A to its end, B to its end; '
        'transition = one complete query; answers compared with those of the query alone')
BOUNDS = {
    'quick': '16 pairs of queries, both roles, at line granularity and 6 pairs at byte code granularity (one preemption)',
    'thorough': '34 pairs, both roles, at line granularity, 16 pairs at byte code granularity, 3 pairs with two preemptions at calls (both roles)'}
ASSUMPTIONS = ['CPython threads switch between byte code instructions; steps are lines, calls or byte codes of library code',
               'a thread that waits 0.2 s for another one is treated as blocked and the other one continues']
TIMEOUT_IS_VIOLATION = True
CASE_TIMEOUT = 800
PAIRS = [('full', 'sort -n -k 2 f', 'sort'), ('full', 'grep -e x -f pats', 'grep pat'), ('full', "tr -d '\\n'", 'tr a-z A-Z'), ('full', 'uniq -c', 'uniq'),
         ('full', "sed '/x/d'", 'sed s/a/b/ f'), ('full', 'cut -d , -f 1 f', 'cut -z -f1'), ('full', 'bigrams_aux', 'alt_bigrams_aux'),
         ('full', 'mv a b', 'foo -x y'), ('same', 'sort -n -k 2 f', 'sort -n -k 2 f'), ('same', 'grep pat', 'grep pat'), ('same', 'bigrams_aux', 'bigrams_aux'),
         ('inst', 'sort -n -k 2 f', None), ('inst', 'grep -e x -f pats -', None), ('inst', 'bigrams_aux', None), ('inst', 'sort -o out -T tmp f', None),
         ('full', 'xargs -n 2 echo', 'rm -rf x'),
         # thorough only
         ('full', 'sort -r', 'sort -r'), ('full', 'custom_sort -r', 'sort -r'), ('full', 'comm a b', 'comm a'), ('full', 'head -n 1 f', 'tail -n 1 f'),
         ('full', 'wc -l', 'wc --files0-from=x'), ('full', 'tee a', 'mkfifo a'), ('full', 'test_one', 'test_two'), ('full', 'awk -f p f', "awk '{print}' f"),
         ('full', 'uniq a b', 'uniq a b c'), ('full', 'grep -c pat f', 'grep -q pat f'), ('full', 'diff -u a b', 'cat a b'), ('full', 'seq 1 2', 'col -b'),
         ('same', 'mv -t d a b', 'mv -t d a b'), ('same', 'tr -s a b', 'tr -s a b'), ('inst', 'alt_bigrams_aux', None), ('inst', 'cut -d , -f 1 f', None),
         ('inst', 'tr a b', None), ('same', 'xargs -n 2 echo', 'xargs -n 2 echo')]
QUICK = 16


def cases(tier):
    r = []
    P = PAIRS[:QUICK] if tier == 'quick' else PAIRS
    for kind, a, b in P:
        for x, y in [(a, b)] if b is None or a == b else [(a, b), (b, a)]:
            r += [['one', 'line', kind, x, y, [s, 4]] for s in range(4)]
    for kind, a, b in OPCODE_QUICK if tier == 'quick' else PAIRS[:16]:
        r += [['one', 'opcode', kind, a, b, [s, 16]] for s in range(16)]
    if tier == 'thorough':
        for kind, a, b in TWO:
            for x, y in [(a, b)] if b is None or a == b else [(a, b), (b, a)]:
                r += [['two', 'call', kind, x, y, [s, 32]] for s in range(32)]
    return r


OPCODE_QUICK = [('full', "tr -d '\\n'", 'tr a-z A-Z'), ('full', 'grep pat', 'sort -n -k 2 f'), ('full', 'mv a b', 'sed s/a/b/ f'), ('same', 'bigrams_aux', 'bigrams_aux'),
                ('inst', 'sort -n -k 2 f', None), ('inst', 'bigrams_aux', None)]
TWO = [('inst', 'bigrams_aux', None), ('full', 'mv a b', 'foo -x y'), ('full', 'comm a b', 'comm a')]


class Shared:
    """queries on information objects that both threads share"""

    def __init__(self, text):
        from mc import lib
        self.w = lib.Wired(lib.parse(text))
        self.inv = lib.parse(text)
        self.io = lib.io_info(self.inv)
        self.p = lib.para_info(self.inv)

    def query(self):
        from mc import chain, lib
        r = [lib.canon_withio(self.io.apply_input_output_info_to_command_invocation(self.inv)), self.io.has_other_outputs()]
        un = self.p.unpack_info()
        r.append(([chain.short_parallelizer(x) for x in un[0]], un[1], un[2]))
        for x in un[0]:
            n = x.get_info_mapper_aggregator()
            m = x.get_actual_mapper(self.w.inv, 1, 2, list(range(3, 3 + n)))
            r.append(m and lib.canon_vars(m))
            if n:
                a = x.get_actual_2_ary_aggregator_with_aux(1, [2] * n, 3, [4] * n, 5, list(range(6, 6 + n)))
            else:
                a = x.get_actual_aggregator(self.w.inv, [1, 2], 3) if x.get_aggregator_spec().is_implemented else None
            r.append(a and lib.canon_vars(a))
        r.append(lib.canon_vars(self.w.inv))
        return r


def makers(kind, a, b):
    """functions (without arguments) of the two threads; everything shared is built here"""
    from mc import chain, lib
    if kind == 'full':
        return (lambda: chain.Chain(a).observe()), (lambda: chain.Chain(b).observe())
    if kind == 'same':
        inv = lib.parse(a)
        return (lambda: chain.Chain(a, inv=inv).observe()), (lambda: chain.Chain(a, True, inv=inv).observe())
    s = Shared(a)
    return s.query, s.query


def alone(kind, a, b):
    f, g = makers(kind, a, b)
    return f(), None


def guarded(f):
    try:
        return ('ok', f())
    except BaseException as e:
        import traceback
        return ('raises', type(e).__name__, traceback.format_exc()[-1200:])


class Tracer:
    """calls step() at every step of the chosen granularity of library code in the thread it is installed in"""

    def __init__(self, gran, step):
        from mc import core
        self.root = core.REPO + os.sep
        self.gran, self.step, self.on = gran, step, True
        self.lib = {}

    def glob(self, frame, event, arg):
        if not self.on:
            return None
        fn = frame.f_code.co_filename
        if fn not in self.lib:
            self.lib[fn] = os.path.realpath(fn).startswith(self.root)
        if not self.lib[fn]:
            return None
        if self.gran == 'call':
            self.step()
            return None
        if self.gran == 'opcode':
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if not self.on:
            return None
        if event == self.gran:
            self.step()
        return self.local


def explore_one(case):
    """runs in a process of its own -> (number of steps, number of schedules, violations)"""
    _, gran, kind, a, b, shard = case
    ref = BASE
    fa, fb = makers(kind, a, b)
    st = {'n': 0, 'schedules': 0, 'child': None, 'bad': []}

    def step():
        k = st['n']
        st['n'] += 1
        if k % shard[1] != shard[0] or st['child'] is not None:
            return
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            tracer.on = False
            st['child'] = wfd
            box = []
            t = threading.Thread(target=lambda: box.append(guarded(fb)), daemon=True)
            st['thread'], st['box'], st['k'] = t, box, k
            t.start()
            t.join(0.2)
            return
        os.close(wfd)
        with os.fdopen(rfd, 'rb') as r:
            data = r.read()
        os.waitpid(pid, 0)
        st['schedules'] += 1
        st['bad'] += pickle.loads(data) if data else [(k, 'the process died', None, None)]
    tracer = Tracer(gran, step)
    sys._getframe().f_trace_opcodes = True      # asked for before the tracing begins, or there are no events for byte codes
    sys.settrace(tracer.glob)
    got = guarded(fa)
    sys.settrace(None)
    if st['child'] is not None:                      # a forked schedule: judge and leave
        bad = []
        st['thread'].join(20)
        res = {'A': got, 'B': st['box'][0] if st['box'] else ('does not finish',)}
        for n in 'AB':
            if res[n] != ('ok', ref[n]):
                bad.append((st['k'], f'thread {n} gets another answer than alone',) + diff(('ok', ref[n]), res[n]))
        with os.fdopen(st['child'], 'wb') as w:
            pickle.dump(bad, w)
        os._exit(0)
    if got != ('ok', ref['A']):
        st['bad'].append((-1, 'traced alone', ref['A'], got))
    return st['n'], st['schedules'], st['bad']


def diff(e, g):
    if e[0] == g[0] == 'ok':
        for x, y in zip(e[1], g[1]):
            if x != y:
                return repr(x)[:1500], repr(y)[:1500]
    return repr(e)[:1500], repr(g)[:1500]


class Stopper:
    """a thread which stops at its k-th step until it is released"""

    def __init__(self, f, gran, k):
        self.n, self.k = 0, k
        self.reached, self.go = threading.Event(), threading.Event()
        self.tracer = Tracer(gran, self.step)
        self.res = None

        def body():
            sys.settrace(self.tracer.glob)
            self.res = guarded(f)
            sys.settrace(None)
            self.reached.set()
        self.t = threading.Thread(target=body, daemon=True)

    def step(self):
        if self.n == self.k:
            self.reached.set()
            self.go.wait(5)
            self.tracer.on = False
        self.n += 1


def explore_two(fa, fb, gran, k, j):
    """A to step k, B to step j, A to its end, B to its end; runs in a process of its own"""
    A, B = Stopper(fa, gran, k), Stopper(fb, gran, j)
    A.t.start()
    A.reached.wait(20)
    B.t.start()
    B.reached.wait(0.2)
    A.go.set()
    A.t.join(0.2)
    B.go.set()
    A.t.join(20)
    B.t.join(20)
    return [(n, diff(('ok', BASE[n]), t.res or ('does not finish',))) for n, t in (('A', A), ('B', B)) if t.res != ('ok', BASE[n])]


BASE = {}


def run_case(case, ctx):
    from mc.checks.c13 import in_child
    global BASE
    mode, gran, kind, a, b, shard = case
    for n in 'AB':
        x, err = in_child(lambda: guarded(makers(kind, a, b)['AB'.index(n)]))
        if err or x[0] != 'ok':
            ctx.violation(f'{kind} {a} / {b}', 'a query raises when run alone', None, err or x)
            return
        BASE[n] = x[1]
    key = f'{kind} {a} / {b} ({gran}s)'
    if mode == 'one':
        res, err = in_child(lambda: explore_one(case))
        if err:
            raise RuntimeError(err)
        n, schedules, bad = res
        if not n:
            raise RuntimeError('no steps')
        ctx.count('steps of A', n if shard[0] == 0 else 0)
        for k, what, e, g in bad:
            ctx.violation(f'{key}: step {k}', what, e, g)
        ctx.states += schedules
        ctx.transitions += 2 * schedules
        ctx.traces += 2 * schedules
        ctx.outcome((case, n))
    else:
        def steps(i):
            st = [0]

            def inc():
                st[0] += 1
            f = makers(kind, a, b)[i]
            t = Tracer(gran, inc)
            sys.settrace(t.glob)
            f()
            sys.settrace(None)
            return st[0]
        na, nb = in_child(lambda: steps(0))[0], in_child(lambda: steps(1))[0]
        if not na or not nb:
            raise RuntimeError('no steps')
        def all_of_them():
            fa, fb = makers(kind, a, b)      # not used yet in this process
            n, bads = 0, []
            for k in range(shard[0], na, shard[1]):
                for j in range(nb):
                    from mc.checks.c13 import in_child
                    bad, err = in_child(lambda: explore_two(fa, fb, gran, k, j))
                    n += 1
                    bads += [(k, j, 'AB', err)] if err else [(k, j, *x) for x in bad]
            return n, bads
        res, err = in_child(all_of_them)
        if err:
            raise RuntimeError(err)
        n, bads = res
        ctx.states += n
        ctx.transitions += 2 * n
        ctx.traces += 2 * n
        for k, j, who, d in bads:
            if who == 'AB':
                raise RuntimeError(d)
            ctx.violation(f'{key}: steps {k}, {j}', f'thread {who} gets another answer than alone', *d)
        ctx.outcome((case, na, nb))
    ctx.sample(key)
