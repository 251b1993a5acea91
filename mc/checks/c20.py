"""C20: the man-page extractor on enumerated option lines."""
import itertools, json, os

ID = 'C20'
RULE = ('state = list of man-page lines (each a list of phrases); transition = adding a phrase or a line; the script is executed '
        'with the lines on standard input and the table it prints is compared with the phrases')
BOUNDS = {
    'quick': 'all lines of up to 3 phrases over 24 phrases (with and without description), 4 phrases over 8 and 5 over 5, lines of 5..52 spellings of 8 kinds, 1-3 of 18 long or similar names in one line or several, 1-4 of 8 names in both cases, pages of 5..560 lines of 9 kinds (one of another kind at every position, beyond 60 lines at the first and last; all kinds by turns, repeated), all sequences of 2 lines over 57 '
             'lines and of 3 lines over 16 lines with repeated names',
    'thorough': 'as quick with lines of up to 4 phrases over 16 phrases, sequences of 3 lines over 57 and of 4 over 16'}
ASSUMPTIONS = ['names that differ in their dashes only do not occur together (the extractor identifies names without dashes)',
               'no description begins with a word in capitals or contains a comma', 'the script is run in-process with '
               'substituted standard input and output']
# phrase text -> (spelling, argument or None)
PH = {'-f': ('-f', None), '-F': ('-F', None), '-g': ('-g', None), '--flag': ('--flag', None), '--two-words': ('--two-words', None),
      '--long-flag-name': ('--long-flag-name', None),
      '-o ARG': ('-o', 'ARG'), '-O ARG': ('-O', 'ARG'), '-o=ARG': ('-o', 'ARG'), '--opt ARG': ('--opt', 'ARG'),
      '--opt=ARG': ('--opt', 'ARG'), '--opt[=ARG]': ('--opt', 'ARG'), '--my-opt=N': ('--my-opt', 'N'), '-p N': ('-p', 'N'),
      '-xyz': ('-xyz', None), '-out=FILE': ('-out', 'FILE'), '-out[=FILE]': ('-out', 'FILE'), '--when[=WHEN]': ('--when', 'WHEN'),
      '-f  some text': ('-f', None), '--flag   does it': ('--flag', None),
      '-ARG': None, '--ARG': None, 'some description': None, '-': None}
NAMES = list(PH)
SMALL = ['-f', '--flag', '-o ARG', '--opt=ARG', '--opt[=ARG]', '-F', '--two-words', '-ARG', 'some description', '-g', '-O ARG',
         '--when[=WHEN]', '-xyz', '-out=FILE', '-p N', '--my-opt=N']
LONGER = ['-f', '--flag', '-o ARG', '--opt=ARG', '-F', '-g', '--opt[=ARG]', '-ARG']
DESC = ['', '   print the name', '\tdo not do that', '  the same as size=none', '   Suppress output', '  Do as GNU grep does it', '   (deprecated) use it as ever; see below', '   print "quoted" text, \'all\' of {it} at 50%: <a@b>?']


def lines57():
    r = [[n] for n in NAMES] + [['-f', '--flag'], ['-F', '--flag'], ['-o ARG', '--opt=ARG'], ['-O ARG', '--opt ARG'], ['-f', '--opt=ARG'],
                                ['-o ARG', '--flag'], ['-f', '-g'], ['-f', '-f'], ['--flag', '--two-words', '-g'], ['-ARG', '-f'],
                                ['-f', '-ARG'], ['-o ARG', '-p N'], ['-F', '-f'], ['--my-opt=N', '-p N'], ['-g', '--when[=WHEN]'],
                                ['--two-words', '--long-flag-name'], [], ['some description', '--flag'], ['-p N', '--my-opt=N', '--flag'],
                                ['-xyz', '-f'], ['-out=FILE', '-o ARG'], ['-f', '-F', '-g'], ['-o=ARG', '-f'], ['--flag', '-xyz'],
                                ['-O ARG', '-o ARG'], ['--opt=ARG', '-o ARG'], ['--two-words', '-f'], ['-g', '-f'], ['-', '-f'],
                                ['--when[=WHEN]', '-F'], ['-out[=FILE]', '--flag'], ['--my-opt=N'], ['-p N', '-o ARG']]
    return r


def expected(lines):
    """(ordered) flag groups and options"""
    seen, flags, opts = set(), [], []
    for phrases in lines:
        new = []
        for p in phrases:
            if PH[p] is not None and PH[p][0] not in seen:
                seen.add(PH[p][0])
                new.append(PH[p])
        if new and all(a is None for _, a in new):
            flags.append([s for s, _ in new])
        else:
            flags.extend([s] for s, a in new if a is None)
            opts.extend([s, a] for s, a in new if a is not None)
    return {'flag': flags, 'option': opts}


_code = []


def script(text):
    import io, sys
    from mc import core
    path = os.path.join(core.REPO, 'pash_annotations/parser/command_flag_option_info/args-to-json.py')
    if not _code:
        with open(path) as f:
            _code.append(compile(f.read(), path, 'exec'))
    out, i, o, a = io.StringIO(), sys.stdin, sys.stdout, sys.argv
    sys.stdin, sys.stdout, sys.argv = io.StringIO(text), out, [path]
    try:
        exec(_code[0], {'__name__': '__main__', '__file__': path})
    except SystemExit as e:
        if e.code not in (None, 0):
            raise RuntimeError(f'exit status {e.code}')
    finally:
        sys.stdin, sys.stdout, sys.argv = i, o, a
    return out.getvalue()


def check(lines, desc, ctx, lib):
    ctx.states += 1
    ctx.transitions += 1
    ctx.traces += 1
    text = ''.join(', '.join(p) + (desc if p and PH[p[-1]] is not None else '') + '\n' for p in lines)
    if any(len(p) and p[-1].endswith(('text', 'it')) for p in lines):
        text = ''.join(', '.join(p) + '\n' for p in lines)
    key = f'lines {text!r}'
    got = lib.safe(script, text)
    if lib.raised(got):
        ctx.violation(key, 'the extractor fails', expected(lines), got)
        return
    try:
        t = json.loads(got)
    except ValueError:
        ctx.violation(key, 'the output is not JSON', None, got[:500])
        return
    exp = expected(lines)
    form = isinstance(t, dict) and set(t) >= {'flag', 'option'} and all(
        isinstance(g, list) and g and all(isinstance(s, str) for s in g) for k in ('flag', 'option') for g in t[k]) and all(
        len(g) >= 2 for g in t['option'])
    if not form:
        ctx.violation(key, 'the table does not have the form the parser accepts', exp, t)
        return
    # the order of the groups does not matter, the first (primary) spelling of a group of flags does
    norm = lambda d: (sorted(map(tuple, d['flag'])), sorted(map(tuple, d['option'])))
    ctx.outcome(norm(exp))
    if norm(t) != norm(exp):
        ctx.violation(key, 'wrong table', exp, t)


LETTERS = [*'abcdefghijklmnopqrstuvwxyzBCDEFGHIJKLMNOPQRSTUVWXYZ', *(a + b for a in 'bcdfghjklmnpqrstvwxyz' for b in 'abcdefghijklmnopqrstuvwxyz')]
w = lambda c: c if c.islower() else 'up' + c.lower()
KINDS = [lambda c: [(f'-{c}', None)], lambda c: [(f'--long-{w(c)}', None)], lambda c: [(f'-{c}', None), (f'--long-{w(c)}', None)],
         lambda c: [(f'-{c} ARG', 'ARG')], lambda c: [(f'--long-{w(c)}=FILE', 'FILE')], lambda c: [(f'--long-{w(c)}[=N]', 'N')],
         lambda c: [(f'-{c} N', 'N'), (f'--long-{w(c)}=N', 'N')], lambda c: [(f'-{c}', None), (f'--long-{w(c)}=N', 'N')], lambda c: []]


def page(kinds):
    """lines with different names, of these kinds"""
    r = []
    for k, c in zip(kinds, LETTERS):
        line = KINDS[k](c)
        for text, a in line:
            PH[text] = (text.split('[')[0].split('=')[0].split(' ')[0], a)
        r.append([t for t, _ in line])
    return r


def cases(tier):
    r = [['line', i, tier] for i in range(len(NAMES))]
    L = lines57()
    r += [['two', i, tier] for i in range(len(L))]
    r += [['three', i, tier] for i in range(len(SMALL) if tier == 'quick' else len(L))]
    if tier == 'thorough':
        r += [['four', i, tier] for i in range(len(SMALL))]
    r += [['page', k, tier] for k in range(len(KINDS))]
    r += [['wide', k, tier] for k in range(len(KINDS) - 1)]
    r += [['names', 0, tier], ['shell', 0, tier], ['capital', 0, tier]]
    return r


def run_case(case, ctx):
    from mc import lib
    fam, i, tier = case
    L = lines57()
    if fam == 'line':
        for d in range(3):
            for rest in itertools.product(NAMES, repeat=d):
                for desc in DESC if d < 2 else DESC[:2] + DESC[4:5]:
                    check([[NAMES[i], *rest]], desc, ctx, lib)
        ctx.sample(', '.join([NAMES[i], *rest]))
        if tier == 'thorough' and NAMES[i] in SMALL:
            for rest in itertools.product(SMALL, repeat=3):
                check([[NAMES[i], *rest]], '', ctx, lib)
        # longer lines and names
        if NAMES[i] in LONGER:
            for rest in itertools.product(LONGER, repeat=3):
                check([[NAMES[i], *rest]], '', ctx, lib)
            for rest in itertools.product(LONGER[:5], repeat=4):
                check([[NAMES[i], *rest]], DESC[1], ctx, lib)
    elif fam == 'page':
        for n in (5, 8, 9, 10, 11, 12, 20, 33, 51, 70, 140, 300, 560):
            for y in range(len(KINDS)):
                for pos in range(n) if n < 13 else (0, 1, 9, 10, n // 2, n - 2, n - 1) if n < 60 else (0, n - 1):
                    check(page([y if j == pos else i for j in range(n)]), DESC[pos % len(DESC)], ctx, lib)
            for step in (1, 2, 4, 5, 7):
                p = page([(i + step * j) % len(KINDS) for j in range(n)])
                for desc in DESC:
                    check(p, desc, ctx, lib)
                    check(p + p[::-1], desc, ctx, lib)
                    if n > 60:
                        check(p[n // 2:] + p + [[x for l in p[-9:] for x in l]], desc, ctx, lib)
                        break
                    check(p[:3] + p + p[-2:] + p[1:2], desc, ctx, lib)
    elif fam == 'wide':
        # one line with many names
        for n in (*range(5, 21), 25, 31, 32, 33, 40, 52):
            whole = lambda ks: [t for l in page(ks) for t in l]
            rows = [whole([i] * n)] + [whole([(i + s * j) % 6 for j in range(n)]) for s in (1, 2, 5)]
            rows += [whole([i if j == pos else y for j in range(n)]) for y in range(6) for pos in (0, n // 2, n - 1)]
            for row in rows:
                if row:
                    check([row], DESC[n % len(DESC)], ctx, lib)
                    check([row + row[:1]], '', ctx, lib)
                    check([row[:3], row, ['-F', '-f'], row[-3:]], '', ctx, lib)
    elif fam == 'names':
        # long names, and names that begin or end like one another
        N = ['--' + 'a' * k for k in (1, 8, 16, 31, 32, 33, 64)] + ['--no-preserve-root-dir', '--no-preserve-root-directory', '--preserve-root-dir', '--no', '-no-p'] + \
            ['--' + '-'.join(w[:k]) for w in (['very', 'long', 'flag', 'name', 'with', 'many', 'words'],) for k in range(2, 8)]
        for d in range(1, 4):
            for ws in itertools.product(N, repeat=d):
                for arg in ('', '=ARG', ' WORD', '[=ANY]')[:4 if d < 3 else 1]:
                    for w in ws:
                        PH.setdefault(w, (w, None))
                    last = ws[-1] + arg
                    PH.setdefault(last, (ws[-1], arg.strip('[]= ') or None))
                    check([[*ws[:-1], last]], '', ctx, lib)
                    if d > 1:
                        check([[w] for w in ws[:-1]] + [[last]], DESC[1], ctx, lib)
    elif fam == 'capital':
        # short names with two dashes, next to the same letter in the other case
        P = [('-q', None), ('--Q', None), ('-R ARG', 'ARG'), ('--r=N', 'N'), ('--qr', None), ('--S[=N]', 'N'), ('-s', None), ('-qr-s', None)]
        for text, a in P:
            PH[text] = (text.split('[')[0].split('=')[0].split(' ')[0], a)
        P = [t for t, _ in P]
        for d in range(1, 5):
            for ws in itertools.product(P, repeat=d):
                check([[*ws]], '', ctx, lib)
                check([[w] for w in ws], DESC[1], ctx, lib)
                check([[*ws[:2]], [*ws[2:]]], '', ctx, lib)
    elif fam == 'two':
        for l in L:
            for desc in DESC:
                check([L[i], l], desc, ctx, lib)
    elif fam == 'three':
        S = [[s] for s in SMALL] if tier == 'quick' else L
        for a, b in itertools.product(S, S):
            check([S[i], a, b], '', ctx, lib)
            check([S[i] + a, b], '', ctx, lib)
            check([S[i], a + b], DESC[1], ctx, lib)
    elif fam == 'four':
        for a, b, c in itertools.product(SMALL, repeat=3):
            check([[SMALL[i]], [a], [b], [c]], '', ctx, lib)
    else:
        # the way the script is really called
        import subprocess, sys
        from mc import core
        path = os.path.join(core.REPO, 'pash_annotations/parser/command_flag_option_info/args-to-json.py')
        for lines in ([['-f', '--flag'], ['-o ARG', '--opt=ARG']], [], [['-ARG']]):
            text = ''.join(', '.join(p) + '\n' for p in lines)
            p = subprocess.run([sys.executable, '-B', path], input=text, capture_output=True, text=True)
            ctx.states += 1
            ctx.traces += 1
            e = expected(lines)
            ctx.expect(f'process {text!r}', 'the script run as a process', (0, e), (p.returncode, json.loads(p.stdout or 'null')))
