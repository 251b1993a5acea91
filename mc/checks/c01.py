"""C01: word tries over the real parser against the reference parser."""
import itertools
from mc import alpha, model

ID = 'C01'
RULE = ('state = command line (word sequence); transition = appending one word; every state is quoted, parsed by the real '
        'parser and compared with the reference parser over frozen interface tables')
BOUNDS = {
    'quick': 'per command (31): depth 1 over all spellings, --x=v forms, near misses, special words, all 2-letter and (<=12 '
             'letters) 3-letter clusters; depth 2 over (all x all medium words); depth 3 over 14 words; depth 4 over 8 words; '
             'all rotations of a line with every spelling; up to 5000 words and words of up to 5000 letters of 16 kinds (6 commands); 4 quoting styles for depth <= 1; every balanced text of up to 6 characters '
             'over {n, -, blank, tab, backslash, both quotes} as the rest of a line (2 commands), split as sh splits it',
    'thorough': 'as quick, plus depth 2 over all x all words, all 3-letter clusters, depth 3 over 34 words, depth 4 over 16 '
                'words, depth 5 over 9, depth 7 over 4, texts of up to 7 characters'}
ASSUMPTIONS = ['words are separated by blanks; quoting is produced by the harness, not by shlex',
               'the reference tables (mc/tables.json) are validated against the installed commands by C21']


def cases(tier):
    r = []
    for cmd in ('cat', 'sort'):
        for c in RAW:
            r += [[cmd, 'raw', c, tier]] if tier == 'quick' else [[cmd, 'raw', c + d, tier] for d in RAW]
    for cmd in model.ALL_COMMANDS:
        r.append([cmd, 'quoting', None, tier])
        r.append([cmd, 'depth1', None, tier])
        r.append([cmd, 'long', None, tier])
        n = len(alpha.full(cmd))
        for k in range(0, n, 40):
            r.append([cmd, 'depth2', [k, min(n, k + 40)], tier])
        for n, d in ([(14, 3), (8, 4)] if tier == 'quick' else [(34, 3), (16, 4), (9, 5), (4, 7)]):
            for w in range(len(alpha.small(cmd, n))):
                r.append([cmd, 'trie', [n, d, w], tier])
    return r


def check(words, text, ctx, lib):
    ctx.states += 1
    ctx.transitions += 1
    ctx.traces += 1
    exp = model.ref_parse(words)
    got = lib.safe(lib.parse, text)
    if not lib.raised(got):
        got = lib.canon_inv(got)
    exp = (exp[0], exp[1], exp[2])
    if got != exp:
        ctx.violation('parse ' + text, 'wrong roles', exp, got, f"parse({text!r})")
    return got


UNI = ['\u00a0', '\u2028', '\u2029', '\u3000', '\u200b', '\x0b', '\x0c', '\x1c', '\x85', '\r', '\ufeff', '\u0301', '\u00df', '\u0131', '\u0130', '\uff0d',
       '\uff4e', '\u2013', '\u2212', '\U0001f600', '\x1b', '\x01', '\x7f', '\udc80', '%', '{}', '\u212a', '\u017f', '\u2018', '\uff1d']
RAW = 'n- \t\\\'"'


def shell_words(text):
    """the words of a text over RAW (None: quotes not closed, nothing escaped)"""
    words, w, q, i = [], None, '', 0
    while i < len(text):
        c = text[i]
        i += 1
        if q == "'":
            if c == q:
                q = ''
            else:
                w += c
        elif q == '"':
            if c == q:
                q = ''
            elif c == '\\':
                if i == len(text):
                    return None
                w += text[i] if text[i] in '"\\' else c + text[i]
                i += 1
            else:
                w += c
        elif c in '\'"':
            q, w = c, w or ''
        elif c == '\\':
            if i == len(text):
                return None
            w = (w or '') + text[i]
            i += 1
        elif c in ' \t':
            if w is not None:
                words.append(w)
            w = None
        else:
            w = (w or '') + c
    if q:
        return None
    return words + ([w] if w is not None else [])


def raw(cmd, first, n, ctx, lib):
    import subprocess
    texts = [first + ''.join(t) for k in range(0, n - len(first) + 1) for t in itertools.product(RAW, repeat=k)]
    todo = [(t, ws) for t in texts for ws in [shell_words(t)] if ws is not None]
    # the reference splitting is that of the installed shell
    p = subprocess.run(['/bin/sh'], input=''.join(f"set -- {t}\nprintf '%s\\0' $# \"$@\"\n" for t, _ in todo), capture_output=True, text=True)
    real = p.stdout.split('\0')
    want = [x for _, ws in todo for x in [str(len(ws)), *ws]] + ['']
    if real != want:
        raise RuntimeError('the reference splitting is not that of sh')
    for t, ws in todo:
        check([cmd, *ws], cmd + ' ' + t, ctx, lib)
    ctx.sample(cmd + ' ' + t)


MANY_WORDS = ('cat', 'sort', 'grep', 'mv', 'xargs', 'custom_tr')
COUNTS = [k + d for k in (64, 100, 128, 200, 256, 512, 1000, 1024, 2000) for d in (-1, 0, 1)] + [5000]


def many(cmd, ctx, lib):
    """lines of many words and words of many letters, of every kind"""
    fl, op, L = alpha.flags(cmd), alpha.options(cmd), alpha.letters(cmd)
    for n in COUNTS:
        lines = [['x'] * n, ['x%d' % i for i in range(n)], [''] * n, ['-'] * n, ['a' * n, 'b'], ['-' * n, 'b'], ['--' + 'a' * n], ['a b' * n]]
        if fl:
            lines += [[fl[0]] * n + ['x', fl[0]], [fl[i % len(fl)] for i in range(n)] + ['x']]
        if op:
            lines += [[w for i in range(n // 2) for w in (op[i % len(op)], 'a%d' % i)] + ['x'], [op[0], 'y' * n, 'x']]
        if op and any(o.startswith('--') for o in op):
            o = [o for o in op if o.startswith('--')][0]
            lines += [[o + '=' + 'y' * n, 'x'], [o + '=' + '=' * n, 'x'], [o + '=1'] * n + ['x']]
        if L:
            lines += [['-' + (L[0] * n), 'x'], ['-' + ''.join(L[i % len(L)] for i in range(n)), 'x'], ['-' + L[0] * n + '?', 'x']]
        for ws in lines:
            got = check([cmd] + ws, lib.line([cmd] + ws), ctx, lib)
    ctx.outcome((len(got[1]), len(got[2])))


def run_case(case, ctx):
    from mc import lib
    cmd, fam, arg, tier = case
    if fam == 'raw':
        raw(cmd, arg, 6 if tier == 'quick' else 7, ctx, lib)
    elif fam == 'depth1':
        words = alpha.full(cmd)
        L = alpha.letters(cmd)
        if tier == 'thorough' or len(L) <= 12:
            words = words + alpha.clusters(cmd, 3)
        check([cmd], cmd, ctx, lib)
        for w in words:
            got = check([cmd, w], lib.line([cmd, w]), ctx, lib)
            ctx.outcome((len(got[1]), len(got[2])))
        # one very long cluster
        if L:
            for k in range(len(L)):
                w = '-' + ''.join(L[k:] + L[:k])
                check([cmd, w, 'y'], lib.line([cmd, w, 'y']), ctx, lib)
                check([cmd, w + '?', 'y'], lib.line([cmd, w + '?', 'y']), ctx, lib)
    elif fam == 'depth2':
        F = alpha.full(cmd)
        second = F if tier == 'thorough' else alpha.medium(cmd)
        for w in F[arg[0]:arg[1]]:
            for v in second:
                got = check([cmd, w, v], lib.line([cmd, w, v]), ctx, lib)
            ctx.outcome((got[1], got[2]))
    elif fam == 'trie':
        n, d, k = arg
        A = alpha.small(cmd, n)
        for depth in range(2, d):
            for rest in itertools.product(A, repeat=depth):
                ws = [cmd, A[k], *rest]
                got = check(ws, lib.line(ws), ctx, lib)
                if depth == 2:
                    ctx.outcome((got[1], got[2]))
        ctx.sample(lib.line(ws))
    elif fam == 'long':
        for ws in alpha.long_lines(cmd):
            check([cmd] + ws, lib.line([cmd] + ws), ctx, lib)
        for n in (10, 40):
            ops = [f'f{i}' for i in range(n)] + alpha.flags(cmd)[:5] + [''] + alpha.options(cmd)[:3]
            check([cmd] + ops, lib.line([cmd] + ops), ctx, lib)
        if cmd in MANY_WORDS:
            many(cmd, ctx, lib)
    elif fam == 'quoting':
        for w in alpha.medium(cmd):
            for q in (lib.q_single, lib.q_double, lib.q_backslash, lib.q_mixed):
                if '\n' in w and q is lib.q_backslash:
                    continue    # backslash newline is a line continuation
                for pre, sep, post in (('', ' ', ''), (' ', '  ', ' '), ('\t', ' \t ', '\t')):
                    text = pre + cmd + sep + q(w) + sep + "'o p'" + post
                    check([cmd, w, 'o p'], text, ctx, lib)
        # words which need no quoting
        for w in ('a#b', '#a', 'a#', '#', 'x~', '~', '%1', 'a,b', '{}', '!', '^', '@x', 'a+b', 'k=v', '.', './a', '..', 'a:b', '[a]', 'A' * 300):
            for ws in ([w], ['x', w, 'y'], [w, w]):
                check([cmd] + ws, ' '.join([cmd] + ws), ctx, lib)
        # characters which are neither blanks nor letters of flags
        for ch in UNI:
            for w in (ch, 'a' + ch + 'b', ch + '-', '-' + ch, '--' + ch, 'a' + ch) + tuple(x for s in alpha.small(cmd, 8) for x in (s + ch, ch + s, s[:1] + ch + s[1:], s + '=' + ch)):
                for ws in ([w], ['x', w], [w, 'y', w]) if ch not in '\r\n' else ():
                    check([cmd] + ws, ' '.join([cmd] + [lib.quote(x) if set(x) & set('\'"$*\\# ') else x for x in ws]), ctx, lib)
                check([cmd, w, w], lib.line([cmd, w, w]), ctx, lib)
        # a name with a directory is another command
        for d in ('./', '/usr/bin/', 'a/', 'x/../', ' ', '\\\\'):
            for tail in (alpha.small(cmd, 14)[:8], alpha.small(cmd, 3) + ['x'], ['x']):
                check([d.replace('\\\\', '\\') + cmd] + tail, (d.replace(' ', '\\ ')) + cmd + ' ' + ' '.join(lib.quote(t) for t in tail), ctx, lib)
        for n in (cmd.upper(), cmd + '.json/x', cmd + 'x' * 300, cmd + '.json', cmd + '1', cmd[:-1], cmd + '.old', cmd + '.', '.' + cmd, cmd + '-x', cmd + '_x', 'x.' + cmd, 'x-' + cmd, 'g' + cmd, cmd.capitalize(), cmd + cmd, cmd + ' ', ' ' + cmd,
                  cmd + '\n', cmd + '\t', cmd + '@2', cmd + '+', cmd + ':', cmd + '~', '"' + cmd + '"', cmd.replace('_', '-'), '_default_data_for_commands', 'data/' + cmd, '../data/' + cmd, '',
                  *(x for ch in UNI for x in (ch, cmd + ch, ch + cmd, cmd[:1] + ch + cmd[1:]))):
            if n not in model.TABLES:
                check([n] + alpha.small(cmd, 5), lib.line([n] + alpha.small(cmd, 5)), ctx, lib)
        for q in (lib.q_single, lib.q_double, lib.q_backslash, lib.q_mixed):
            check([cmd, 'x'], q(cmd) + ' x', ctx, lib)
