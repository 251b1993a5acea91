"""Alphabets: the words from which command lines are built, per command."""
from mc import model

SPECIAL = ['', '-', '--', '---', 'x', '1', '-1', 'a b', '=', '-=', '--=x', '-?', '--unknown', '--unknown=1', "it's", '"q"',
           'back\\slash', '*', '$v', '#c', '\t', 'a\nb', 'e=--f', '\u00e9', '-\u00e9', '+1', '0']


def flags(cmd):
    return [s for g in model.table(cmd)['flag'] for s in g]


def options(cmd):
    return [s for g in model.table(cmd)['option'] for s in g[:-1]]


def letters(cmd):
    """letters of the single-letter flags"""
    return [s[1] for s in flags(cmd) if len(s) == 2 and s[0] == '-' and s[1] != '-']


def opt_letters(cmd):
    return [s[1] for s in options(cmd) if len(s) == 2]


def eq_forms(cmd):
    r = []
    for o in options(cmd):
        r.append(o + '=v')
        if o.startswith('--'):
            r += [o + '=', o + '=a=b', o + '=-x']
    for f in flags(cmd):
        if f.startswith('--') and f not in options(cmd):
            r.append(f + '=v')
    return r


def near_misses(cmd):
    r = []
    for s in flags(cmd) + options(cmd):
        if s.startswith('--'):
            r += [s[:-1], s + 'x', s[1:], s.upper()]
        else:
            r += [s + s, '-' + s, s.swapcase(), s[1:]]
    L, O = letters(cmd), opt_letters(cmd)
    for o in O:
        r += ['-' + o + '1', '-' + o + o]
        for f in L[:3]:
            r += ['-' + f + o, '-' + o + f, '-' + f + o + '1']
    for f in L[:6]:
        r += ['-' + f + '-', '-' + f + '=', '-' + f + '?', '--' + f + L[0], '-' + f + ' ', ' -' + f, '-' + f + '1']
    return r


def clusters(cmd, n):
    res = ['']
    for _ in range(n):
        res = [c + l for c in res for l in letters(cmd)]
    return ['-' + c for c in res]


def uniq(l):
    seen, r = set(), []
    for w in l:
        if w not in seen:
            seen.add(w)
            r.append(w)
    return r


def full(cmd):
    """every spelling, option=value form, near miss, special word and two-letter cluster"""
    return uniq(flags(cmd) + options(cmd) + eq_forms(cmd) + SPECIAL + near_misses(cmd) + clusters(cmd, 2))


def medium(cmd):
    L = letters(cmd)
    cl = ['-' + L[i] + L[(i * 7 + 3) % len(L)] for i in range(len(L))] if L else []
    return uniq(flags(cmd) + options(cmd) + eq_forms(cmd) + SPECIAL + cl + near_misses(cmd)[:12])


def small(cmd, n):
    """a few words that collide as much as possible (simplest first)"""
    F, O = flags(cmd), options(cmd)
    short = [f for f in F if len(f) == 2]
    long_ = [f for f in F if f.startswith('--')]
    so = [o for o in O if len(o) == 2]
    lo = [o for o in O if o.startswith('--')]
    r = short[:2] + so[:2] + ['x', '-', ''] + long_[:1] + lo[:1] + [o + '=v' for o in lo[:1]] + ['--'] + \
        (['-' + short[0][1] + short[1][1]] if len(short) > 1 else []) + so[2:4] + short[2:4] + lo[1:3] + ['-?', '1']
    return uniq(r)[:n]


def long_lines(cmd):
    """every spelling of the command in one line, all rotations, forwards and backwards (option arguments look like flags)"""
    words = []
    fl = flags(cmd)
    for i, f in enumerate(fl):
        words.append([f])
    for i, o in enumerate(options(cmd)):
        words.append([o, fl[i % len(fl)] if fl and i % 2 else 'a' + str(i)])
    r = []
    for seq in (words, words[::-1]):
        for k in range(max(1, len(seq))):
            rot = seq[k:] + seq[:k]
            r.append([w for g in rot for w in g] + ['op1', '-', 'op2'])
    return r
