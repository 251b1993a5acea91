"""Boring reference model of the annotations.  Independent of the code; tables are frozen in tables.json.

Canonical forms
  invocation : (cmd, [('F', name) | ('O', name, arg)], [operand, ...])
  I/O info   : None or {'opts': [None | kind per flag/option], 'ops': [kind], 'in': bool, 'out': bool}
               kind = 'ARG' or the name of an access kind; None for flags
  para info  : None or (commutative, [ (splitter, mapper, aggregator, info, n_aux) ])
"""
import json, os, re

TABLES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tables.json')))
DEFAULT = TABLES['_default_data_for_commands']
FILE_TYPES = ('FILE', 'DIR', 'DIRECTORY')
ACCESS = ['CONFIG_INPUT', 'STREAM_INPUT', 'CONTAINER_FOR_INPUT', 'EXCLUDES_FROM_INPUT', 'OTHER_INPUT',
          'STREAM_OUTPUT', 'OTHER_OUTPUT']
INPUTS = ACCESS[:5]
OUTPUTS = ACCESS[5:]

ANNOTATED_IO = ['alt_bigram_aux_reduce', 'alt_bigrams_aux', 'awk', 'bigrams_aux', 'cat', 'col', 'comm', 'custom_sort',
                'custom_tr', 'cut', 'diff', 'grep', 'head', 'mkfifo', 'mv', 'rm', 'sed', 'seq', 'set_diff', 'sort',
                'tail', 'tee', 'test_one', 'test_two', 'tr', 'uniq', 'wc', 'xargs']
ANNOTATED_PARA = ['alt_bigrams_aux', 'bigrams_aux', 'col', 'custom_sort', 'custom_tr', 'cut', 'grep', 'sed', 'set_diff',
                  'sort', 'test_one', 'test_two', 'tr', 'uniq', 'xargs']
# commands that are not annotated at all (or have a table only)
UNANNOTATED = ['export', 'foo', 'bigram_aux_map', 'bigram_aux_reduce', 'Cat', 'sort2', 'basename']
ALL_COMMANDS = sorted(set(ANNOTATED_IO) | set(UNANNOTATED))


def table(cmd):
    return TABLES.get(cmd, DEFAULT)


class Maps:
    """spelling -> primary name, separately for flags and options"""

    def __init__(self, cmd):
        t = table(cmd)
        self.flag = {s: g[0] for g in t['flag'] for s in g}
        self.opt = {s: g[0] for g in t['option'] for s in g[:-1]}
        self.kind = {}
        for g in t['option']:
            typ = g[-1]
            self.kind[g[0]] = typ[1] if isinstance(typ, list) and typ[0] in FILE_TYPES else 'ARG'


_maps = {}


def maps(cmd):
    if cmd not in _maps:
        _maps[cmd] = Maps(cmd)
    return _maps[cmd]


def ref_parse(words):
    """Role of every word: flag > option with following word > --option=value > cluster of flags > operands."""
    cmd, rest = words[0], list(words[1:])
    m = maps(cmd)
    fo = []
    i = 0
    while i < len(rest):
        w = rest[i]
        if w == '':
            break
        if w in m.flag:
            fo.append(('F', m.flag[w]))
        elif w in m.opt and i + 1 < len(rest):
            fo.append(('O', m.opt[w], rest[i + 1]))
            i += 1
        elif w.startswith('--') and '=' in w and w[:w.index('=')] in m.opt:
            k = w.index('=')
            fo.append(('O', m.opt[w[:k]], w[k + 1:]))
        elif w[0] == '-' and len(w) > 1 and all('-' + c in m.flag for c in w[1:]):
            fo.extend(('F', m.flag['-' + c]) for c in w[1:])
        else:
            break
        i += 1
    return cmd, fo, rest[i:]


def names(fo):
    return [e[1] for e in fo]


def has(fo, *ns):
    return any(e[1] in ns for e in fo)


def ref_io(inv):
    cmd, fo, ops = inv
    if cmd not in ANNOTATED_IO:
        return None
    n = len(ops)
    m = maps(cmd)
    opts = [None if e[0] == 'F' else m.kind[e[1]] for e in fo]
    S, A = 'STREAM_INPUT', 'ARG'
    inp = out = False
    kinds = [S] * n
    if cmd in ('cat', 'cut', 'head', 'tail'):
        out, inp = True, n == 0
    elif cmd in ('sort', 'custom_sort'):
        out = not has(fo, '-o')
        inp = n == 0 and not has(fo, '--files0-from')
    elif cmd in ('tr', 'custom_tr', 'xargs'):
        inp = out = True
        kinds = [A] * n
    elif cmd == 'uniq':
        if n > 2:
            return None
        inp, out = n == 0, n < 2
        if n == 2:
            kinds = [S, 'STREAM_OUTPUT']
    elif cmd == 'comm':
        if n != 2:
            return None
        out = True
    elif cmd in ('diff', 'alt_bigram_aux_reduce'):
        out = True
    elif cmd in ('grep', 'awk', 'sed'):
        if cmd == 'sed' and has(fo, '-i', '--in-place'):
            return None
        out = not (cmd == 'grep' and has(fo, '-q'))
        script_in_option = has(fo, *{'grep': ('-e', '-f'), 'awk': ('-f', '-e', '-E'), 'sed': ('-e', '-f')}[cmd])
        if not script_in_option:
            if n == 0:
                return None
            kinds = [A] + [S] * (n - 1)
        files = n if script_in_option else n - 1
        inp = files == 0
        if inp and cmd == 'grep' and (has(fo, '-r', '-R') or any(e[1] == '-d' and 'recurse'.startswith(e[2]) for e in fo)):
            return None
    elif cmd == 'wc':
        if has(fo, '--files0-from'):
            return None
        out, inp = True, n == 0
    elif cmd == 'tee':
        inp = out = True
        kinds = ['STREAM_OUTPUT'] * n
    elif cmd == 'mv':
        t = [e for e in fo if e[1] == '-t']
        if len(t) > 1:
            return None
        if t:
            kinds = ['OTHER_INPUT'] * n
        else:
            if n == 0:
                return None
            kinds = ['OTHER_INPUT'] * (n - 1) + ['OTHER_OUTPUT']
    elif cmd in ('rm', 'mkfifo'):
        kinds = ['OTHER_OUTPUT'] * n
    elif cmd == 'seq':
        out = True
        kinds = [A] * n
    elif cmd == 'set_diff':
        if n != 1:
            return None
        inp = out = True
        kinds = ['CONFIG_INPUT']
    elif cmd in ('col', 'bigrams_aux', 'alt_bigrams_aux', 'test_one', 'test_two'):
        inp = out = True
    else:
        raise AssertionError(cmd)
    return {'opts': opts, 'ops': kinds, 'in': inp, 'out': out}


def other_outputs(io):
    return 'OTHER_OUTPUT' in [k for k in io['opts'] if k] + io['ops']


# ---------------------------------------------------------------- parallelizability
CC, RR, RRU = 'CONSEC_CHUNKS', 'ROUND_ROBIN_PLAIN', 'ROUND_ROBIN_UNWRAP_FLAG'
SEQ = ('SAME_AS_SEQ', None, ('seq',), True)
CONC = ('CONCATENATE', True)
NOINFO = 'NO_ADD_INPUT'
SORT_KEEP = ('-b', '-d', '-f', '-g', '-i', '-M', '-h', '-n', '-r', '--sort', '-V', '-k', '-t')


def _both(agg):
    return [(CC, SEQ, agg, NOINFO, 0), (RR, SEQ, agg, NOINFO, 0)]


# --- sets of tr
TR_CLASSES = {'alnum', 'alpha', 'blank', 'cntrl', 'digit', 'graph', 'lower', 'print', 'punct', 'space', 'upper', 'xdigit'}


def tr_set_has_newline(s):
    """does the tr set contain a newline character?  (characters, escapes, ranges; [:space:] and [:cntrl:])"""
    chars, i = [], 0                             # [(code, written with a backslash)]
    simple = {'a': 7, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11}
    while i < len(s):
        c = s[i]
        if c == '\\' and i + 1 < len(s):
            d = s[i + 1]
            i += 2
            if d in '01234567':
                val = d
                while i < len(s) and len(val) < 3 and s[i] in '01234567' and int(val + s[i], 8) <= 255:
                    val += s[i]
                    i += 1
                chars.append((int(val, 8), True))
            else:
                chars.append((simple.get(d, ord(d)), True))
        else:
            chars.append((ord(c), False))
            i += 1
    plain = ''.join('\0' if esc else chr(c) for c, esc in chars)     # one position per character, escaped ones unreadable
    i = 0
    while i < len(chars):
        if plain.startswith(('[:space:]', '[:cntrl:]'), i):
            return True
        for pattern, at in ((r'\[:\w+:\]', None), (r'\[=.=\]', 2), (r'\[.\*[0-9]*\]', 1)):
            m = re.match(pattern, plain[i:], re.DOTALL)
            if m:
                break
        if m:
            if at is not None and chars[i + at][0] == 10:
                return True
            i += m.end()
            continue
        if i + 2 < len(chars) and plain[i + 1] == '-':
            if chars[i][0] <= 10 <= chars[i + 2][0]:
                return True
            i += 3
            continue
        if chars[i][0] == 10:
            return True
        i += 1
    return False


def ref_para(inv):
    """None, or (is_commutative, declared strategies)"""
    cmd, fo, ops = inv
    if cmd not in ANNOTATED_PARA:
        return None
    comm = False
    P = []
    if cmd in ('col', 'custom_tr'):
        P = _both(CONC)
    elif cmd == 'cut':
        if not any(e[1] == '-d' and e[2] in ('\n', '\\n') for e in fo):
            P = _both(CONC)
    elif cmd == 'xargs':
        if not has(fo, '-a', '-0', '-E') and not any(e[1] == '--delimiter' and e[2] not in ('\n', '\\n') for e in fo):
            P = _both(CONC)
    elif cmd == 'set_diff':
        P = [(CC, SEQ, CONC, NOINFO, 0)]
    elif cmd == 'grep':
        if not has(fo, '-q', '-A', '-B', '-C', '-H', '-m', '-z', '-L', '-l', '-c', '-n', '-b'):
            P = _both(CONC)
    elif cmd == 'sed':
        if not has(fo, '-f', '-z', '--debug'):
            scripts = [e[2] for e in fo if e[1] == '-e']
            if not scripts:
                if not ops:
                    return None
                scripts = [ops[0]]
            if all(s.startswith('-') or s.startswith('s') or not ('d' in s or 'q' in s) for s in scripts):
                P = _both(CONC)
    elif cmd in ('sort', 'custom_sort'):
        comm = True
        bad = has(fo, '-c', '-C', '-u', '-z', '-R', '-s', '-m', '--files0-from', '--random-source')
        if cmd == 'sort':
            bad = bad or has(fo, '--debug', '--check') or any(e[1] == '--sort' and 'random'.startswith(e[2]) for e in fo) \
                or any(e[1] == '-k' and 'R' in e[2] for e in fo)
        if not bad:
            agg = ('CUSTOM_2_ARY', True, 'transformer', ('chain', (('filter', SORT_KEEP), ('add', (('F', '-m'),)))))
            P = [(CC, SEQ, agg, NOINFO, 0)]
    elif cmd == 'tr':
        if not ops:
            # the sets are only looked at when deleting or squeezing
            if has(fo, '-d', '-s'):
                return None
            P = _both(CONC)
        else:
            first = tr_set_has_newline(ops[0]) != has(fo, '-c')
            last = first if len(ops) == 1 else tr_set_has_newline(ops[-1])
            if has(fo, '-d') and first:
                P = _both(('ADJ_LINES_MERGE', False))
            elif has(fo, '-s') and (first or last):
                P = _both(('ADJ_LINES_FUNC', False, 'string', 'PLACEHOLDER: remove first line if empty'))
            else:
                P = _both(CONC)
    elif cmd == 'uniq':
        if has(fo, '-d', '-D', '--all-repeated'):
            P = []
        elif has(fo, '-c'):
            P = _both(('ADJ_LINES_FUNC', False, 'string', 'PLACEHOLDER:uniq_merge_count_uniq'))
        else:
            P = _both(('ADJ_LINES_SEQ', False))
    elif cmd == 'alt_bigrams_aux':
        P = [(CC, ('CUSTOM', 'alt_bigrams_aux', ('custom', ()), True),
              ('CUSTOM_2_ARY', True, 'string', 'alt_bigram_aux_reduce'), NOINFO, 0)]
    elif cmd == 'bigrams_aux':
        P = [(CC, ('CUSTOM', 'bigram_aux_map', ('custom', ()), True),
              ('CUSTOM_2_ARY', True, 'string', 'bigram_aux_reduce'), NOINFO, 2)]
    elif cmd in ('test_one', 'test_two'):
        P = [(CC, SEQ, ('CUSTOM_N_ARY', False, 'string', 'runtime/agg/opt/concat.sh'), NOINFO, 0)]
    return comm, P


def ref_inferred(comm, P):
    return P + ([(RRU,) + p[1:] for p in P if p[0] == CC] if comm else [])
