"""C27: commands added by the documented steps (docs/adding-annotations.md)."""
import itertools, json, os, re, shutil, subprocess, sys, tempfile
from mc import core, model

ID = 'C27'
RULE = ('state = a scratch copy of the package extended by new commands, one per combination of {name mapped or not} x {I/O '
        'generator absent / normal / refusing / failing to be imported} x {parallelizability generator likewise} x {interface table absent / '
        'present}; transition = asking for one invocation in a fresh interpreter; answers about the new commands are compared with '
        'what their files say, answers about 12 existing commands with those of the unextended package')
BOUNDS = {
    'quick': 'every combination alone (2x3x3x2 = 36, with 9 names of the command) plus two commands added together in every combination of presence of their generators (16), 8 invocations each; '
             '14 invocations of existing commands in each',
    'thorough': 'as quick, and two commands together in every combination of all artefacts (mapped: 18x18)'}
ASSUMPTIONS = ['the name mapping is the dictionary which the documentation names, written as a literal']
TIMEOUT_IS_VIOLATION = False
GEN = 'pash_annotations/annotation_generation/annotation_generators/'
IO = {'normal': '''from pash_annotations.annotation_generation.annotation_generators.InputOutputInfoGenerator_Interface import InputOutputInfoGeneratorInterface

class InputOutputInfoGenerator%s(InputOutputInfoGeneratorInterface):

    def generate_info(self) -> None:
        self.set_implicit_use_of_stdout()
        self.if_no_operands_given_stdin_implicitly_used()
        if self.get_operand_list_length() > 0:
            self.all_but_first_operand_is_other_input()
            self.set_first_operand_as_config_arg_type_string()
''', 'refusing': '''from pash_annotations.annotation_generation.annotation_generators.InputOutputInfoGenerator_Interface import InputOutputInfoGeneratorInterface

class InputOutputInfoGenerator%s(InputOutputInfoGeneratorInterface):

    def generate_info(self) -> None:
        raise Exception("not supported")
'''}
PARA = {'normal': '''from pash_annotations.annotation_generation.annotation_generators.ParallelizabilityInfoGenerator_Interface import ParallelizabilityInfoGeneratorInterface

class ParallelizabilityInfoGenerator%s(ParallelizabilityInfoGeneratorInterface):

    def generate_info(self) -> None:
        if not self.does_flag_option_list_contain_at_least_one_of(["-v"]):
            self.append_to_parallelizer_list_cc_seq_conc()
            self.set_commutative()
''', 'refusing': '''from pash_annotations.annotation_generation.annotation_generators.ParallelizabilityInfoGenerator_Interface import ParallelizabilityInfoGeneratorInterface

class ParallelizabilityInfoGenerator%s(ParallelizabilityInfoGeneratorInterface):

    def generate_info(self) -> None:
        raise Exception("not supported")
'''}
TABLE = {'flag': [['-v', '--verbose']], 'option': [['-o', '--output', ['FILE', 'OTHER_OUTPUT']], ['-n', 'NUM']]}
LINES = ['%s', '%s x', '%s x y', '%s -v', '%s -vn 3 x', '%s -v -o f x y', '%s --output=f', '%s - y -v']
EXISTING = ['cat a b', 'grep -i x f', 'sort -k 1,1 -o out a', 'tr -d x', 'cut -d , -f 1', 'uniq -c a b', 'wc a', 'mv a b', 'comm a b',
            'sed s/a/b/', 'unknown -x y', 'xargs -n 1 rm', 'head -n 1 f', 'tee a']
NAMES = [('catwrap', 'CatWrapper'), ('zip-all', 'ZipAll'), ('sort.v2', 'SortTwo'), ('CAT', 'UpperCat'), ('7z', 'SevenZip'), ('x_y+z', 'Interface2'), ('sort2', 'Sort2'), ('at', 'At'), ('très', 'Très')]
PROBE = r'''
import json, sys
sys.path.insert(0, sys.argv[2])
sys.path.insert(1, sys.argv[1])
from mc import lib
out = []
for t in json.load(sys.stdin):
    inv = lib.safe(lib.parse, t)
    out.append([inv if lib.raised(inv) else lib.canon_inv(inv), lib.safe(lib.observe_io, inv), lib.safe(lib.observe_para, inv)])
import pash_annotations
json.dump([pash_annotations.__file__ or list(pash_annotations.__path__)[0], out], sys.stdout)
'''


def combos():
    return list(itertools.product(('absent', 'normal', 'refusing'), ('absent', 'normal', 'refusing'), (False, True)))


def cases(tier):
    r = [[[[m, a, b, c]]] for m in (True, False) for a, b, c in combos()]
    two = [x for x in combos() if 'refusing' not in x and x[2]] if tier == 'quick' else combos()
    return [c + [k] for c in r for k in range(len(NAMES))] + [[[[True, *x], [True, *y]], 0] for x in two for y in two]


def extend(repo, adds, start):
    for (name, cls), (mapped, io, para, table) in zip(NAMES[start:], adds):
        if mapped:
            n = 0
            for f in ('annotation_generation/AnnotationGeneration.py', 'config/definitions.py'):
                p = os.path.join(repo, 'pash_annotations', f)
                s = open(p, encoding='utf-8').read()
                s2 = re.sub(r'(^DICT_CMD_NAME_TO_REPRESENTATION_IN_MODULE_NAMES[^=\n]*=\s*\{)',
                            lambda m: m.group(1) + f'\n    "{name}": "{cls}",', s, count=1, flags=re.M)
                n += s2 != s
                open(p, 'w', encoding='utf-8').write(s2)
            if not n:
                return False
        if io in IO:
            open(os.path.join(repo, GEN, f'InputOutputInfoGenerator{cls}.py'), 'w').write(IO[io] % cls)
        if para in PARA:
            open(os.path.join(repo, GEN, f'ParallelizabilityInfoGenerator{cls}.py'), 'w').write(PARA[para] % cls)
        if table:
            json.dump(TABLE, open(os.path.join(repo, 'pash_annotations/parser/command_flag_option_info/data', name + '.json'), 'w'))
    return True


def probe(repo, lines):
    p = subprocess.run([sys.executable, '-c', PROBE, repo, core.VERIF], input=json.dumps(lines), capture_output=True, text=True, timeout=120,
                       env={k: v for k, v in os.environ.items() if not k.startswith('PYTHON')} | {'PYTHONDONTWRITEBYTECODE': '1', 'VERIF_REPO': repo})
    if p.returncode:
        return 'fails: ' + p.stderr[-600:]
    where, out = json.loads(p.stdout)
    assert os.path.realpath(where).startswith(os.path.realpath(repo)), where
    return out


_base = None


def expected(name, add, text):
    mapped, io, para, table = add
    words = text.split()
    from mc import lib
    model._maps.pop(name, None)
    if table:
        model.TABLES[name] = TABLE
    try:
        inv = model.ref_parse(words)
    finally:
        model.TABLES.pop(name, None)
        model._maps.pop(name, None)
    ops = inv[2]
    e_io = e_para = None
    if mapped and io == 'normal':
        d = {'in': not ops, 'out': True, 'ops': ['ARG' if i == 0 else 'OTHER_INPUT' for i in range(len(ops))],
             'opts': [{'-o': 'OTHER_OUTPUT', '-n': 'ARG'}.get(e[1]) if e[0] == 'O' else None for e in inv[1]]}
        e_io = (lib.ref_withio(inv, d), model.other_outputs(d))
    if mapped and para == 'normal':
        e_para = ('-v' not in [e[1] for e in inv[1]])
    return inv, e_io, e_para


def run_case(case, ctx):
    from mc import lib
    global _base
    adds, start = case
    if _base is None:
        _base = scratch([], 0, EXISTING)
    lines = [l % NAMES[start + i][0] for i in range(len(adds)) for l in LINES]
    res = scratch(adds, start, EXISTING + lines)
    ctx.states += 1
    if res is None:
        # the mapping is not written as the documentation describes it: the steps cannot be taken
        ctx.traces += 1
        ctx.count('mapping not found')
        return
    if isinstance(res, str) or isinstance(_base, str):
        ctx.violation(f'{adds}', 'the extended package does not work', 'answers', (res, _base))
        return
    ctx.transitions += len(res)
    ctx.traces += len(res)
    for t, b, r in zip(EXISTING, _base, res):
        ctx.expect(f'{adds} {t}', 'adding a command changes what is known about another', b, r)
    for t, r in zip(lines, res[len(EXISTING):]):
        i = [n for n, _ in NAMES].index(t.split()[0])
        inv, io, para = expected(NAMES[i][0], adds[i - start], t)
        if para is not None:
            cc, rru = [[lib.ref_parallelizer((s, model.SEQ, model.CONC, model.NOINFO, 0))] for s in (model.CC, model.RRU)]
            para = (cc, cc + rru, False, True) if para else ([], [], False, False)
        exp = json.loads(json.dumps([inv, io, para]))
        ctx.outcome(exp)
        ctx.expect(f'{adds} {t}', 'answer about an added command', exp, r)
    ctx.sample([adds, lines[:2]])


def scratch(adds, start, lines):
    top = tempfile.mkdtemp(prefix='mc-c27-')
    try:
        shutil.copytree(os.path.join(core.REPO, 'pash_annotations'), os.path.join(top, 'pash_annotations'),
                        ignore=shutil.ignore_patterns('__pycache__', 'tests', 'old_annotations'))
        if not extend(top, adds, start):
            return None
        return probe(top, lines)
    finally:
        shutil.rmtree(top)
