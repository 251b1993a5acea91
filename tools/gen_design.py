"""python3 tools/gen_design.py: writes DESIGN.md (prose here, bounds and rules from the check modules, seeded changes from seeded/)."""
import glob, importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True

HEAD = r'''# Model checking binpash/annotations

(This file is written by `tools/gen_design.py`; per-property rules, bounds and costs are taken from the check modules, so they
cannot drift from what runs.)

## What the system is, and what "behaviours" are explored

`pash_annotations` is a pure Python library.  A client (PaSh) hands it a command line and gets

    parse(str) -> CommandInvocationInitial
        -> InputOutputInfo (roles of operands, option arguments, stdin, stdout) -> CommandInvocationWithIO
        -> ParallelizabilityInfo (splitter / mapper / aggregator specifications)
              -> instantiated mapper and aggregator invocations over I/O variables (CommandInvocationWithIOVars)

plus a command line tool, a man-page extractor that produces the interface tables, and the tables themselves.  It keeps no
persistent state and starts no threads, so its bounded behaviour spaces are

* **word tries**: a state is a command line (a word prefix), a transition appends a word / adds a flag or operand.  Every
  state within the bound runs on the real code and is compared with a small reference model (`mc/model.py`): C01-C07, C09;
* **operation histories**: breadth-first exploration of call sequences on real objects - edits of invocations with variables
  (C14), chains of transformers (C15), queries, repeated queries and caller modifications in one process (C12, C13), helper
  calls of annotation writers (C26);
* **distributed executions of real commands** (C08): every input up to a bound, every split into parts (or every assignment of
  blocks to workers), the *instantiated* mapper and aggregator run with the installed coreutils/grep/sed;
* **schedules** (C19): every preemption point of real threads; and of the save-file race of the command line tool (C18);
* **configurations**: all combinations of parts of specifications (C10, C11, C16, C17, C23-C25), all entries of the interface
  tables against the installed commands (C21), all combinations of artefacts of a new command (C27),
  of ways to install and use the package (C28), all man-page lines of a
  grammar and small man pages (C20, C29), all shell-AST words (C22).

Every deciding step is a complete enumeration within the stated bounds - nothing is sampled (VERIF_SEED only rotates the order
in which the complete list is worked off), and no solver is used.  There is no separate model that could drift: the
reference models are Python functions over the same enumerated states, and *every* state is replayed on the
implementation, so "traces validated against the implementation" equals the number of states (evidence files).  Where the oracle
itself could be wrong about the world (which word takes an argument, what a command really reads), it is bound to the installed
commands: role model (C03) by running the commands under inotify and a stdin-offset probe, tables (C21) by probing, strategies
(C09) through real distributed executions (C08).

## Machinery

* `run.py Cnn [--replay FILE]` - entry; `mc/core.py` - parallel enumeration (8 processes), evidence, replay files, known findings,
  exit codes.  Violations are collected over the whole space, the smallest are written to `replays/` and printed.
* `tools/seedrun.sh SEED [CHECKS]`, `tools/seedall.py` - planted bugs on scratch copies; `tools/refactor.py`, `tools/refrun.sh` - behaviour-preserving
  rewrites; `tools/mutate.py`, `tools/mutrun.py` - mutants (all development only).
* `mc/model.py` - reference parser, role model, strategy rules; `mc/tables.json` - frozen interface tables (equal to /repo's; a changed
  table entry is a violation of C01/C21); `mc/alpha.py`, `mc/enumr.py` - alphabets and selections; `mc/lib.py` - canonical forms of
  real objects (public API only; transformers are judged by behaviour on probe lists, never by their classes); `mc/inst.py`,
  `mc/chain.py` - instantiation references; `mc/runner.py` - running real commands on split inputs in scratch directories;
  `mc/realroles.py` - observing real accesses.
* Library code is imported from `/repo`'s working tree with byte-code caching off (`VERIF_REPO` selects another copy during
  development).  No hooks in /repo are needed.
* Commands under test run in scratch directories created and removed by the check; invocations that write files run with
  scratch operands only.  Nothing outside is touched.
* Development tools `tools/gen_*.py` generate the committed files; no check uses anything in `tools/`.

An exception raised inside the library where an answer is expected is a violation; an exception in the harness is an error (exit
2).  A timeout of one case is an error except in C19 where not answering is a violation.

'''

ORACLE = {
 'C01': 'a ~25-line reference parser over frozen tables; every word must come out exactly once with its role and primary name.',
 'C02': 'equality: the parses (and both kinds of information) of two spellings of one invocation must be equal.',
 'C03': 'a role model per command, itself validated in the same run against real executions (which operand files are opened or written, whether stdin was consumed, stdout written).',
 'C04': 'the frozen access column of the tables plus the position-independent definition.',
 'C05': 'definition: some file operand or option argument is an other-output.',
 'C06': 'never raises; the table of refusals from the statement; no annotation without a command.',
 'C07': 'word-for-word reconstruction of the invocation from the annotated one; snapshots before and after.',
 'C08': 'byte equality of the output of the original command on the whole input and of the distributed execution.',
 'C09': 'the rule set of the statement as a function of flags and operands (independent of the generators).',
 'C10': 'list-level reference instantiation (replace streams, transform flags), snapshots, repetition.',
 'C11': 'list-level reference instantiation, in every order and numbering of the parts, snapshots, repetition.',
 'C12': 'definition on lists, after every history of queries.',
 'C13': 'the same query in a process forked before the library was ever called (and in fresh interpreters), after every history; earlier results re-inspected at the end.',
 'C14': 'list/dict model of an invocation with variables, compared after every edit.',
 'C15': 'list semantics of each transformer; inputs, transformers and earlier results compared before/after.',
 'C16': 'list-level reference of the operand order, counts and access; rejections.',
 'C17': 'definition: same class and all parts equal, computed on an independent description of every catalogue entry.',
 'C18': 'the texts the library itself gives for each part of the report, verbatim command line, snapshots of the directory.',
 'C19': 'the sequential result of each thread.',
 'C20': 'a reference reading of the documented line patterns; loads into the parser.',
 'C21': 'diagnostics and exit status of the installed command on each spelling with and without argument.',
 'C22': 'a recursive reference renderer.',
 'C23': 'the classification table of seven kinds.',
 'C24': 'definition; the parts given to the constructor.',
 'C25': 'the definition of each query over the list of contents the invocation was built from.',
 'C26': 'a list of roles with one assignment per call; list of strategies; string functions by definition.',
 'C27': 'what the added files say; the unextended package for every other command.',
 'C29': 'a reading of the page by definition (table) and the reference parser over that table.',
 'C28': 'the answers of a fresh interpreter in the source tree.',
}

TAIL = r'''
## Genuine defects found

Repaired with `fix:` commits in /repo (each listed as `fixed:` line in `known_findings.txt`):

@FIXED@

Recorded as known findings (`finding:` lines; the repair is not small and safe, each is printed as KNOWN-FINDING):

* C08, `cut -z` (6 invocations): offered line chunks although its records end in NUL; the existing `test_cut_2` pins these strategies.
* C08, `sed` scripts whose effect depends on line numbers, hold space or other lines (15 invocations): the rule copied from PaSh
  offers chunks to any script; deciding it needs a sed parser, and offering nothing to sed would remove the behaviour.
* C08, `xargs` (12 invocations): several lines become one command; only `-I`/`-i` work per line, and what the command prints would
  have to be known; the existing tests pin the rule for `-n`.
* C03, `-` as the name of a file (7 invocations of rm, tee, mv, mkfifo, sort -o): those commands mean a file called `-`; the annotation
  format turns every `-` into a standard stream before any generator sees it.

Each entry names one specific invocation; any other violation of the same property is still reported.

## False alarms met and corrected

* equality of parallelizers was first compared through reprs - made structural (C17);
* C13 first modified shared value objects (transformers) as "caller modification"; hoisting immutable-by-convention constants is
  legitimate, so only lists/attributes of invocations, information objects and parallelizers are modified;
* C08 first included inputs without trailing newline: PaSh's splitters only produce whole lines, so inputs are line sequences;
* C19's first scheduler used wall-clock join timeouts that were too short on loaded machines - a thread that cannot proceed is now
  waited for and the alternative order is taken;
* C18 compared object reprs containing memory addresses - normalised;
* C09's first `tr` sets avoided a backslash at the end because the oracle was unsure; asked of the installed `tr`, it was the library that
  was wrong (repaired), not the check;
* C03: `tail --follow` / `--retry` never terminate; they are excluded from real runs (role model still compared).

## Behaviour-preserving changes: the checks stay quiet

* Four hand-written refactorings of the whole package (cached interface tables with a lock and helper functions in the parser;
  generic lookup, hoisted constants, `any()`/loops in the generators; helpers, comprehensions and rebuilt objects in the data types,
  `main()` in the command line tool).
* `tools/refactor.py` rewrites every module of a scratch copy automatically, `tools/refrun.sh "KIND..."` runs tests and checks on it: results
  returned through locals (ret), inverted conditions (inv), exchanged comparison operands (comp), reordered definitions (order), local
  aliases of globals (local), nested instead of early returns (nest), assert to if/raise (assert), extracted helpers (helper), enum look-ups by
  name (enum), lists built through constructors (lists), positional to keyword arguments (kw), statements without effect (noop), guard
  clauses (guard).  All checks pass on all kinds.

## Coverage of the code

Measured once with `sys.monitoring` over all quick checks: every executable line of `pash_annotations` is run except abstract
`pass` bodies, asserts after unreachable branches, `CommandProperties` and `config/definitions.py` helpers (dead code: nothing
imports them), and `add_access_to_*` / `contains_null_char` (no caller).

## Limits

* `python -O` removes assertions, and several refusals (C06) are assertions; the checks run without `-O`, as PaSh does.
* `awk` programs, `col`, `custom_*`, `bigram*`, `set_diff`, `test_*` are not installed here: their rules (C03, C09, C21) are checked
  against the model only, and C08 does not execute them.
* Values outside the alphabets (see bounds) and lines longer than the bounds are not covered; long runs of flags and operands are
  covered by dedicated families (up to 66 flags, 12 operands).
* C19 explores up to one preemption at line granularity (two in thorough); the GIL makes finer interleavings of pure Python
  code equivalent to byte-code switches, which the thorough tier enumerates for the shorter pairs.
* No property was found to which bounded exhaustive exploration does not apply; `not_applicable` is empty.

## Systematic small changes (tools/mutate.py)

@MUT@

## Planted bugs (seeded/) and the checks that catch them

Each was written from the property text and the code; "caught" is the own property's quick check (exit 1 and VIOLATION), run with
`/verif/tools/seedall.py`.  Changes first missed, and what was strengthened: see the list after the table.

@SEEDS@

First missed, then caught after strengthening (in brackets what was added because of it): c25-last-option (repeated option
names), c14-zero (variable number 0), c14-all-inputs (inputs asked for twice), c20-description (capitalised descriptions),
c01-trailing-escape (escapes at the end of a line), c14-replace-present (replacing by a variable already there), c20-past and c20-three
(option lines at the end of a page, three spellings), c27-dotted (file names with dots), c29-width (page widths), c14-identity (equal
numbers that are different objects), c01-many-words (lines of thousands of words), c18-normpath (names through linked directories),
c20-lower (capital option names), c11-string-cache (aggregators whose command is the command itself), c22-recursive, c26-foldl-rec, c14-op-rec, c11-cat-limit, c18-truncate,
c20-many, c17-long (sizes of hundreds and thousands, in all checks), c13-prefix-key (unknown commands with similar names), c10-empty-transformed (odd command names); and, from mutants: C26
functions, C13 fresh interpreters, C27 lower/upper case of file names.  One planted change was deleted again: modifying a value
object a parallelizer shares with the library (c13-access) is nothing a client may do.
'''


def main():
    out = [HEAD, '## Per property\n']
    cost = {}
    for f in glob.glob(os.path.join(V, 'evidence', 'C*.json')):
        e = json.load(open(f))
        if e['tier'] == 'quick':
            cost[e['property']] = e
    costs = json.load(open(os.path.join(V, 'tools', 'costs.json')))
    for l in open(os.path.join(V, 'properties.jsonl')):
        p = json.loads(l)
        m = importlib.import_module('mc.checks.' + p['id'].lower())
        c = costs.get(p['id'], {})
        out.append(f"### {p['id']} {p['title']}\n\n"
                   f"* specified: {p['statement']}\n"
                   f"* enumerated: {m.RULE}.\n"
                   f"* bounds, quick: {m.BOUNDS['quick']}.\n"
                   f"* bounds, thorough: {m.BOUNDS['thorough']}.\n"
                   f"* oracle: {ORACLE[p['id']]}\n"
                   f"* why beyond tests: {p['why_tests_cant']}\n"
                   f"* assumptions: {'; '.join(m.ASSUMPTIONS)}.\n"
                   f"* cost (8 cores): quick {c.get('quick', '?')} s with {c.get('states', '?')} states; thorough {c.get('thorough', '?')} s.\n")
    fixed = [l.strip() for l in open(os.path.join(V, 'known_findings.txt')) if l.startswith('fixed:')]
    fx = '\n'.join('* ' + re.sub(r'fixed: property=(\S+) (\S+) (.*)', r'\1, `\2`: \3', l) for l in fixed)
    res = {}
    rp = os.path.join(V, 'tools', 'seed_results.json')
    if os.path.exists(rp):
        res = json.load(open(rp))
    rows = ['| change | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
    for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
        m = json.load(open(d))
        i = os.path.basename(os.path.dirname(d))
        rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(res.get(i, ['?'])) or 'missed'} |".replace('\n', ' '))
    mp = os.path.join(V, 'tools', 'mutation.md')
    mut = open(mp).read() if os.path.exists(mp) else '(not run yet)'
    out.append(TAIL.replace('@FIXED@', fx).replace('@SEEDS@', '\n'.join(rows)).replace('@MUT@', mut))
    with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


main()
