"""Common machinery: parallel exhaustive enumeration, evidence, replay files, known findings.

A check module defines
    ID, TECHNIQUE, BOUNDS (dict tier -> text), ASSUMPTIONS (list)
    cases(tier)           -> list of JSON-able cases (each one a partition of the explored space)
    run_case(case, ctx)   -> explores the partition on the real code, reports through ctx
"""
import hashlib, json, multiprocessing, os, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
MAX_REPORTED = 100          # violations written out per check (all are counted)


def setup_import():
    """Imports the library from REPO's working tree; no byte code is read or written."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent/pycache'
    sys.path.insert(0, REPO)
    import pash_annotations
    f = os.path.realpath(pash_annotations.__file__)
    assert f.startswith(REPO + os.sep), f'library imported from {f}, not from {REPO}'


class CaseTimeout(BaseException):
    pass


def _alarm(_sig, _frm):
    raise CaseTimeout()


class Ctx:
    """Collects what one case explored.  All counts are measured, none is a constant."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0            # behaviours replayed on / compared with the implementation
        self.counters = {}
        self.outcomes = set()      # digests of distinct observed outcomes
        self.samples = []
        self.violations = []       # dicts: key, what, expected, observed, repro

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def outcome(self, obj):
        self.outcomes.add(hashlib.blake2b(repr(obj).encode('utf-8', 'replace'), digest_size=6).digest())

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def violation(self, key, what, expected=None, observed=None, repro=None):
        if len(self.violations) < 200:
            self.violations.append({'key': key, 'what': what, 'expected': jsonable(expected),
                                    'observed': jsonable(observed), 'repro': repro})
        self.count('violations_raw')

    def expect(self, key, what, expected, observed, repro=None):
        if expected != observed:
            self.violation(key, what, expected, observed, repro)
            return False
        return True


def jsonable(x):
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if isinstance(x, (list, tuple)):
        return [jsonable(e) for e in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, bytes):
        return x.decode('utf-8', 'backslashreplace')
    return repr(x)


_MODULE = None
_TIMEOUT = 120


def _in_library(tb):
    return any(os.path.realpath(f.filename).startswith(REPO + os.sep) for f in traceback.extract_tb(tb))


def _work(item):
    idx, case = item
    ctx = Ctx()
    err = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, getattr(_MODULE, 'CASE_TIMEOUT', _TIMEOUT))
    try:
        _MODULE.run_case(case, ctx)
    except CaseTimeout:
        if getattr(_MODULE, 'TIMEOUT_IS_VIOLATION', True):
            ctx.violation(f'timeout:{json.dumps(case)[:300]}', 'the library does not answer (case timed out)')
        else:
            err = f'case {case!r} timed out'
    except Exception as e:
        if _in_library(e.__traceback__):
            ctx.violation(f'raises:{type(e).__name__}:{json.dumps(jsonable(case))[:300]}',
                          'the library raised an exception where an answer was expected',
                          observed=traceback.format_exc()[-1500:])
        else:
            err = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return idx, err, (ctx.states, ctx.transitions, ctx.traces, ctx.counters, list(ctx.outcomes), ctx.samples, ctx.violations)


def load_known(prop):
    """Known findings of this property: key -> description (committed file, never written here)."""
    res = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            if line.startswith(f'finding: property={prop} '):
                rest = line[len(f'finding: property={prop} '):].strip()
                key, end = json.JSONDecoder().raw_decode(rest)
                res[key] = rest[end:].strip()
    return res


def main(module, argv):
    global _MODULE
    _MODULE = module
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = module.ID
    t0 = time.time()
    setup_import()
    if hasattr(module, 'prepare'):
        module.prepare(tier)
    if len(argv) >= 2 and argv[0] == '--replay':
        rec = json.load(open(argv[1]))
        case_list = [rec['case']]
    else:
        case_list = list(module.cases(tier))
    # the seed only rotates the order in which the (complete) list is worked off
    n = len(case_list)
    order = [(i + seed) % n for i in range(n)] if n else []
    nproc = min(int(os.environ.get('VERIF_JOBS', str(os.cpu_count() or 1))), max(1, n))
    total = Ctx()
    results, errors = [], []
    # development only (tools/mutate.py): stop at the first unlisted violation
    FAILFAST, FAILFAST_KNOWN = os.environ.get('VERIF_FAILFAST'), load_known(prop)
    items = [(i, case_list[i]) for i in order]
    if nproc == 1 or getattr(module, 'SEQUENTIAL', False):
        it = map(_work, items)
        pool = None
    else:
        pool = multiprocessing.get_context('fork').Pool(nproc, maxtasksperchild=getattr(module, 'MAX_TASKS', None))
        it = pool.imap_unordered(_work, items, chunksize=max(1, min(8, n // (nproc * 8) or 1)))
    for idx, err, res in it:
        if err:
            errors.append((case_list[idx], err))
        results.append((idx, res))
        if FAILFAST and any(v['key'] not in FAILFAST_KNOWN for v in res[6]):
            if pool:
                pool.terminate()
            break
    if pool:
        pool.close()
        pool.join()
    results.sort(key=lambda r: r[0])
    raw = 0
    viol = []
    for idx, (s, t, tr, cnt, outs, smp, vio) in results:
        total.states += s
        total.transitions += t
        total.traces += tr
        for k, v in cnt.items():
            total.count(k, v)
        total.outcomes.update(outs)
        if len(total.samples) < 6:
            total.samples.extend(smp[:1])
        for v in vio:
            viol.append((case_list[idx], v))
    raw = total.counters.pop('violations_raw', 0)
    if hasattr(module, 'finish') and not errors:
        module.finish(total, tier)
    known = load_known(prop)
    hit, new = {}, []
    for case, v in viol:
        if v['key'] in known:
            hit.setdefault(v['key'], v)
        else:
            new.append((case, v))
    for case, v in [(None, v) for v in total.violations]:
        (hit.setdefault(v['key'], v) if v['key'] in known else new.append((case, v)))
    if errors:
        for case, e in errors[:3]:
            sys.stderr.write(f'CHECK ERROR in case {case!r}:\n{e}\n')
    for k in known:
        if k in hit:
            print(f'KNOWN-FINDING: property={prop} {k} {known[k]}')
        else:
            print(f'note: listed finding not observed in this run: {k}')
    # replay files, smallest first
    rdir = os.path.join(VERIF, 'replays')
    first = None
    if new and not (len(argv) >= 2 and argv[0] == '--replay'):
        os.makedirs(rdir, exist_ok=True)
        new.sort(key=lambda cv: len(json.dumps(jsonable(cv[1]))))
        seen = set()
        for case, v in new:
            if v['key'] in seen or len(seen) >= MAX_REPORTED:
                continue
            seen.add(v['key'])
            path = os.path.join(rdir, f'{prop}-{len(seen)}.json')
            with open(path, 'w') as f:
                json.dump({'property': prop, 'case': jsonable(case), 'violation': v,
                           'rerun': f'python3 {VERIF}/run.py {prop} --replay {path}'}, f, indent=1)
            first = first or path
            if len(seen) <= 8:
                print(f'  {v["what"]}: {v["key"]}\n    expected: {str(v["expected"])[:400]}\n    observed: {str(v["observed"])[:400]}')
    elif new:
        first = argv[1]
        for case, v in new[:8]:
            print(f'  {v["what"]}: {v["key"]}\n    expected: {str(v["expected"])[:400]}\n    observed: {str(v["observed"])[:400]}')
    wall = time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': total.states, 'transitions': total.transitions,
                       'traces_validated_against_impl': total.traces,
                       'distinct_observed_outcomes': len(total.outcomes),
                       'partitions': n, 'counters': total.counters,
                       'samples': jsonable(total.samples)[:8] or ['(none)'],
                       'rule': module.RULE, 'bounds': module.BOUNDS[tier],
                       'exhaustive': not errors},
          'assumptions': list(module.ASSUMPTIONS), 'wall_s': round(wall, 2), 'violations': len(new),
          'known_findings_observed': sorted(hit)}
    if not (len(argv) >= 2 and argv[0] == '--replay'):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print(f'{prop} [{tier}] states={total.states} transitions={total.transitions} traces={total.traces} '
          f'outcomes={len(total.outcomes)} violations={len(new)} (raw {raw}) wall={wall:.1f}s')
    if total.counters:
        print('  ' + ' '.join(f'{k}={v}' for k, v in sorted(total.counters.items())))
    if new:
        print(f'VIOLATION property={prop} replay={first}')
        return 1
    if errors:
        return 2
    if total.states == 0 or total.traces == 0:
        sys.stderr.write('CHECK ERROR: nothing was explored\n')
        return 2
    return 0
