"""python3 tools/mutrun.py OUTDIR [--jobs N]: run the checks against the mutants of OUTDIR/stage1.jsonl (see mutate.py)."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, as_completed
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROUTES = [
    ('args-to-json', 'C20'), ('annotation_cli', 'C18'), ('parser/', 'C01 C02 C06 C07 C13 C20 C05 C03'),
    ('util_standard', 'C17 C25 C13 C14'), ('util_flag_option', 'C15 C01'), ('util.py', 'C22 C18 C25 C01 C13'),
    ('definitions', 'C06 C03 C09 C01 C26 C18'), ('AccessKind', 'C23 C17 C04'),
    ('CommandInvocationWithIOVars', 'C14 C17 C10 C11 C05 C25'), ('CommandInvocationWithIO', 'C07 C17 C05 C25 C03 C14'),
    ('CommandInvocationInitial', 'C17 C01'), ('CommandInvocationPrefix', 'C17 C10 C11'),
    ('BasicDatatypesWithIOVar', 'C17 C14 C10'), ('BasicDatatypesWithIO', 'C17 C23 C03 C04 C07 C25'), ('BasicDatatypes', 'C17 C01 C23 C03 C04 C25 C08 C07'),
    ('AggregatorSpec', 'C11 C16 C17 C24 C09 C08'), ('MapperSpec', 'C10 C16 C17 C24 C09'), ('AggregatorKind', 'C17 C09 C24 C11'),
    ('TransformerFlag', 'C15 C17 C10 C11'), ('Splitter', 'C17 C24 C09'), ('Parallelizer.py', 'C24 C12 C17 C10 C09 C11'),
    ('ParallelizabilityInfo.py', 'C12 C13 C09 C17 C10'), ('parallelizability/', 'C17 C10 C11 C16'),
    ('AnnotationGeneration.py', 'C06 C12 C09 C03 C25 C26 C13 C18'), ('InputOutputInfo.py', 'C07 C03 C04 C05 C06 C25 C13 C17'),
    ('CommandProperties', 'C25 C03'), ('Inputs', 'C25'),
    ('InputOutputInfoGenerator', 'C03 C06 C04 C05 C07 C25'), ('ParallelizabilityInfoGenerator', 'C09 C06 C12 C10 C11 C16 C08'),
    ('Generator_Interface', 'C09 C03 C06 C04'), ('', 'C01 C03 C09 C17'),
]


def run(job):
    n, m, out = job
    top = tempfile.mkdtemp(prefix='r-', dir=out)
    try:
        subprocess.check_call(['cp', '-a', '/repo', top + '/repo'])
        open(os.path.join(top, 'repo', m['file']), 'w').write(m['src'])
        os.makedirs(top + '/verif/evidence')
        subprocess.check_call(f'cp -a {V}/run.py {V}/mc {V}/*.txt {V}/*.json* {top}/verif/', shell=True)
        route = next(r for f, r in ROUTES if f in m['file']).split()
        res = []
        for c in route:
            if not os.path.exists(f'{V}/mc/checks/{c.lower()}.py'):
                continue
            t = time.time()
            try:
                p = subprocess.run([sys.executable, 'run.py', c], cwd=top + '/verif', capture_output=True, text=True, timeout=900,
                                   env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', VERIF_REPO=top + '/repo', VERIF_FAILFAST='1', VERIF_JOBS='3'))
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 99
            res.append((c, rc, round(time.time() - t, 1)))
            if rc == 1:
                return m, c, res
        return m, None, res
    finally:
        shutil.rmtree(top)


def main():
    out = sys.argv[1]
    src = sys.argv[sys.argv.index('--in') + 1] if '--in' in sys.argv else 'stage1.jsonl'
    dst = sys.argv[sys.argv.index('--out') + 1] if '--out' in sys.argv else 'stage2.jsonl'
    jobs = int(sys.argv[sys.argv.index('--jobs') + 1]) if '--jobs' in sys.argv else 3
    ms = [json.loads(l) for l in open(os.path.join(out, src))]
    done = set()
    p = os.path.join(out, dst)
    if os.path.exists(p):
        done = {(json.loads(l)['file'], json.loads(l)['k']) for l in open(p)}
    todo = [(i, m, out) for i, m in enumerate(ms) if (m['file'], m['k']) not in done]
    with ThreadPoolExecutor(jobs) as ex, open(p, 'a') as fo:
        for f in as_completed([ex.submit(run, t) for t in todo]):
            m, c, res = f.result()
            fo.write(json.dumps({**m, 'caught': c, 'res': res}) + '\n')
            fo.flush()


if __name__ == '__main__':
    main()
