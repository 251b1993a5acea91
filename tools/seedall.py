"""python3 tools/seedall.py [--jobs N] [SEED...]: run the own check of every planted bug, update tools/seed_results.json."""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
jobs = 2
if a[:1] == ['--jobs']:
    jobs, a = int(a[1]), a[2:]
P = os.path.join(V, 'tools', 'seed_results.json')
res = json.load(open(P)) if os.path.exists(P) else {}
ids = a or sorted(os.listdir(os.path.join(V, 'seeded')))
res = {k: v for k, v in res.items() if os.path.isdir(os.path.join(V, 'seeded', k))}


def one(i):
    p = subprocess.run([os.path.join(V, 'tools', 'seedrun.sh'), i], capture_output=True, text=True)
    print(p.stdout.strip(), flush=True)
    return i, [l.split()[1] for l in p.stdout.splitlines() if ' rc=1 ' in l and 'viol VIOLATION' in l]


with ThreadPoolExecutor(jobs) as ex:
    for i, c in ex.map(one, ids):
        res[i] = c
        json.dump(res, open(P, 'w'), indent=0, sort_keys=True)
