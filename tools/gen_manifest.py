"""python3 tools/gen_manifest.py: writes MANIFEST.json from properties.jsonl and the check modules present."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if not os.path.exists(os.path.join(V, 'mc/checks', p.lower() + '.py')):
        na.append({'property': p, 'reason': 'check under construction'})
        continue
    m = importlib.import_module('mc.checks.' + p.lower())
    checks.append({'property': p, 'quick_cmd': f'python3 run.py {p}', 'thorough_cmd': f'VERIF_TIER=thorough python3 run.py {p}',
                   'evidence_file': f'evidence/{p}.json',
                   'technique': getattr(m, 'TECHNIQUE', 'explicit-state enumeration of the real code against a reference model'),
                   'level': 'model_checking', 'level_note': getattr(m, 'NOTE', None) or
                   'Exhaustive within the stated bounds: ' + m.BOUNDS['quick'] + '. Assumes: ' + '; '.join(m.ASSUMPTIONS)})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the public API of the pure-Python library is explored directly.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'unclaimed')
