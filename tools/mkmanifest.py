"""Regenerates /verif/MANIFEST.json from the property modules that exist."""
import json, os, ast, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    f = os.path.join(V, 'sim', 'props', p['id'].lower() + '.py')
    if not os.path.exists(f):
        continue
    m = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('NOTE', 'LEVEL'):
            m[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append(dict(property=p['id'], quick_cmd='./check %s quick' % p['id'], thorough_cmd='./check %s thorough' % p['id'],
                       technique='deterministic simulation with fault injection: seeded search over ' + ', '.join(p['quantifier']['over']),
                       level=m.get('LEVEL', 'exploration'),
                       level_note=m.get('NOTE', 'Sampled, not exhaustive: a clean batch is evidence. Trusts the simulated seam (process-crash model, completed '
                                        'system calls survive) and the independent format readers of sim/gitfmt.py; gitdb and smmap run unmodified.')))
have = {c['property'] for c in checks}
json.dump(dict(version=1, setup_cmd='true', checks=checks,
               not_applicable=[dict(property=p['id'], reason='check not built yet') for p in props if p['id'] not in have],
               notes='No hooks in /repo: the simulator replaces os, mmap, time, tempfile, threading locks and gitdb\'s map manager from outside.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(sorted(have))
