"""Regenerates MANIFEST.json from properties.jsonl and the check modules."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    f = os.path.join(V, 'vm', 'checks', p['id'].lower() + '.py')
    if not os.path.exists(f):
        na.append({'property': p['id'], 'reason': 'check not built yet'})
        continue
    ns = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                ns[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    note = 'Holds on the executions observed (seeded random + stored-material workloads), not a proof. '
    note += ' '.join(ns.get('ASSUMPTIONS', [])) or ''
    checks.append({'property': p['id'], 'quick_cmd': f"./run.py {p['id']} --tier quick",
                   'thorough_cmd': f"./run.py {p['id']} --tier thorough",
                   'evidence_file': f"evidence/{p['id']}.json",
                   'technique': ns.get('TECHNIQUE', 'runtime monitoring: online oracle on observed executions'),
                   'level': ns.get('LEVEL', 'exploration'), 'level_note': note.strip()})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -B tools/selftest.py', 'checks': checks,
     'not_applicable': na,
     'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: monitors wrap the public API from /verif and the '
               'C extension is rebuilt with sanitizers from /repo/c by vm/load.py', 'source_commits': []},
     'notes': 'Replay a violation with ./run.py <ID> --replay <path>; VERIF_REPO points the checks at another tree.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
