"""Regenerates /verif/MANIFEST.json from properties.jsonl and checks/*.py."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    path = os.path.join(V, 'checks', pid.lower() + '.py')
    if not os.path.exists(path):
        na.append({'property': pid, 'reason': 'Check not built yet.'})
        continue
    names = []
    for node in ast.walk(ast.parse(open(path).read())):
        if isinstance(node, ast.Call) and getattr(node.func, 'id', '') == 'Space':
            names.append(node.args[0].value)
    checks.append({
        'property': pid,
        'quick_cmd': 'bash run.sh %s quick' % pid,
        'thorough_cmd': 'bash run.sh %s thorough' % pid,
        'technique': 'explicit-state model checking: exhaustive bounded enumeration of executions of the real code against a reference model (%s)' % ', '.join(names),
        'level': 'model_checking',
        'level_note': 'Holds for every case within the bounds listed per space in the evidence file; nothing is sampled, nothing is claimed beyond the bounds.',
        'evidence_file': 'evidence/%s.json' % pid,
    })
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'Checks import ndspy from /repo\'s working tree in a fresh process (no bytecode cache is read or written).'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
