"""Writes MANIFEST.json from the table below and from properties.jsonl (whose remaining ids become not_applicable)."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {}
exec(open(os.path.join(root, 'tools', 'checks.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
m = {
    'version': 1,
    'setup_cmd': 'bash /verif/check.sh setup',
    'checks': [{
        'property': p,
        'quick_cmd': f'bash /verif/check.sh {p} quick',
        'thorough_cmd': f'bash /verif/check.sh {p} thorough',
        'technique': CHECKS[p][0],
        'level': 'model_checking',
        'level_note': CHECKS[p][1],
    } for p in props if p in CHECKS],
    'not_applicable': [{'property': p, 'reason': 'check not built yet'} for p in props if p not in CHECKS],
}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
