"""Writes MANIFEST.json from the property modules in harness/props."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness')); sys.dont_write_bytecode = True
checks, na = [], []
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(l)
    pid = p['id']
    if not os.path.exists(os.path.join(ROOT, 'harness', 'props', pid.lower() + '.py')):
        na.append(dict(property=pid, reason='the check is still being built'))
        continue
    m = importlib.import_module('props.' + pid.lower())
    checks.append(dict(property=pid, quick_cmd=f'harness/check {pid}', thorough_cmd=f'VERIF_TIER=thorough harness/check {pid}',
        technique=getattr(m, 'TECHNIQUE', 'TLA+ specification explored with TLC, behaviours replayed into the implementation'),
        level=m.LEVEL, level_note=' '.join((getattr(m, 'NOTE', '') or ('Every explored behaviour of the specification agrees with the implementation; assumes ' + ('; '.join(' '.join(a.split()) for a in m.ASSUMPTIONS) or 'the specification states the property'))).split())))
json.dump(dict(version=1, setup_cmd='sh tools/setup.sh', checks=checks, not_applicable=na,
    notes='TLA+ (TLC). Specifications in spec/, binding in harness/, see DESIGN.md. No hooks in /repo.'), open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not yet')
