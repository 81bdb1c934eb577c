"""Writes MANIFEST.json from the plans and properties.jsonl."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, os.path.join(here, '..', 'harness')]
import plans  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(here, '..', 'properties.jsonl'))]
TECH = {}
DEFAULT = ('TLA+ specification model-checked with TLC; TLC state graph '
           'replayed on the real code; recorded executions validated by TLC')
checks, na = [], []
for p in props:
    i = p['id']
    if i not in plans.PLANS:
        na.append(dict(property=i, reason='check not built yet'))
        continue
    tech, note = plans.NOTES.get(i, (DEFAULT, ''))
    checks.append(dict(
        property=i, quick_cmd='python3 tools/check.py %s quick' % i,
        thorough_cmd='python3 tools/check.py %s thorough' % i,
        evidence_file='evidence/%s.json' % i,
        technique=tech or DEFAULT, level='model_checking',
        level_note=note or plans.DEFAULT_NOTE))
m = dict(version=1, setup_cmd='sh tools/setup.sh', checks=checks)
if na:
    m['not_applicable'] = na
with open(os.path.join(here, '..', 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
