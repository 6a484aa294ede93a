#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/meta.py (one place to edit)."""
import json
import os
import sys

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import meta  # noqa: E402

root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in meta.PROPS:
        assert len(p['title']) <= 80, p['title']
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        f.write(json.dumps(q) + '\n')
checks, na = [], []
for p in meta.PROPS:
    i = p['id']
    if p.get('na'):
        na.append(dict(property=i, reason=p['na']))
    elif os.path.exists(os.path.join(root, 'dst/props', i.lower() + '.py')) and not p.get('off'):
        checks.append(dict(
            property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough',
            evidence_file=f'evidence/{i}.json', technique=p['technique'], level='exploration',
            level_note=p['level_note']))
    else:
        na.append(dict(property=i, reason='not claimed: the check for this property is not finished'))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na, notes=meta.NOTES)
m['hooks'] = meta.HOOKS
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not claimed')
