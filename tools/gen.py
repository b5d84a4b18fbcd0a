"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import importlib.util
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location(
    'props', os.path.join(HERE, 'tools', 'props.py'))
props = importlib.util.module_from_spec(spec)
spec.loader.exec_module(props)

lines, checks, na = [], [], []
for p in props.PROPS:
    pid = p['d']['id']
    path = os.path.join(HERE, 'mc', 'checks', pid.lower() + '.py')
    if not os.path.exists(path):
        print('no check yet for', pid)
        continue
    level = re.search(r"^LEVEL = '(\w+)'", open(path).read(), re.M).group(1)
    lines.append(p['d'])
    checks.append(dict(
        property=pid, quick_cmd='bash run.sh %s' % pid,
        thorough_cmd='VERIF_TIER=thorough bash run.sh %s' % pid,
        evidence_file='evidence/%s.json' % pid,
        technique=p['technique'], level=level, level_note=p['level_note']))
for p in props.NA:
    lines.append(p['d'])
    na.append(dict(property=p['d']['id'], reason=p['reason']))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d in lines:
        f.write(json.dumps(d) + '\n')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(
        version=1,
        setup_cmd='/opt/venv/bin/python -c "import gmpy2, numpy, shapely, '
        'trimesh, ezdxf, pyrsistent"',
        checks=checks, not_applicable=na,
        notes='run one check: bash run.sh <id>; replay a violation: '
        'bash run.sh <id> --replay <file>'), f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
