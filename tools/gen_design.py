"""Writes DESIGN.md (run with /opt/venv/bin/python)."""
import glob
import importlib
import json
import os
import sys
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.dont_write_bytecode = True
import props  # noqa

out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read()]


def para(s, **kw):
    out.append(textwrap.fill(' '.join(s.split()), 78, **kw) + '\n')


cost = {}
for f in glob.glob(os.path.join(HERE, 'tools', 'cost.json')):
    cost = json.load(open(f))
for p in props.PROPS:
    d = p['d']
    m = importlib.import_module('mc.checks.' + d['id'].lower())
    out.append('### %s %s\n' % (d['id'], d['title']))
    para(d['statement'])
    para('*Decided by* %s (%s). %s%s.' % (
        p['technique'], m.LEVEL, m.RULE[0].upper(), m.RULE[1:].rstrip('.')))
    para('*Bounds:* %s. Quick: %d work items, thorough: %d.%s' % (
        p['level_note'], len(m.items('quick')), len(m.items('thorough')),
        ' Measured: %s.' % cost[d['id']] if d['id'] in cost else ''))
    para('*Beyond tests:* %s.%s' % (
        d['why_tests_cant'],
        ' *Assumes:* %s.' % '; '.join(m.ASSUMPTIONS) if m.ASSUMPTIONS
        else ''))
for n in props.NA:
    out.append('### %s %s (not applicable)\n' % (n['d']['id'],
                                                 n['d']['title']))
    para(n['reason'])
tail = open(os.path.join(HERE, 'tools', 'design_tail.md')).read()
rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
caught = {}
cf = os.path.join(HERE, 'tools', 'caught.json')
if os.path.exists(cf):
    caught = json.load(open(cf))
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    k = os.path.basename(os.path.dirname(f))
    d = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (
        k, d['property'], ' '.join(d['needs'].split()).replace('|', '/'),
        caught.get(k, '-')))
out.append(tail.replace('@SEEDED@', '\n'.join(rows)))
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out))
