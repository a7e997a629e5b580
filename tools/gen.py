#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.json-ish
python tables.  Not run by any check."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS, NA  # noqa: E402

TECH = 'deductive contracts: goto-instrument --dfcc + cbmc 6.11 (SAT back ends)'
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        assert len(p['title']) <= 80, p['title']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p.get('over', ['inputs']),
                            'text': p['forall']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'],
                         'mechanism': [{'name': a, 'where': b}
                                       for a, b in p['mech']]}}
        f.write(json.dumps(d) + '\n')
m = {'version': 1,
     'setup_cmd': 'python3 vp/setup.py',
     'checks': [{
         'property': p['id'],
         'quick_cmd': 'python3 vp/check.py %s --tier quick' % p['id'],
         'thorough_cmd': 'python3 vp/check.py %s --tier thorough' % p['id'],
         'technique': TECH,
         'level': p.get('level', 'proof'),
         'level_note': p['note']} for p in PROPS],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']}
                        for p in NA],
     'notes': 'No hooks: contracts are attached by redeclaration in '
              'units/*.c, which include the real sources of /repo; loop '
              'contracts are woven into the preprocessed text on every run.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')

# DESIGN.md: the template, one section per property, the repaired defects
# and the planted bugs.
import glob
import re
H = {}
TRUST = {}
for u in sorted(glob.glob(os.path.join(V, 'units', '*.c'))):
    tr, props = [], set()
    for line in open(u):
        if line.startswith('//@harness'):
            kv = dict((k, a or b) for k, a, b in re.findall(
                r'(\w+)=(?:"([^"]*)"|(\S+))', line))
            for pr in kv['prop'].split(','):
                props.add(pr)
                H.setdefault(pr, []).append(
                    (line.split()[1], kv, os.path.basename(u)))
        elif line.startswith('//@trusted'):
            tr.append(line[10:].strip())
    for pr in props:
        TRUST.setdefault(pr, []).extend(tr)
o = ['## Properties', '']
for p in PROPS:
    hs = H.get(p['id'], [])
    pf = [h for h in hs if h[1].get('kind', 'proof') == 'proof']
    bd = [h for h in hs if h[1].get('kind', 'proof') != 'proof']
    o += ['### %s %s' % (p['id'], p['title']), '', p['note'], '',
          'Why tests do not settle it: %s' % p['why'], '']
    units = sorted(set(h[2] for h in hs))
    o.append('Units: %s.' % ', '.join('`units/%s`' % u for u in units))
    if pf:
        o.append('Proved (%d harnesses): ' % len(pf) + ', '.join(sorted(set(
            f for h in pf for f in h[1].get('about', h[0]).split(',')))) + '.')
    if bd:
        o.append('Bounded stand-ins (%d): ' % len(bd) + '; '.join(
            '%s [%s]' % (h[1].get('about', h[0]).replace(',', ', '),
                         h[1].get('bound', 'unwound'))
            for h in bd) + '.')
    t = sorted(set(TRUST.get(p['id'], [])))
    if t:
        o.append('Trusted: ' + '; '.join(t) + '.')
    o.append('')
o += ['## Not applicable', '']
for p in NA:
    o += ['* **%s %s**: %s' % (p['id'], p['title'], p['reason'])]
o += ['', '## Genuine defects found and repaired', '',
      'Each was shown by a failing input against the real code, and is one '
      '`fix:` commit in /repo.', '']
kf = json.load(open(os.path.join(V, 'known_findings.json')))
for f in kf['fixed']:
    m_ = re.match(r'fixed: property=(\S+) (\S+) (.*)', f)
    o.append('* %s (%s): %s' % m_.groups())
if kf['findings']:
    o += ['', 'Recorded, not repaired:', '']
    for f in kf['findings']:
        o.append('* %s' % json.dumps(f))
o += ['', '## Planted bugs', '',
      '| seed | property | breaks | needs | caught by |', '|---|---|---|---|---|']
cf = os.path.join(V, 'tools', 'catches.json')
catches = json.load(open(cf)) if os.path.exists(cf) else {}
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*'))):
    s = json.load(open(os.path.join(d, 'meta.json')))
    i = os.path.basename(d)
    o.append('| %s | %s | %s | %s | %s |' % (
        i, s['property'], s['what_it_breaks'], s['needs'],
        catches.get(i, 'not run yet')))
o.append('')
t = open(os.path.join(V, 'tools', 'DESIGN.in.md')).read()
with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
    f.write(t.replace('@@PROPS@@', '\n'.join(o)))
