#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from engine/meta.py."""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'engine'))
import meta
import jsonschema

props = []
for pid in sorted(meta.P):
    m = meta.P[pid]
    a = {'files': m['files'], 'mechanism': [{'name': n, 'where': w} for n, w in m['mech']]}
    if m.get('state'):
        a['state'] = [{'name': n, 'meaning': x, 'where': w} for n, x, w in m['state']]
    if m.get('observe'):
        a['observe_at'] = m['observe']
    a['hook_needed'] = None
    p = {'id': pid, 'title': m['title'], 'statement': m['statement'], 'quantifier': {'over': m['over'], 'text': m['quant']},
         'why_tests_cant': m['why'], 'anchors': a}
    assert len(m['title']) <= 80, pid
    for f in m['files']:
        assert os.path.exists('/repo/' + f), (pid, f)
    jsonschema.validate(p, json.load(open('/root/.vp/PROPERTIES.schema.json')))
    props.append(p)
with open(H + '/properties.jsonl', 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 engine/facts.py', 'checks': [], 'not_applicable': []}
for pid in sorted(meta.P):
    m = meta.P[pid]
    if m.get('na'):
        man['not_applicable'].append({'property': pid, 'reason': m['na']})
        continue
    man['checks'].append({'property': pid, 'quick_cmd': 'python3 check.py %s --tier quick' % pid, 'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
                          'technique': m['technique'], 'level': 'other', 'level_note': (meta.BASE_NOTE if not m.get('py') else '') + m['note']})
man['notes'] = 'All checks are static: they parse /repo and never run its code. See DESIGN.md.'
jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
with open(H + '/MANIFEST.json', 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(man['checks']), 'checks', len(man['not_applicable']), 'n/a')

kf = json.load(open(H + '/known_findings.json'))
seeds = {}
for d in sorted(os.listdir(H + '/seeded')):
    mj = H + '/seeded/' + d + '/meta.json'
    if os.path.exists(mj):
        x = json.load(open(mj))
        seeds.setdefault(x['property'], []).append((d, x))
missed = set(l.strip() for l in open(H + '/tools/missed.txt')) if os.path.exists(H + '/tools/missed.txt') else set()
out = [open(H + '/tools/design_head.md').read()]
out.append('## Properties and how each is decided\n')
for pid in sorted(meta.P):
    m = meta.P[pid]
    out.append('### %s %s\n' % (pid, m['title']))
    out.append(m['statement'] + '\n')
    if m.get('na'):
        out.append('**Not applicable**: ' + m['na'] + '\n')
        continue
    out.append('*Analysed*: %s\n' % m['how'])
    out.append('*Rule*: %s.\n' % m['rule'].rstrip('.'))
    out.append('*Why tests cannot settle it*: %s\n' % m['why'])
    out.append('*Bounds and limits*: %s\n' % m['note'])
    for e in kf:
        if e['property'] == pid:
            out.append('*%s*: %s\n' % ('Repaired' if e['status'] == 'fixed' else 'Known finding', e['line'] if e['status'] == 'fixed' else e['what']))
    for d, x in seeds.get(pid, []):
        out.append('*Planted* `%s` (%s): %s Needs: %s\n' % (d, 'missed' if d in missed else 'caught', x['what_it_breaks'], x['needs']))
t = H + '/tools/design_tail.md'
if os.path.exists(t):
    out.append(open(t).read())
open(H + '/DESIGN.md', 'w').write('\n'.join(out))
