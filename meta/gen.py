#!/usr/bin/env python3
"""Write properties.jsonl, MANIFEST.json and DESIGN.md from meta/."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS  # noqa: E402

with open(f'{root}/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w}
                                      for n, w in p['mech']],
                        'observe_at': p['observe'],
                        'hook_needed': None}}, ensure_ascii=False) + '\n')

json.dump({
    'version': 1,
    'setup_cmd': './run.sh --setup',
    'checks': [{
        'property': p['id'],
        'quick_cmd': f'./run.sh {p["id"]} quick',
        'thorough_cmd': f'./run.sh {p["id"]} thorough',
        'evidence_file': f'evidence/{p["id"]}.json',
        'technique': p['technique'],
        'level': 'exploration',
        'level_note': ('Generated-input search against an explicit oracle; '
                       'no exhaustive guarantee. ' + p['note']).strip()}
        for p in PROPS],
    'not_applicable': [],
    'notes': 'No hooks were added to /repo. Checks import /repo/lambeq '
             'directly from the working tree.'},
    open(f'{root}/MANIFEST.json', 'w'), indent=1)
open(f'{root}/MANIFEST.json', 'a').write('\n')

head = open(f'{here}/design_head.md').read()
tail = open(f'{here}/design_tail.md').read()
body = ['## Properties and how each is decided', '']
for p in PROPS:
    body += [f'### {p["id"]} — {p["title"]}', '', p['statement'], '',
             f'*Method:* {p["technique"]}. {p["how"]}', '',
             f'*Inputs:* {p["quant"]}. *Why tests cannot:* {p["why"]}', '']
    if p['note']:
        body += [f'*Limits:* {p["note"]}', '']
rows = ['## Planted bugs', '',
        '| bug | property | needs | caught by |', '|---|---|---|---|']
res = {}
if os.path.exists(f'{here}/seeded_results.json'):
    res = json.load(open(f'{here}/seeded_results.json'))
for b in sorted(os.listdir(f'{root}/seeded')):
    m = f'{root}/seeded/{b}/meta.json'
    if os.path.exists(m):
        m = json.load(open(m))
        rows.append(f'| {b} | {m["property"]} | {m["needs"]} | '
                    f'{res.get(b, "?")} |')
open(f'{root}/DESIGN.md', 'w').write(
    head + '\n' + '\n'.join(body) + '\n' + tail + '\n' + '\n'.join(rows)
    + '\n')
