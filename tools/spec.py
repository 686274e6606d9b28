#!/usr/bin/env python3
"""The one source of properties.jsonl and MANIFEST.json: run after editing."""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
TECH = 'deterministic simulation with fault injection: '
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note,
         state=()):
    P.append(dict(
        id=id, title=title, statement=' '.join(statement.split()),
        quantifier={'over': over.split(), 'text': ' '.join(text.split())},
        why_tests_cant=' '.join(why.split()),
        anchors={'files': files.split(),
                 'state': [dict(name=n, meaning=m, where=w) for n, m, w in state],
                 'mechanism': [dict(name=n, where=w) for n, w in mechanism],
                 'observe_at': list(observe), 'hook_needed': None},
        technique=' '.join(technique.split()), note=' '.join(note.split())))


def na(id, title, statement, over, text, why, files, mechanism, observe, reason):
    prop(id, title, statement, over, text, why, files, mechanism, observe, '', '')
    NA.append(id)
    P[-1]['reason'] = ' '.join(reason.split())


exec(open(os.path.join(VERIF, 'tools', 'properties.py')).read())


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in P:
            d = {k: v for k, v in p.items() if k not in ('technique', 'note', 'reason')}
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
    checks, skip = [], []
    for p in P:
        if p['id'] in NA:
            skip.append({'property': p['id'], 'reason': p['reason']})
            continue
        checks.append({
            'property': p['id'],
            'quick_cmd': f'./check {p["id"]} quick',
            'thorough_cmd': f'./check {p["id"]} thorough',
            'evidence_file': f'evidence/{p["id"]}.json',
            'technique': TECH + p['technique'],
            'level': 'exploration',
            'level_note': p['note']})
    doc = {'version': 1,
           'setup_cmd': './setup',
           'hooks': {'guard': 'none',
                     'enable': 'No hook was added to /repo: every seam used (os, io.open, xattr, '
                               'ctypes.CDLL(None), time, subprocess.Popen, pxssh) is a module '
                               'attribute that the simulator replaces in its own process.',
                     'source_commits': []},
           'checks': checks,
           'not_applicable': skip,
           'notes': 'dst/ is the simulator, dst/props/ one scenario module per property; see DESIGN.md. '
                    'Replay a violation: /opt/venv/bin/python -m dst.runner replay FILE (in /verif).'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(doc, f, indent=1, ensure_ascii=False)
        f.write('\n')
    # titles of the scenario modules follow
    os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
    try:
        import jsonschema
    except ImportError:
        return
    for line in open(os.path.join(VERIF, 'properties.jsonl')):
        jsonschema.validate(json.loads(line), json.load(open('/root/.vp/PROPERTIES.schema.json')))
    jsonschema.validate(doc, json.load(open('/root/.vp/MANIFEST.schema.json')))


main()
