"""write properties.jsonl, MANIFEST.json and the property part of DESIGN.md from tools/props.py"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(__file__))
from props import NA, P

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def line(p):
    return dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']),
                why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))


def main():
    assert all(len(p['title']) <= 80 for p in P), [p['id'] for p in P if len(p['title']) > 80]
    ps = sorted(P, key=lambda p: p['id'])
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in ps + sorted((n for n in NA if 'title' in n), key=lambda p: p['id']):
            f.write(json.dumps(line(p), ensure_ascii=False) + '\n')
    man = dict(version=1, setup_cmd=PY + ' -m compileall -q sa',
               checks=[dict(property=p['id'], quick_cmd='%s -m sa.run %s' % (PY, p['id']),
                            thorough_cmd='%s -m sa.run %s --tier thorough' % (PY, p['id']), technique=p['technique'], level='other',
                            level_note=p['note']) for p in ps],
               not_applicable=[dict(property=n['id'], reason=n['reason']) for n in NA],
               notes='All checks read the sources under /repo on every run and execute none of them; see DESIGN.md. '
                     'Open and repaired defects: known_findings.txt.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write('\n')
    d = open(os.path.join(ROOT, 'tools', 'design_head.md')).read()
    out = [d.rstrip(), '', '## Properties and how each is decided', '']
    for p in ps:
        out += ['### %s %s' % (p['id'], p['title']), '', p['statement'], '', '*Decided by:* ' + p['design'], '', '*Technique:* ' + p['technique'] + '. *Limits:* ' + p['note'], '']
    if NA:
        out += ['## Not applicable', '']
        out += ['- **%s** %s: %s' % (n['id'], n.get('title', ''), n['reason']) for n in NA]
    tail = os.path.join(ROOT, 'tools', 'design_tail.md')
    if os.path.exists(tail):
        out += ['', open(tail).read().rstrip()]
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out) + '\n')


main()
