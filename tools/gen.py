#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/spec/*.py (P(...) records)."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
recs = []
def P(id, title, statement, over, text, why, files, mech, technique, note, observe=(), state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    recs.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                     mech=mech, technique=technique, note=note, observe=list(observe), state=list(state), hook=hook))
for f in sorted(glob.glob(os.path.join(root, 'tools/spec/*.py'))):
    exec(open(f).read())
order = {c: i for i, c in enumerate('CRFSOM')}
recs.sort(key=lambda r: (order[r['id'][0]], r['id']))
with open(os.path.join(root, 'properties.jsonl'), 'w') as o:
    for r in recs:
        o.write(json.dumps({
            'id': r['id'], 'title': r['title'], 'statement': r['statement'],
            'quantifier': {'over': r['over'], 'text': r['text']},
            'why_tests_cant': r['why'],
            'anchors': {'files': r['files'],
                        'state': r['state'],
                        'mechanism': [dict(name=a, where=b) for a, b in r['mech']],
                        'observe_at': r['observe'], 'hook_needed': r['hook']}}) + '\n')
json.dump({
    'version': 1,
    'setup_cmd': 'bash run.sh --build',
    'checks': [{
        'property': r['id'],
        'quick_cmd': f"bash run.sh {r['id']} quick",
        'thorough_cmd': f"bash run.sh {r['id']} thorough",
        'technique': r['technique'], 'level': 'model_checking', 'level_note': r['note']} for r in recs],
    'not_applicable': [],
    'notes': 'One explorer binary (harness/, release build with a path dependency on /repo) decides every property; run.sh rebuilds it from the working tree before each check. Known findings: known_findings.txt.',
}, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(recs), 'properties')
