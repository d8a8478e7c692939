"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py for
every property that has a check module."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import props  # noqa

NA = getattr(props, 'NOT_APPLICABLE', [])
lines = []
checks = []
for p in props.PROPS:
    has = os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py'))
    if not has:
        print('no check yet:', p['id'])
        continue
    assert len(p['title']) <= 80, p['id']
    lines.append({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['text']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'],
                    'mechanism': [{'name': a, 'where': b}
                                  for a, b in p['mech']],
                    'observe_at': p['observe'], 'hook_needed': None}})
    checks.append({
        'property': p['id'],
        'quick_cmd': f'bash run.sh {p["id"]} quick',
        'thorough_cmd': f'bash run.sh {p["id"]} thorough',
        'technique': props.TECH.get(p['id'], props.DEFAULT_TECH),
        'level': p.get('level', 'exploration'),
        'level_note': props.NOTES.get(p['id'], props.DEFAULT_NOTE),
        'evidence_file': f'evidence/{p["id"]}.json'})
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for x in lines:
        f.write(json.dumps(x) + '\n')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
               'not_applicable': NA, 'notes': props.MANIFEST_NOTES}, f,
              indent=1)
    f.write('\n')
try:
    import jsonschema
    for x in lines:
        jsonschema.validate(x, json.load(open(
            '/root/.vp/PROPERTIES.schema.json')))
    jsonschema.validate(json.load(open(os.path.join(HERE, 'MANIFEST.json'))),
                        json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('valid', len(lines))
except ImportError:
    print('jsonschema unavailable, not validated', len(lines))
