#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the property modules in props/ (and props/not_applicable.json)"""
import importlib
import sys
sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.abspath(__file__)))
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.chdir(HERE)
mods = sorted(f[:-3] for f in os.listdir('props') if re.match(r'c\d+\.py$', f))
lines, checks, na = [], [], []
if os.path.exists('props/not_applicable.json'):
    for p in json.load(open('props/not_applicable.json')):
        lines.append(p['line'])
        na.append(dict(property=p['line']['id'], reason=p['reason']))
for m in mods:
    mod = importlib.import_module('props.' + m)
    p = mod.PROPERTY
    assert len(p['title']) <= 80, (mod.ID, len(p['title']))
    lines.append(dict(id=mod.ID, title=p['title'], statement=p['statement'],
                      quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                      anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mechanism']])))
    checks.append(dict(property=mod.ID, quick_cmd='./run %s' % mod.ID, thorough_cmd='./run %s --tier thorough' % mod.ID,
                       technique=mod.TECHNIQUE, level=mod.LEVEL, level_note=mod.NOTE))
lines.sort(key=lambda l: l['id'])
with open('properties.jsonl', 'w') as f:
    for l in lines:
        f.write(json.dumps(l) + '\n')
with open('MANIFEST.json', 'w') as f:
    json.dump(dict(version=1, setup_cmd='./run --setup', checks=checks, not_applicable=na), f, indent=1)
    f.write('\n')
print(len(lines), 'properties', len(checks), 'checks')
try:
    import jsonschema
    jsonschema.validate(json.load(open('MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
    for l in lines:
        jsonschema.validate(l, json.load(open('/root/.vp/PROPERTIES.schema.json')))
except ImportError:
    pass
import design
design.main()
