#!/usr/bin/env python3
"""Writes DESIGN.md: the fixed text of design_text.md with the table of the
checks and of the planted bugs filled in."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root + '/tools')
from table import CHECKS
text = open(root + '/tools/design_text.md').read()
props = {json.loads(l)['id']: json.loads(l) for l in open(root + '/properties.jsonl')}
rows = ['| id | property | harness | cases quick / thorough | technique |', '|---|---|---|---|---|']
for p in sorted(CHECKS):
    c = CHECKS[p]
    rows.append('| %s | %s | %s | %d / %d | %s |' % (p, props[p]['title'], c['target'].replace('_rel', ''), *c['cases'], c['technique']))
text = text.replace('@EXTRA@', open(root + '/tools/design_extra.md').read() if os.path.exists(root + '/tools/design_extra.md') else '')
text = text.replace('@CHECKS@', '\n'.join(rows))
rows = ['| change | breaks | needs | caught by |', '|---|---|---|---|']
caught = {}
f = root + '/tools/caught.json'
if os.path.exists(f):
    caught = json.load(open(f))
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(root + '/seeded/' + d + '/meta.json'))
    rows.append('| %s | %s: %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs'], caught.get(d, '?')))
text = text.replace('@SEEDED@', '\n'.join(rows))
open(root + '/DESIGN.md', 'w').write(text)
