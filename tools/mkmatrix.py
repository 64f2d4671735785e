"""Rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json
and a JSON file {id: 'CAUGHT'|'MISSED ...'} given as argument (development
tool; no check reads seeded/)."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = json.load(open(sys.argv[1]))
rows = []
for i in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', i, 'meta.json')))
    rows.append((m['property'], i, m['needs'], got.get(i, 'not run')))
text = ['<!-- planted -->', '', '| check | planted change | needs | result |',
        '|---|---|---|---|']
for p, i, n, r in sorted(rows):
    text.append('| {} | {} | {} | {} |'.format(
        p, i, n.replace('|', '/').replace('\n', ' '),
        'caught' if r.startswith('CAUGHT') else r.lower()))
text += ['', '<!-- /planted -->']
f = os.path.join(HERE, 'DESIGN.md')
s = open(f).read()
s = re.sub('<!-- planted -->.*<!-- /planted -->', lambda _: '\n'.join(text), s,
           flags=re.S)
open(f, 'w').write(s)
