"""Writes the case counts of the sub-checks into the table of DESIGN.md."""
import importlib
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, '/repo']
p = os.path.join(ROOT, 'DESIGN.md')
text = open(p).read()
for i in range(1, 22):
    m = importlib.import_module('checks.c{:02d}'.format(i))
    q, t = (sum(getattr(s, a) for s in m.SUBS) for a in ('quick', 'thorough'))
    x = {17: ' x 1147'}.get(i, '')
    names = ', '.join('`{}`'.format(s.name) for s in m.SUBS)
    text = re.sub(
        r'(?m)^(\| C{:02d} \|[^|]*\|[^|]*\|)[^|]*\|$'.format(i),
        lambda k: '{} {}{} / {}{} ({}) |'.format(k[1], q, x, t, x, names),
        text, count=1)
open(p, 'w').write(text)
