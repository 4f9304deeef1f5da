"""Rewrites section 6 of DESIGN.md (planted bugs) from seeded/*/meta.json and tools/caught.txt (lines `bug caught by: C..`)."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
p = os.path.join(ROOT, 'tools', 'caught.txt')
if os.path.exists(p):
    for line in open(p):
        m = re.match(r'(\S+) caught by:((?: C\d\d)*)', line)
        if m:
            caught.setdefault(m.group(1), set()).update(m.group(2).split())
rows = []
for b in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    d = json.load(open(os.path.join(ROOT, 'seeded', b, 'meta.json')))
    rows.append((d['property'], b, d['needs'], d['what_it_breaks'], ' '.join(sorted(caught.get(b, ()))) or 'not caught'))
rows.sort()
text = open(os.path.join(ROOT, 'DESIGN.md')).read()
text = text.split('## 6. Planted bugs')[0]
text += '''## 6. Planted bugs and the checks that report them

Each was written from the text of its property, passes the repository's tests, and has a demonstration. The last column lists the checks (quick tier) that
reported it among those that were run against it (always that of its own property, others only in part).

| property | planted bug | needs | breaks | reported by |
|---|---|---|---|---|
'''
for r in rows:
    text += '| %s | %s | %s | %s | %s |\n' % r
text += '\n%d planted bugs, %d reported by the check of their own property.\n' % (len(rows), sum(r[0] in r[4].split() for r in rows))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(text)
