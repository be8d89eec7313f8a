#!/usr/bin/env python3
"""Rewrites the table of seeded changes in DESIGN.md."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!-- seeded -->', '| change | caught by | what it breaks | needs |', '|---|---|---|---|']
for i in sorted(os.listdir(here + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (here, i)))
    c = lambda s: str(s).replace('|', '/').replace('\n', ' ')
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], c(m['what_it_breaks']), c(m['needs'])))
rows.append('<!-- /seeded -->')
p = here + '/DESIGN.md'
t = open(p).read()
t = t.replace('@@TABLE@@', '<!-- seeded -->\n<!-- /seeded -->')
t = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: '\n'.join(rows), t, flags=re.S)
open(p, 'w').write(t)
