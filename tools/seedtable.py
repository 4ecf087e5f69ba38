#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import json, glob, re
rows = ['| planted bug | what it breaks | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (f.split('/')[-2], m['what_it_breaks'], m['needs'], m['property']))
p = '/verif/DESIGN.md'
t = open(p).read()
t = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', t, flags=re.S)
open(p, 'w').write(t)
