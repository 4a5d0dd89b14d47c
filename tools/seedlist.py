#!/usr/bin/env python3
"""Rewrites the list of seeded changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('* `%s` (caught by %s): needs %s; then %s.' % (f.split('/')[-2], m['property'], m['needs'], m['what_it_breaks']))
p = V + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- seeds -->\n).*?(<!-- end -->)', lambda m: m.group(1) + '\n'.join(rows) + '\n' + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
