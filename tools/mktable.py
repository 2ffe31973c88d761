#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
head = s[:s.index('<!-- table -->')]
rows = ['<!-- table -->', '| planted | property = check that catches it | breaks |', '|---|---|---|']
for f in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks'].replace('|', '\\|')))
open(p, 'w').write(head + '\n'.join(rows) + '\n')
print(len(rows) - 3)
