#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, glob
D = '/verif/DESIGN.md'
s = open(D).read()
head = '## Planted bugs'
s = s[:s.index(head)]
rows = []
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'],
        m['needs'].replace('|', '/').replace('\n', ' '), m['what_it_breaks'].replace('|', '/').replace('\n', ' ')))
s += head + '''

Each is a change that builds, passes the 13 tests, and needs something specific. All are caught by the quick check of their
property (`tools/trybugs.sh`), most in a few seconds (b05-quote-eof: about 140 s, the hang watch has to expire).
Table written by `tools/bugtable.py`.

| Bug | Caught by | Needs | Breaks |
|---|---|---|---|
''' + '\n'.join(rows) + '\n'
open(D, 'w').write(s)
