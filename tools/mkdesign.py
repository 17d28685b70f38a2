#!/usr/bin/env python3
"""Writes the table of the planted bugs into DESIGN.md. Argument: file with lines "id property rc=N ..." of the last run (for those listed)."""
import glob, json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rc = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r'(\S+) (C\d\d) rc=(\d)', l)
        if m:
            rc[m[1]] = {'0': 'missed', '1': 'caught', '2': 'broke'}[m[3]]
path = os.path.join(here, 'DESIGN.md')
s = open(path).read()
old = dict(re.findall(r'^\| (\S+) \| C\d\d \|.*\| (\w+) \|$', s, re.M))
rows = []
for d in sorted(glob.glob(os.path.join(here, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    i = os.path.basename(d)
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '\\|').replace('\n', ' '), rc.get(i) or old.get(i, '?')))
t = '| id | property | what it breaks | own check |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
open(path, 'w').write(re.sub(r'<!-- seeds -->.*<!-- end -->', lambda _: '<!-- seeds -->\n' + t + '<!-- end -->', s, flags=re.S))
