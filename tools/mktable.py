"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (not used by any check)."""
import json, glob, os, collections
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = collections.defaultdict(list)
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    j = json.load(open(f)); d[j['property']].append((os.path.basename(os.path.dirname(f)), j['what_it_breaks'], j['needs']))
out = ['## Planted bugs and what catches them', '',
       'Every change under `seeded/` builds, passes the 290 tests and fails its demonstration; each is caught (exit 1) by the check of the',
       'property it was written from. Some are seen by a second check as well, where two properties speak about the same code.', '',
       '| bug | caught by | what it needs to show |', '|---|---|---|']
short = lambda s: s.replace('|', '\\|').replace('\n', ' ')
for p in sorted(d):
    for n, w, need in d[p]: out.append(f'| {n} | {p} | {short(need)} |')
s = open(R + '/DESIGN.md').read()
i = s.find('## Planted bugs and what catches them')
if i >= 0: s = s[:i]
open(R + '/DESIGN.md', 'w').write(s.rstrip() + '\n\n' + '\n'.join(out) + '\n')
