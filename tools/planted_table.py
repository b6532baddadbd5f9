#!/usr/bin/env python3
"""Development helper: planted_table.py LOG... merges lines printed by planted.py into the table at the end of DESIGN.md (between the markers)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); f = V + '/DESIGN.md'; s = open(f).read(); A, B = '<!-- planted -->\n', '<!-- /planted -->\n'
if A not in s: s = s.rstrip('\n') + '\n\n' + A + B
rows = {}
for l in s[s.index(A):s.index(B)].splitlines():
    c = [x.strip() for x in l.strip('|').split('|')]
    if len(c) == 4 and c[0] not in ('change', '---'): rows[c[0]] = c
for log in sys.argv[1:]:
    for l in open(log):
        m = re.match(r'(\S+)\s+(P\d\d) exit \d (CAUGHT|missed) \d+s ?(.*)', l)
        if m and os.path.isdir(V + '/seeded/' + m[1]): rows[m[1]] = [m[1], m[2], 'caught: ' + m[4].strip() if m[3] == 'CAUGHT' else 'missed', json.load(open(V + '/seeded/%s/meta.json' % m[1]))['needs']]
for k in os.listdir(V + '/seeded'):
    if k not in rows: m = json.load(open(V + '/seeded/%s/meta.json' % k)); rows[k] = [k, m['property'], 'not run', m['needs']]
t = '| change | property | check | needs |\n|---|---|---|---|\n' + ''.join('| %s |\n' % ' | '.join(x.replace('|', '/') for x in rows[k]) for k in sorted(rows, key=lambda k: (rows[k][1], k)) if os.path.isdir(V + '/seeded/' + k))
open(f, 'w').write(s[:s.index(A)] + A + t + s[s.index(B):])
