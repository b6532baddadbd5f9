#!/usr/bin/env python3
"""Development helper: build one workload, run seeds on 8 workers, summarise.  cal.py NAME FIRST COUNT [extra args]"""
import sys, os, json, subprocess, collections, re
sys.path.insert(0, os.path.dirname(__file__)); import build
name, first, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); extra = sys.argv[4:]
lim = int(os.environ.get('LIM', '8')); T = [2, 3, 4, 1, 2, 5, 3, 8]
if not build.build([name]): sys.exit(1)
ps = [subprocess.Popen([build.BUILD + '/bin/' + name, '--seed', str(first), '--offset', str(w), '--stride', '8', '--count', str(count // 8), '--threads', os.environ.get('THREADS', str(T[w])), '--time', os.environ.get('TIME', '120'), '--cpu', '20', '--out', f'/tmp/cal.{name}.{w}'] + extra, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for w in range(8)]
n = 0; keys = collections.Counter(); ex = collections.defaultdict(list); probes = collections.Counter(); faults = collections.Counter(); tot = collections.Counter(); ml = 0
for w, p in enumerate(ps):
    p.wait()
    for l in open(f'/tmp/cal.{name}.{w}'):
        try: d = json.loads(l)
        except ValueError: continue
        if 'seed' not in d: continue
        n += 1
        for k in ('steps', 'acc', 'regions', 'ops', 'checks', 'allocs', 'wall', 'switches'): tot[k] += d.get(k, 0)
        ml = max(ml, d.get('wall', 0))
        probes.update(d.get('probes', {})); faults.update(d.get('faults', {}))
        if d['state'] != 1: keys[d['key']] += 1; ex[d['key']].append((len(d.get('log', '')), d['seed'], d['threads'], d['kind'], d['detail'][:int(os.environ.get('W', '260'))]))
print('runs', n, dict(tot), 'maxwall', ml); print('probes', dict(probes)); print('faults', dict(faults))
for k, c in keys.most_common(12):
    print('==', k, c)
    for e in sorted(ex[k])[:lim]: print('   ', *e[1:])
