#!/usr/bin/env python3
"""Development helper: planted.py [ID...] applies each change of /verif/seeded (or a directory given by path) to a scratch copy of /repo and runs its property's check there."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); C = '/tmp/planted'; env = dict(os.environ, MPSIM_REPO=C + '/repo', MPSIM_BUILD=C + '/build', VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
os.makedirs(C, exist_ok=True)
subprocess.run(['rsync', '-a', '--delete', '--exclude', '_build', '/repo/', C + '/repo/'], check=True)
for i in sys.argv[1:] or sorted(os.listdir(V + '/seeded')):
    d = i if os.path.isdir(i) else V + '/seeded/' + i; m = json.load(open(d + '/meta.json')); p = m['property']
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=C + '/repo', check=True)
    if subprocess.run(['git', 'apply', os.path.abspath(d) + '/patch.diff'], cwd=C + '/repo').returncode: print(i, 'DOES NOT APPLY', flush=True); continue
    for prop in (os.environ.get('PROPS') or p).split(','):
        t = time.time(); r = subprocess.run(['python3', V + '/check.py', prop, '--tier', 'quick'], env=env, capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]; k = ''
        k = ', '.join(sorted({l.split('[')[1].split(']')[0] for l in r.stdout.splitlines() if '] seed ' in l and '[' in l}))
        print('%-26s %s exit %d %s %.0fs %s' % (os.path.basename(d.rstrip('/')), prop, r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'missed', time.time() - t, k[:120]), flush=True)
        if not v: print('   ', r.stdout[-300:].replace('\n', ' | '), r.stderr[-200:], flush=True)
subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=C + '/repo')
