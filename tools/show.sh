#!/bin/sh
# tools/show.sh WORKLOAD SEED THREADS: one run with its log
${MPSIM_BUILD:-/verif/build}/bin/$1 --seed $2 --threads $3 --count 1 --cpu 60 --log --out /tmp/show.$$ >/dev/null 2>&1
python3 - /tmp/show.$$ <<'P'
import json,sys
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except ValueError: continue
    if 'seed' in d: print(d['seed'],d.get('state'),d.get('key'),str(d.get('detail'))[:1500]); print('   ', d['log'][:6000].replace('\n','\n    ')); print({k:d.get(k) for k in('steps','acc','wall','switches','hash')})
P
rm -f /tmp/show.$$
