#!/usr/bin/env python3
# prints the counters of an evidence file: ev.py C27 ...
import json, sys
for i in sys.argv[1:]:
    d = json.load(open(f'/verif/evidence/{i}.json')); c = d['coverage']
    print(i, d['tier'], 'seed', d['seed'], 'wall', d['wall_s'], 'viol', d['violations'])
    for k in ('trials','evaluations','distinct_nontrivial','time_cap_reached_by_workers'): print('  ', k, c.get(k))
    for k in ('trials_per_generator','observed','inconclusive'):
        for a, b in (c.get(k) or {}).items(): print('  ', k[:5], a, b)
    n = c.get('observed_by_name') or {}
    print('   names', len(n), str(n)[:400])
