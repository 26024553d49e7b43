#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NA = {'C20': 'monitor-run and monitor-link are single-threaded sh scripts that set environment variables or edit a link line and exec; there is no schedule, clock, I/O fault, crash point or second party for a simulator to decide, only inputs, so this family of technique does not apply.'}
NOTE = ('Seeded search, not exhaustive. The real library sources run unmodified (instrumented by the compiler so that every memory access is a scheduling point) above a simulated kernel, libc, application and client; '
        'every choice comes from the seed and each failure replays exactly. Trusts the simulated kernel/libc semantics and sequentially consistent memory.')
m = dict(version=1, setup_cmd='python3 build.py',
         hooks=dict(guard='MONITOR_SIM_TN_ARRAY_SIZE', enable='the *-cs builds of build.py compile src/pthread.c with -DMONITOR_SIM_TN_ARRAY_SIZE=5 so that the static thread-node array overflows into allocated ones within a few threads', source_commits=['93b85d6']),
         checks=[dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p['id'], evidence_file='evidence/%s.json' % p['id'],
                      technique='deterministic simulation with fault injection: seeded search over schedules, signals, cancellations, forks and failing calls, history checked against a reference model', level='exploration', level_note=NOTE)
                 for p in props if p['id'] not in NA],
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes='Replay a saved failure with: python3 check.py --replay FILE [ev]')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
