#!/usr/bin/env python3
"""Development sweep: tools/sweep.py SECONDS [PROFILE...]; tabulates violation signatures with example seeds."""
import sys, os, subprocess, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import build
secs = float(sys.argv[1]); profs = sys.argv[2:] or ['general']
if profs == ['all']: profs = ['general'] + ['C%02d' % i for i in range(1, 20)]
start = int(os.environ.get('START', '1'))
b = build.build()
tab = collections.defaultdict(list); runs = 0; msg = {}
jobs = [(p, v, k) for p in profs for v in b for k in range(2)]
def launch(j):
    p, v, k = j
    return subprocess.Popen([b[v], 'batch', p, str(start + k), '2', str(secs)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, encoding='ascii', errors='backslashreplace')
import concurrent.futures as cf, json
def go(j):
    return j, launch(j).communicate()[0]
with cf.ThreadPoolExecutor(8) as ex:
    for j, out in ex.map(go, jobs):
        for l in out.splitlines():
            if l.startswith('VIOL '):
                f = l.split(None, 5)
                tab[(f[3], f[4])].append((j[1], f[2], f[1])); msg.setdefault((f[3], f[4]), f[5] if len(f) > 5 else '')
            elif l.startswith('STATS '):
                runs += json.loads(l[6:])['runs']
print('runs', runs)
for k, v in sorted(tab.items(), key=lambda x: -len(x[1])):
    print('%6d %s %-24s %s' % (len(v), k[0], k[1], msg[k][:110])); print('        ', ' '.join('%s:%s:%s' % x for x in v[:4]))
