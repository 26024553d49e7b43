#!/usr/bin/env python3
"""Decide one property of libmonitor by seeded deterministic simulation.

  check.py PROPERTY            tier and seed from VERIF_TIER (quick|thorough) and VERIF_SEED
  check.py --replay FILE [ev]  run one saved execution again (ev: print its history)

Exit 0: the property held in every simulated run.  Exit 1 with
'VIOLATION property=<id> replay=<path>': it did not.  Exit 2: the check itself failed.
"""
import json, os, re, signal, subprocess, sys, tempfile, threading, time, collections
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build

VARIANTS = ['static', 'dynamic', 'static-cs', 'dynamic-cs']
QUICK = dict(runs=int(os.environ.get('VERIF_RUNS', '25000')), secs=80.0)
THOROUGH = dict(runs=0, secs=float(os.environ.get('VERIF_SECS', '600')))
REAL = ['src/main.c', 'src/pthread.c', 'src/signal.c', 'src/fork.c', 'src/dlopen.c', 'src/mpi*.c', 'src/pmpi.c', 'src/common.c', 'src/utils.c',
        'src/atomic.h', 'src/spinlock.h', 'src/queue.h']
STUB = ['kernel and libc below the library: threads, cancellation, thread-specific data, signals and masks, fork/exec/wait, clocks and sleeps, stdio exit, dynamic linker, real MPI, mmap/malloc',
        'application (generated programs) and client (generated callbacks)', 'src/callback.c weak callbacks (replaced by the client, as in use)']
ASSUME = ['memory is sequentially consistent at the granularity of the accesses the compiler emits (no hardware reordering)',
          'the compiler-generated code between two memory accesses or calls is atomic',
          'the simulated kernel and C library follow POSIX and glibc where the properties depend on them',
          'client callbacks return and the application does not block its main thread for ever']


def sim(binp, *args, timeout=120):
    r = subprocess.run([binp] + list(args), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, encoding='ascii', errors='backslashreplace', timeout=timeout)
    if r.returncode:
        raise RuntimeError('simulator failed: %s -> %d' % (' '.join(args), r.returncode))
    return r.stdout


def parse(out):
    v, res = [], None
    for l in out.splitlines():
        if l.startswith('VIOL '):
            f = l.split(None, 5)
            v.append(dict(seed=int(f[1]), profile=f[2], prop=f[3], sig=f[4], msg=f[5] if len(f) > 5 else ''))
        elif l.startswith('RESULT '):
            res = l[7:]
    return v, res


def known():
    out = []
    p = HERE + '/KNOWN_FINDINGS.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) signature=(\S+) (.*)', l)
            if m:
                out.append(dict(prop=m.group(1), sig=m.group(2), what=m.group(3).strip()))
    return out


def determinism(bins, prop, seed, tmp):
    """One seed must be one execution: the same seed twice, and its recorded choices in a fresh process."""
    n = 0
    for v in VARIANTS:
        for k in range(2):
            s = str(seed * 1000003 + 17 + k)
            f = '%s/det-%s-%d' % (tmp, v, k)
            a = parse(sim(bins[v], 'run', prop, s, 'file', f)); b = parse(sim(bins[v], 'run', prop, s)); c = parse(sim(bins[v], 'replay', f))
            if not (a == b == c):
                raise RuntimeError('simulation is not deterministic: %s %s seed %s\n%s\n%s\n%s' % (v, prop, s, a, b, c))
            n += 3
    return n


def minimise(binp, path, prop, sig, tmp, budget):
    """Delta debugging over the workload, fault and schedule lines of a replay file."""
    end = time.time() + budget
    lines = open(path, errors='backslashreplace').read().splitlines()
    head = [l for l in lines if l.split(' ', 1)[0] in ('#', 'seed', 'profile', 'prog', 'rng')]
    tests = [0]
    cand = tmp + '/cand'

    def ok(ls):
        tests[0] += 1
        open(cand, 'w').write('\n'.join(ls) + '\n')
        try:
            v, _ = parse(sim(binp, 'replay', cand, timeout=20))
        except Exception:
            return False
        return any(x['prop'] == prop and x['sig'] == sig for x in v)

    if not ok(lines):
        return None, 0, 0
    n0 = len(lines)
    for cls in ('op', 'envsig', 'asig', 'early', 'choice', 'knob', 'op', 'choice'):
        idx = [i for i, l in enumerate(lines) if l.split(' ', 1)[0] == cls]
        n = 2
        while idx and time.time() < end:
            size = max(1, len(idx) // n); done = False; i = 0
            while i < len(idx) and time.time() < end:
                drop = set(idx[i:i + size]); new = [l for j, l in enumerate(lines) if j not in drop]
                if ok(new):
                    lines = new; idx = [j for j, l in enumerate(lines) if l.split(' ', 1)[0] == cls]; done = True
                else:
                    i += size
            if size == 1 and not done:
                break
            n = min(n * 2, max(1, len(idx)))
    return lines, n0, tests[0]


def search(bins, prop, seed, cap):
    """8 workers, two per build variant; every run is one fresh OS process."""
    base = seed * 100000000
    viols, stats, lock, errs = [], [], threading.Lock(), []

    def work(w):
        v = VARIANTS[w % 4]
        args = [bins[v], 'batch', prop, str(base + w // 4 + 1), '2', str(cap['secs'])] + ([str(cap['runs'])] if cap['runs'] else [])
        p = subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, encoding='ascii', errors='backslashreplace')
        for l in p.stdout:
            if l.startswith('VIOL '):
                x, _ = parse(l)
                x[0]['variant'] = v
                with lock:
                    viols.append(x[0])
            elif l.startswith('STATS '):
                with lock:
                    stats.append(json.loads(l[6:]))
        if p.wait():
            errs.append('worker %s ended with %d' % (v, p.returncode))
    th = [threading.Thread(target=work, args=(w,)) for w in range(8)]
    for t in th: t.start()
    for t in th: t.join()
    if errs:
        raise RuntimeError('; '.join(errs))
    return viols, stats


def merge(stats):
    tot = collections.Counter(); sub = {k: collections.Counter() for k in ('faults', 'ops', 'events_by_type')}; pairs = set()
    for s in stats:
        for k, x in s.items():
            if isinstance(x, (int, float)):
                tot[k] += x
            elif k in sub:
                sub[k].update(x)
            elif k == 'pairs':
                pairs.update(x)
    return tot, sub, pairs


def main():
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        t = open(sys.argv[2], errors='backslashreplace').read(); v = re.search(r'^# variant (\S+)', t, re.M)
        b = build.build([v.group(1) if v else 'static'])
        out = sim(list(b.values())[0], 'replay', sys.argv[2], *sys.argv[3:]); print(out, end='')
        return 1 if parse(out)[0] else 0
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick'); tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cap = THOROUGH if tier == 'thorough' else QUICK
    t0 = time.time()
    os.makedirs(HERE + '/evidence/replay', exist_ok=True)
    with tempfile.TemporaryDirectory(prefix='monsim-') as tmp:
        bins = build.build(VARIANTS)
        tb = time.time() - t0
        ts = time.time()
        viols, stats = search(bins, prop, seed, cap)
        ts = time.time() - ts
        tot, sub, pairs = merge(stats)
        # what this check reports: violations of its own property; runs that crash, hang or deadlock count for the profile that was exploring
        mine = [x for x in viols if x['prop'] == prop or x['prop'] == '*']
        for x in mine:
            x['n'] = 1
        kn = {(k['prop'], k['sig']): k for k in known()}
        groups = {}
        for x in sorted(mine, key=lambda x: (x['seed'], x['variant'])):
            groups.setdefault((x['prop'], x['sig']), []).append(x)
        seen_known = [k for k in groups if (prop, k[1]) in kn]
        new = [k for k in groups if (prop, k[1]) not in kn]
        for k in kn.values():
            if k['prop'] == prop:
                print('KNOWN-FINDING: property=%s %s (signature %s, met %d times in this run)' % (prop, k['what'], k['sig'], len(groups.get((prop, k['sig']), []))))
        nd = 0 if new else determinism(bins, prop, seed, tmp)
        reps = []
        for j, k in enumerate(sorted(new, key=lambda k: -len(groups[k]))[:4]):
            x = groups[k][0]; raw = tmp + '/raw%d' % j
            sim(bins[x['variant']], 'run', x['profile'], str(x['seed']), 'file', raw)
            body = open(raw, errors='backslashreplace').read(); open(raw, 'w').write('# variant %s\n' % x['variant'] + body)
            m, n0, nt = minimise(bins[x['variant']], raw, k[0], k[1], tmp, 40 if j == 0 else 8)
            lines = m if m else open(raw, errors='backslashreplace').read().splitlines()
            path = '%s/evidence/replay/%s-%s-%s-%d.replay' % (HERE, prop, k[1], x['variant'], x['seed'])
            open(path, 'w').write('\n'.join(['# property %s signature %s' % (prop, k[1]), '# %s' % x['msg'], '# found by profile %s seed %d; minimised from %d to %d lines with %d runs' % (x['profile'], x['seed'], n0, len(lines), nt)] + lines) + '\n')
            r1 = parse(sim(bins[x['variant']], 'replay', path)); r2 = parse(sim(bins[x['variant']], 'replay', path))
            reps.append(dict(path=path, sig=k[1], what=x['msg'], seed=x['seed'], profile=x['profile'], variant=x['variant'], seen=len(groups[k]), reproduces=r1 == r2 and any(y['sig'] == k[1] for y in r1[0]), lines=[n0, len(lines)]))
            print('%s: %s' % (k[1], x['msg']))
            print('  seed %d profile %s build %s, seen in %d runs, replay %s' % (x['seed'], x['profile'], x['variant'], len(groups[k]), 'reproduces' if reps[-1]['reproduces'] else 'NOT reproduced'))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        sample = []
        for v, s in (('static', seed * 100000000 + 1), ('dynamic', seed * 100000000 + 2)):
            out = sim(bins[v], 'run', prop, str(s), 'cfg'); sample.append(dict(variant=v, seed=s, profile=prop, execution=out.splitlines()[:60]))
    runs = int(tot['runs'])
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(time.time() - t0, 2), violations=len(new), assumptions=ASSUME, coverage=dict(
        evaluations=runs, distinct_nontrivial=int(tot['distinct_relevant']),
        rule='Each evaluation is one simulated execution of a generated multi-threaded, multi-process program and client linked with the real library, all choices drawn from its seed. '
             'Non-trivial: the run exercises what the property speaks about (see relevant() in sim/main.cpp); distinct: by the hash of its whole event history, counted per worker (workers use disjoint seeds or different builds).',
        samples=sample, builds=VARIANTS, runs_per_hour=int(runs / max(ts, .01) * 3600), seeds=runs, seeds_per_hour=int(runs / max(ts, .01) * 3600), simulated_time_s=round(tot['vt_us'] / 1e6, 1),
        scheduling_points=int(tot['points']), context_switches=int(tot['switches']), history_events=int(tot['events']), processes_simulated=int(tot['processes']),
        distinct_schedules=int(tot['distinct_schedules']), distinct_histories=int(tot['distinct_histories']), event_pairs_reached=len(pairs),
        interleaving_measure='distinct_schedules: hash over every context switch (from, to, position); distinct_histories: hash of the event history; event_pairs_reached: distinct adjacent (event, event, same thread?, same process?) pairs over all workers',
        faults_injected=dict(sub['faults']), operations=dict(sub['ops']), events=dict(sub['events_by_type']), runs_cut_by_log_size=int(tot['logfull']),
        determinism_checks=nd, real_code=REAL, stubs=STUB, known_findings_met=[k[1] for k in seen_known], replays=reps,
        violations_of_other_properties_seen=dict(collections.Counter('%s %s' % (x['prop'], x['sig']) for x in viols if x['prop'] not in (prop, '*'))), build_s=round(tb, 1), search_s=round(ts, 1)))
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, prop), 'w'), indent=1)
    print('%s %s: %d runs in %.1f s, %d distinct relevant histories, %.0f simulated seconds, %d violations' % (prop, tier, runs, ts, tot['distinct_relevant'], tot['vt_us'] / 1e6, len(new)))
    return 1 if new else 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except build.BuildError as e:
        print('BUILD FAILED: %s' % e); sys.exit(2)
    except Exception as e:
        import traceback; traceback.print_exc(); sys.exit(2)
