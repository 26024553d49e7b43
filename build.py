#!/usr/bin/env python3
"""Build the simulator against /repo's current sources.

For each variant the library is compiled with thread-sanitizer instrumentation
(every memory access becomes a call into the simulator = a preemption point),
linked with ld -r, and every libc/OS symbol it uses is redirected to the
simulator (sim_X); its own overrides become mon_X.
"""
import glob, hashlib, os, subprocess, sys, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
WRAP = ('main exit _exit dlopen dlclose fork vfork system execl execlp execle execv execvp execve '
        'MPI_Init MPI_Init_thread MPI_Finalize MPI_Comm_rank pthread_create pthread_exit sigwait '
        'sigwaitinfo sigtimedwait signal sigaction sigprocmask pthread_sigmask').split()
for f in ('mpi_init', 'mpi_init_thread', 'mpi_finalize', 'mpi_comm_rank'):
    WRAP += [f, f + '_', f + '__']
VARIANTS = {
    'static':  dict(dyn=0, cli=[], tn=600, defs=[]),
    'dynamic': dict(dyn=1, cli=[], tn=600, defs=[]),
    'static-cs':  dict(dyn=0, cli=[28, 27, 37, 10, 12] + list(range(42, 57)), tn=5, defs=['-DMONITOR_SIM_TN_ARRAY_SIZE=5']),
    'dynamic-cs': dict(dyn=1, cli=[27, 42, 43], conf=45, tn=5, defs=['-DMONITOR_SIM_TN_ARRAY_SIZE=5']),
}
SIMSRC = ['kernel', 'libc', 'app', 'gen', 'oracle', 'main']
CXX = ['g++', '-std=c++17', '-O1', '-g', '-fno-pie', '-w', '-U_FORTIFY_SOURCE', '-fno-omit-frame-pointer']
CC = ['gcc', '-g', '-O1', '-fsanitize=thread', '-fno-pie', '-U_FORTIFY_SOURCE', '-w', '-DUSE_GNU_ATOMIC_OPS', '-fstack-protector-all', '-mmemcpy-strategy=libcall:-1:noalign']
PASS = {'__sigsetjmp', '_setjmp', 'setjmp', '__errno_location', 'stderr', 'stdout', '_GLOBAL_OFFSET_TABLE_', '__stack_chk_fail'}


class BuildError(Exception):
    pass


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, encoding='ascii', errors='backslashreplace')
    if r.returncode:
        raise BuildError(' '.join(cmd)[:300] + '\n' + r.stdout[-3000:])
    return r.stdout


def nm(path):
    """(defined global, weak-defined too, undefined)"""
    d, u = set(), set()
    for line in run(['nm', path]).splitlines():
        p = line.split()
        if len(p) == 2:
            u.add(p[1])
        elif p[1] in 'TDBRCWVGSiu' and p[1].isupper():
            d.add(p[2])
    return d, u


def digest():
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + '/src/*.[ch]') + glob.glob(HERE + '/sim/*') + glob.glob(HERE + '/sim/cfg/*') + [HERE + '/build.py']):
        if os.path.isfile(f):
            h.update(os.path.basename(f).encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]


def build(variants=None, verbose=False):
    variants = variants or list(VARIANTS)
    out = HERE + '/build/' + digest()
    want = {v: out + '/' + v + '/sim' for v in variants}
    if all(os.path.exists(p) for p in want.values()):
        return want
    base = HERE + '/build'
    if os.path.isdir(base):           # keep only a few build directories
        old = sorted((os.path.join(base, d) for d in os.listdir(base)), key=os.path.getmtime)
        for d in old[:-3]:
            if d != out and os.path.isdir(d):
                subprocess.run(['rm', '-rf', d])
    os.makedirs(out, exist_ok=True)
    jobs = []
    with cf.ThreadPoolExecutor(8) as ex:
        simobj = {}
        for s in SIMSRC:
            simobj[s] = f'{out}/{s}.o'
            jobs.append(ex.submit(run, CXX + ['-c', f'{HERE}/sim/{s}.cpp', '-o', simobj[s]]))
        libobj = {}
        for v in variants:
            V = VARIANTS[v]
            d = f'{out}/{v}'
            os.makedirs(d, exist_ok=True)
            cfg = open(HERE + '/sim/cfg/config.h').read()
            cfg = cfg.replace('#define MONITOR_CLIENT_SIGNALS_LIST ', '#define MONITOR_CLIENT_SIGNALS_LIST ' + ''.join('%d, ' % s for s in V['cli']))
            cfg = cfg.replace('#define MONITOR_CONFIG_SHOOTDOWN_SIGNAL 0', '#define MONITOR_CONFIG_SHOOTDOWN_SIGNAL %d' % V.get('conf', 0))
            open(d + '/config.h', 'w').write(cfg)
            libobj[v] = []
            for src in sorted(glob.glob(REPO + '/src/*.c')):
                b = os.path.basename(src)[:-2]
                if b == 'pmpi' and not V['dyn']:
                    continue
                o = f'{d}/{b}.o'
                libobj[v].append(o)
                cmd = CC + (['-fPIC', '-DMONITOR_DYNAMIC', '-DPIC'] if V['dyn'] else ['-DMONITOR_STATIC']) + V['defs'] + ['-DHAVE_CONFIG_H', '-I' + d, '-I' + REPO + '/src', '-c', src, '-o', o]
                jobs.append(ex.submit(run, cmd))
        for j in jobs:
            j.result()
        simdef = set()
        for o in simobj.values():
            simdef |= {s for s in nm(o)[0] if s.startswith('sim_')}

        def one(v):
            V = VARIANTS[v]
            d = f'{out}/{v}'
            raw, lib = d + '/raw.o', d + '/lib.o'
            run(['ld', '-r', '-o', raw] + libobj[v])
            dd, uu = nm(raw)
            red = []
            for s in sorted(dd):
                if s.startswith('__wrap_'):
                    red.append((s, 'mon_' + s[7:]))
                elif V['dyn'] and not s.startswith('monitor_'):
                    red.append((s, 'mon_' + s))
            for s in sorted(uu):
                if s.startswith('monitor_') or s.startswith('__tsan') or s in PASS:
                    continue
                if s.startswith('__real_'):
                    red.append((s, 'sim_' + s[7:]))
                elif not V['dyn'] and s in WRAP:
                    red.append((s, 'mon_' + s))
                elif s.startswith('__isoc99_') or s.startswith('__isoc23_'):
                    continue
                elif 'sim_' + s in simdef:
                    red.append((s, 'sim_' + s))
            seen, passes = set(), ([], [])   # objcopy wants each target once per pass
            for a, b in red:
                passes[1 if b in seen else 0].append((a, b)); seen.add(b)
            for i in (0, 1):
                open(d + '/redef%d' % i, 'w').write(''.join('%s %s\n' % r for r in passes[i]))
            # weak client callbacks in callback.c are superseded by the simulated client
            run(['objcopy', '--redefine-syms=' + d + '/redef0', raw, raw + '2'])
            run(['objcopy', '--redefine-syms=' + d + '/redef1', '--rename-section', '.init_array=lib_init_array', '--rename-section', '.fini_array=lib_fini_array',
                 '--rename-section', '.ctors=lib_init_array', '--rename-section', '.dtors=lib_fini_array', raw + '2', lib])
            syms = sorted(s for s in simdef if s not in ('sim_main', 'sim_symtab', 'sim_swtch'))
            g = 'extern "C" {\n' + ''.join('extern char %s[];\n' % s for s in syms)
            g += 'struct SymEnt { const char *n; void *p; } sim_symtab[] = {\n' + ''.join('{"%s", (void*)%s},\n' % (s[4:], s) for s in syms) + '{0,0}};\n'
            g += 'int sim_is_dynamic = %d; int sim_tn_array = %d; int sim_conf_shoot = %d; extern const int sim_client_list[]; const int sim_client_list[] = {%s0};\n' % (V['dyn'], V['tn'], V.get('conf', 0), ''.join('%d,' % s for s in V['cli']))
            # real main of the application in the static case
            g += 'int mon_pthread_create_dummy;\n}\n'
            open(d + '/gen.cpp', 'w').write(g)
            run(CXX + ['-c', d + '/gen.cpp', '-o', d + '/gensym.o'])
            run(['g++', '-no-pie', '-o', d + '/sim.tmp'] + list(simobj.values()) + [d + '/gensym.o', lib, '-ldl'])
            os.rename(d + '/sim.tmp', d + '/sim')
        list(ex.map(one, variants))
    if verbose:
        print('built', want)
    return want


if __name__ == '__main__':
    print(build(sys.argv[1:] or None, True))
