// Driver: one OS process per simulated run, batch / run / replay modes.
#include "sim.h"
#include "klocal.h"
#include "app.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <fstream>
#include <sstream>
#include <unordered_set>
#include <map>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>

static const char *vname[] = {"none", "ok", "hang", "deadlock", "crash", "stepcap", "logfull", "internal"};
static const char *evname(int t) {
  static const char *n[] = {"NONE","PROC_START","PROC_END","THR_START","THR_END","SIG_SEND","SIG_DROP","FRAME","FRAME_END","STOP","CONT","EXEC","REAL_CREATE","REAL_FORK","ATEXIT_RUN","CANCELLED","FINIDTOR","MALLOC","MAIN_START","MAIN_END","APP_START","APP_END","OP","OP_END","APP_H","APP_H_END","CLI_H","CLI_H_END","TSD_DTOR","SWTAKE","REALMPI","REALDL","SR","WAITPID","PROBEMASK","QMASK","DISP0","REQ_EXIT"};
  static const char *c[] = {"init_library","fini_library","init_process","fini_process","start_main","at_main","begin_exit","pre_fork","post_fork","pre_create","post_create","thr_support","init_thread","fini_thread","reset_stack","pre_dlopen","dlopen","dlclose","post_dlclose","mpi_pre_init","init_mpi","fini_mpi","mpi_post_fini","wrap_main"};
  static char b[64];
  if (t < (int)(sizeof n / sizeof *n)) return n[t];
  if (t >= E_CB && t < E_CB + CB_N) { snprintf(b, 64, "cb %s {", c[t - E_CB]); return b; }
  if (t >= E_CB_END && t < E_CB_END + CB_N) { snprintf(b, 64, "cb %s }", c[t - E_CB_END]); return b; }
  return "?";
}
static void dump_events(FILE *f) {
  for (u32 i = 0; i < S->nev; i++) {
    Ev &e = S->ev[i]; if (e.type == E_DISP0 && e.a) continue;
    fprintf(f, "%5u p%d t%-2d d%d %10llu %s", e.seq, e.pidx, e.tid, e.depth, (unsigned long long)e.vt, evname(e.type));
    if ((e.type == E_OP || e.type == E_OP_END) && e.a >= 0 && e.a < O_N) fprintf(f, " %s", op_names[e.a]); else fprintf(f, " %lld", (long long)e.a);
    fprintf(f, " %lld %lld %lld\n", (long long)e.b, (long long)e.c, (long long)e.d);
  }
}
static void reset_shared() { S->verdict = V_NONE; S->shoot = 0; S->verdict_msg[0] = 0; S->nev = S->nviol = S->nchoice = S->nproc = 0; S->schedhash = S->evhash = 0; S->points = S->switches = S->maxvt = S->hz = 0; memset(S->faults, 0, sizeof S->faults); memset(S->evcount, 0, sizeof S->evcount); memset(S->opcount, 0, sizeof S->opcount); memset(S->probe, 0, sizeof S->probe); memset(S->proc, 0, sizeof S->proc); }
#include <execinfo.h>
static void bt_handler(int sg) { void *b[40]; int n = backtrace(b, 40); backtrace_symbols_fd(b, n, 2); signal(sg, SIG_DFL); raise(sg); }
static void child_run() {
  if (getenv("SIM_BT")) { void *w[2]; backtrace(w, 2); static char alt[65536]; stack_t ss = {alt, 0, sizeof alt}; sigaltstack(&ss, nullptr); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = bt_handler; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGABRT, &sa, nullptr); }
  struct rlimit rl = {12, 14}; setrlimit(RLIMIT_CPU, &rl); rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  if (const char *sc = getenv("SIM_STEPS")) g_step_cap = atoll(sc);
  run_process(); oracle(); _exit(0);
}
// run the configuration in C; returns with the result in S
static void run_one(bool gen, const std::string &prof, u64 seed) {
  reset_shared(); fflush(stdout);
  pid_t p = fork(); if (p == 0) { if (gen) generate(C, prof, seed); child_run(); }
  if (p < 0) { perror("fork"); exit(3); }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
  if (WIFSIGNALED(st)) { int sg = WTERMSIG(st); if (sg == SIGXCPU || sg == SIGKILL) { S->verdict = V_HANG; snprintf(S->verdict_msg, 200, "endless loop without visible steps"); } else { S->verdict = V_CRASH; snprintf(S->verdict_msg, 200, "process crashed (real signal %d)", sg); } }
  else if (S->verdict == V_NONE) { S->verdict = V_INTERNAL; snprintf(S->verdict_msg, 200, "run ended without a verdict (%d)", WEXITSTATUS(st)); }
}
static std::string verdict_prop() { return S->verdict == V_OK ? "" : "*"; }
static void print_viols(FILE *f, u64 seed, const std::string &prof) {
  if (S->verdict != V_OK) fprintf(f, "VIOL %llu %s * %s %s\n", (unsigned long long)seed, prof.c_str(), vname[S->verdict], S->verdict_msg);
  for (u32 i = 0; i < S->nviol; i++) fprintf(f, "VIOL %llu %s %s %s %s\n", (unsigned long long)seed, prof.c_str(), S->viol[i].prop, S->viol[i].sig, S->viol[i].msg);
}
static std::string choices_text() {
  if (S->nchoice >= MAX_CHOICE) return "rng\n";
  std::string o; char b[96]; for (u32 i = 0; i < S->nchoice; i++) { Choice &c = S->choice[i]; snprintf(b, sizeof b, "choice %s %d %d %u %u\n", ck_names[c.kind], c.pidx, c.tid, c.ctr, c.val); o += b; } return o;
}
static void print_result(FILE *f) { fprintf(f, "RESULT verdict=%s nev=%u evhash=%016llx schedhash=%016llx vt=%llu points=%llu switches=%llu choices=%u\n", vname[S->verdict], S->nev, (unsigned long long)S->evhash, (unsigned long long)S->schedhash, (unsigned long long)S->maxvt, (unsigned long long)S->points, (unsigned long long)S->switches, S->nchoice); }
// does this run exercise the property's antecedent? (counted in the evidence, decides nothing)
static bool relevant(const std::string &p) {
  auto cb = [](int k) { return S->evcount[E_CB + k] > 0; }; auto op = [](int k) { return S->opcount[k] > 0; }; auto evn = [](int t) { return S->evcount[t] > 0; };
  if (p == "C01") return cb(CB_INIT_PROCESS) && (S->evcount[E_CB + CB_INIT_PROCESS] > 1 || evn(E_REAL_CREATE) || evn(E_FRAME));
  if (p == "C02" || p == "C05") return cb(CB_BEGIN_EXIT) && (evn(E_REAL_CREATE) || evn(E_FRAME) || evn(E_REAL_FORK));
  if (p == "C03" || p == "C13" || p == "C14" || p == "C19") return evn(E_REAL_CREATE);
  if (p == "C04") return cb(CB_BEGIN_EXIT) && evn(E_REAL_CREATE) && cb(CB_FINI_THREAD);
  if (p == "C06") return evn(E_PROC_END) && (op(O_EXIT) || op(O_UEXIT) || op(O_PEXIT) || op(O_EXEC) || evn(E_FRAME) || evn(E_MAIN_END));
  if (p == "C07") return op(O_SIGACT) || op(O_SIGNAL) || evn(E_APP_H) || evn(E_CLI_H);
  if (p == "C08") return op(O_MASK) || evn(E_QMASK);
  if (p == "C09") return op(O_SIGWAIT);
  if (p == "C10") return evn(E_REAL_FORK);
  if (p == "C11") return op(O_EXEC) || op(O_REALEXEC);
  if (p == "C12") return op(O_SYSTEM) || op(O_REALSYSTEM);
  if (p == "C15") return op(O_BCAST);
  if (p == "C16") return op(O_BLOCKSD);
  if (p == "C17") return op(O_DLOPEN) || op(O_DLCLOSE);
  if (p == "C18") return op(O_MPI) || op(O_SETSR);
  return S->switches > 0;
}
int main(int argc, char **argv) {
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (S == MAP_FAILED) return 3;
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "batch" && argc >= 6) { // batch PROFILE START STRIDE SECONDS [MAXRUNS]
    std::string prof = argv[2]; u64 start = strtoull(argv[3], 0, 10), stride = strtoull(argv[4], 0, 10); double secs = atof(argv[5]); u64 maxr = argc > 6 ? strtoull(argv[6], 0, 10) : ~0ULL;
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0); std::unordered_set<u64> sh, eh, big, rel; u64 runs = 0, vt = 0, points = 0, sw = 0, nev = 0, logfull = 0, procs = 0; u64 F[FK_N] = {0}, E[E_MAXT] = {0}, O[O_N] = {0}, P[64] = {0}; u64 shown = 0;
    for (; runs < maxr; runs++) {
      clock_gettime(CLOCK_MONOTONIC, &t1); double el = t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) * 1e-9; if (el > secs) break;
      u64 seed = start + runs * stride; std::string pf = (mix64(seed) % 4 == 0) ? "general" : prof; run_one(true, pf, seed);
      if (S->verdict == V_LOGFULL) logfull++;
      sh.insert(S->schedhash ^ mix64(seed)); sh.insert(S->schedhash); eh.insert(S->evhash); if (relevant(prof)) rel.insert(S->evhash); sh.erase(S->schedhash ^ mix64(seed));
      for (u32 i = 1; i < S->nev; i++) { Ev &a = S->ev[i - 1], &b = S->ev[i]; big.insert(((u64)a.type << 40) ^ ((u64)b.type << 20) ^ ((a.tid == b.tid) | (a.pidx == b.pidx) << 1) ^ ((u64)(a.type == E_OP ? a.a : 0) << 50) ^ ((u64)(b.type == E_OP ? b.a : 0) << 8)); }
      vt += S->maxvt; points += S->points; sw += S->switches; nev += S->nev; procs += S->nproc; for (int i = 0; i < FK_N; i++) F[i] += S->faults[i]; for (int i = 0; i < E_MAXT; i++) E[i] += S->evcount[i]; for (int i = 0; i < O_N; i++) O[i] += S->opcount[i]; for (int i = 0; i < 64; i++) P[i] += S->probe[i];
      if (S->verdict != V_OK || S->nviol) { if (shown++ < 4000) print_viols(stdout, seed, pf); fflush(stdout); }
    }
    clock_gettime(CLOCK_MONOTONIC, &t1); double el = t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) * 1e-9;
    printf("STATS {\"runs\":%llu,\"seconds\":%.3f,\"vt_us\":%llu,\"points\":%llu,\"switches\":%llu,\"events\":%llu,\"processes\":%llu,\"logfull\":%llu,\"distinct_schedules\":%zu,\"distinct_histories\":%zu,\"distinct_relevant\":%zu,\"event_pairs\":%zu", (unsigned long long)runs, el, (unsigned long long)vt, (unsigned long long)points, (unsigned long long)sw, (unsigned long long)nev, (unsigned long long)procs, (unsigned long long)logfull, sh.size(), eh.size(), rel.size(), big.size());
    printf(",\"faults\":{"); for (int i = 0; i < FK_N; i++) printf("%s\"%s\":%llu", i ? "," : "", fk_names[i], (unsigned long long)F[i]);
    printf("},\"ops\":{"); for (int i = 0; i < O_N; i++) printf("%s\"%s\":%llu", i ? "," : "", op_names[i], (unsigned long long)O[i]);
    printf("},\"events_by_type\":{"); bool fst = true; for (int i = 0; i < E_MAXT; i++) if (E[i] && i < E_CB_END) { std::string nm = evname(i); std::string q; for (char ch : nm) if (ch != '{' && ch != '}') q += ch == ' ' ? '_' : ch; printf("%s\"%s\":%llu", fst ? "" : ",", q.c_str(), (unsigned long long)E[i]); fst = false; }
    printf("},\"probes\":{"); for (int i = 0; i < 64; i++) printf("%s\"%d\":%llu", i ? "," : "", i, (unsigned long long)P[i]); printf("},\"pairs\":["); { size_t k = 0; for (u64 x : big) { if (k++) printf(","); printf("%llu", (unsigned long long)x); } }
    printf("]}\n"); return 0;
  }
  if (mode == "run" && argc >= 4) { // run PROFILE SEED [ev|file FILE]
    std::string prof = argv[2]; u64 seed = strtoull(argv[3], 0, 10); std::string w = argc > 4 ? argv[4] : "";
    generate(C, prof, seed); run_one(false, prof, seed);
    if (w == "ev") dump_events(stdout); if (w == "cfg") fputs(config_to_text(C).c_str(), stdout);
    if (w == "file" && argc > 5) { std::ofstream o(argv[5]); o << config_to_text(C) << choices_text(); }
    print_viols(stdout, seed, prof); print_result(stdout); return 0;
  }
  if (mode == "replay" && argc >= 3) {
    std::ifstream in(argv[2]); if (!in) return 3; std::stringstream ss; ss << in.rdbuf(); std::vector<Choice> ch; if (!config_from_text(ss.str(), C, ch)) { fprintf(stderr, "bad replay file\n"); return 3; }
    g_replay = !C.rng; load_replay_choices(ch); run_one(false, C.profile, C.seed);
    if (argc > 3 && !strcmp(argv[3], "ev")) dump_events(stdout); print_viols(stdout, C.seed, C.profile); print_result(stdout); return 0;
  }
  fprintf(stderr, "usage: sim batch PROFILE START STRIDE SECONDS [MAXRUNS] | run PROFILE SEED [ev|cfg|file F] | replay FILE [ev]\n"); return 3;
}
