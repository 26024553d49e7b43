// The simulated application and client: an operation interpreter that calls
// the library under test through its overrides (mon_X) and client API
// (monitor_X), and strong definitions of every client callback.
#include "app.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <algorithm>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/wait.h>

#define X extern "C"
#define W __attribute__((weak))
X {
int mon_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
void mon_pthread_exit(void *) __attribute__((noreturn));
int mon_pthread_sigmask(int, const sigset_t *, sigset_t *);
int mon_sigprocmask(int, const sigset_t *, sigset_t *);
int mon_sigwait(const sigset_t *, int *);
int mon_sigwaitinfo(const sigset_t *, siginfo_t *);
int mon_sigtimedwait(const sigset_t *, siginfo_t *, const struct timespec *);
int mon_sigaction(int, const struct sigaction *, struct sigaction *);
sighandler_t mon_signal(int, sighandler_t);
pid_t mon_fork(); pid_t mon_vfork(); int mon_system(const char *);
int mon_execl(const char *, const char *, ...); int mon_execlp(const char *, const char *, ...); int mon_execle(const char *, const char *, ...);
int mon_execv(const char *, char *const[]); int mon_execvp(const char *, char *const[]); int mon_execve(const char *, char *const[], char *const[]);
void mon_exit(int) __attribute__((noreturn)); void mon__exit(int) __attribute__((noreturn)); void mon__Exit(int) W;
void *mon_dlopen(const char *, int); int mon_dlclose(void *);
int mon_main(int, char **, char **) W;
int mon___libc_start_main(int (*)(int, char **, char **), int, char **, void (*)(), void (*)(), void (*)(), void *) W;
int mon_MPI_Init(int *, char ***); int mon_MPI_Init_thread(int *, char ***, int, int *); int mon_MPI_Finalize(); int mon_MPI_Comm_rank(void *, int *);
int mon_PMPI_Init(int *, char ***) W; int mon_PMPI_Init_thread(int *, char ***, int, int *) W; int mon_PMPI_Finalize() W; int mon_PMPI_Comm_rank(void *, int *) W;
#define FD(p, s) void mon_##p##mpi_init##s(int *) W; void mon_##p##mpi_init_thread##s(int *, int *, int *) W; void mon_##p##mpi_finalize##s(int *) W; void mon_##p##mpi_comm_rank##s(int *, int *, int *) W;
FD(, ) FD(, _) FD(, __) FD(p, ) FD(p, _) FD(p, __)
// client support API
typedef int monitor_sighandler_t(int, siginfo_t *, void *);
struct monitor_thread_info { void *mti_create_return_addr; void *mti_start_routine; };
void monitor_initialize(); void monitor_real_abort(); void monitor_real_exit(int); pid_t monitor_real_fork(); int monitor_real_execve(const char *, char *const[], char *const[]);
int monitor_real_system(const char *); void *monitor_real_dlopen(const char *, int); int monitor_real_dlclose(void *);
int monitor_sigaction(int, monitor_sighandler_t *, int, struct sigaction *); int monitor_broadcast_signal(int); int monitor_is_threaded();
void *monitor_get_addr_main(); void *monitor_get_addr_thread_start(); void *monitor_get_user_data(); int monitor_get_thread_num(); void *monitor_stack_bottom();
int monitor_in_start_func_wide(void *); int monitor_in_start_func_narrow(void *); int monitor_unwind_process_bottom_frame(void *); int monitor_unwind_thread_bottom_frame(void *);
void monitor_set_size_rank(int, int); int monitor_mpi_comm_size(); int monitor_mpi_comm_rank(); int monitor_block_shootdown(); void monitor_unblock_shootdown();
void monitor_disable_new_threads(); void monitor_enable_new_threads(); int monitor_get_new_thread_info(struct monitor_thread_info *);
int monitor_real_sigprocmask(int, const sigset_t *, sigset_t *); int monitor_real_pthread_sigmask(int, const sigset_t *, sigset_t *);
// simulated libc called directly by the application (not overridden)
int sim_pthread_join(pthread_t, void **); int sim_pthread_cancel(pthread_t); int sim_pthread_detach(pthread_t); int sim_pthread_kill(pthread_t, int); int sim_raise(int); int sim_kill(pid_t, int);
int sim_pthread_attr_init(pthread_attr_t *); int sim_pthread_attr_destroy(pthread_attr_t *); int sim_pthread_attr_setstacksize(pthread_attr_t *, size_t); int sim_pthread_attr_setdetachstate(pthread_attr_t *, int);
int sim_pthread_key_create(pthread_key_t *, void (*)(void *)); int sim_pthread_setspecific(pthread_key_t, const void *); int sim_pthread_setcancelstate(int, int *); pid_t sim_waitpid(pid_t, int *, int); void sim_abort();
void sim_pthread_testcancel();
typedef void (*initfn)();
extern initfn __start_lib_init_array[] W, __stop_lib_init_array[] W, __start_lib_fini_array[] W, __stop_lib_fini_array[] W;
}
const char *op_names[O_N] = {"nop","compute","io","yield","testcancel","create","join","cancel","detach","killt","raise","killp","sigact","signal","mask","sigwait","fork","realfork","wait","system","realsystem","exec","realexec","exit","_exit","_Exit","pexit","ret","segv","keyset","atexit","dlopen","dlclose","realdlopen","mpi","setsr","bcast","blocksd","igncreate","query","csigact","newinfo","setcancel","realexit","realabort","initialize","unresp","sysnull","many","cleanupq","querysig","stopself"};
const char *knob_names[K_N] = {"switch","hot","stall","asig","acancel","fault","cbdur","cbio","jump","debug","sdenv","earlyfirst","clientio","nulldata","stackmode","pathmode","preload","ignmask","nosys","nolatefault","envbig","clientreg","dlsymfb","badenv","shareattr"};

AppProc AP; std::vector<Slot> slots; static u32 tokctr = 0; static int curdisp[65]; static int clihid[65]; static int dispbusy[65]; static bool dispamb[65]; static u32 dispver = 0, displast[65]; // a sigaction call of the application is under way 
static char *g_argv[] = {(char *)"app", (char *)"-x", (char *)"file", nullptr};
static pthread_key_t app_key; static bool app_key_made = false; static pthread_attr_t shared_attr; static bool shared_attr_made = false; static std::vector<void *> handles; static u32 sr_ops = 0, sr_ver = 0;
static const int CLSET[] = {SIGPROF, 37, 0};
int lib_origin() { return cur && cur->app && cur->app->sending && cur->app->senddep == cur_depth() ? 0 : 1; }
static u64 K_all() { return AP.K0 | AP.Kclient; }
u64 maskset(int sel) {
  switch (sel % 12) {
  case 0: return SB(SIGUSR1);
  case 1: return SB(SIGUSR1) | SB(SIGUSR2);
  case 2: return SB(SIGINT) | SB(SIGTERM) | SB(SIGQUIT) | SB(SIGHUP);
  case 3: return SB(35) | SB(50) | SB(SIGALRM);
  case 4: return ~(SB(32) | SB(33));
  case 5: return ~(SB(32) | SB(33) | SB(SIGSEGV));
  case 6: return SB(SIGCHLD) | SB(SIGUSR1);
  case 7: return AP.K0 | SB(SIGUSR2);
  case 8: return AP.K0 | SB(SIGPROF) | SB(37);
  case 9: return 0;
  case 10: return SB(SIGALRM) | SB(SIGUSR2) | SB(SIGPROF);
  default: return SB(SIGURG) | SB(SIGALRM);
  }
}
bool nodefer(int sel) { return sel == 1 || sel == 10; } // the application asks for SA_NODEFER with these
static bool dfl_ignored(int s) { return s == SIGCHLD || s == SIGCONT || s == SIGURG || s == SIGWINCH; }
static bool cli_accepts(int sig) { int h = clihid[sig]; return h == 1 || h == 4 || h == 5; }
// the shootdown signal that the environment names, if it is usable
static int env_shoot() {
  const char *e = nullptr; for (char **p = sim_environ; *p; p++) if (!strncmp(*p, "MONITOR_SHOOTDOWN_SIGNAL=", 25)) e = *p + 25;
  int v; return e && sscanf(e, "%d", &v) == 1 && v > 0 && v < 65 && v != 9 && v != 19 && v != 20 && v != 21 && v != 22 && v != 32 && v != 33 ? v : 0;
}
static bool maybe_shoot(int sig) { return AP.probed ? sig == AP.shoot : sig == env_shoot() || sig == SIGPWR || (sig >= 40 && sig < 58); }
static bool safe_sig(int sig) { if (sig == AP.shoot || !AP.init_done || !AP.probed) return false; if (cli_accepts(sig)) return true; return curdisp[sig] == 1 || (curdisp[sig] & 255) >= 10 || dfl_ignored(sig); }
bool app_asig_ok(int sig) { if (sig < 0) return AP.main_started && -sig != AP.shoot && AP.probed; return safe_sig(sig); }

// ------------------------------------------------------------ queries (C14)
X int sim_main(int, char **, char **);
static void check_query(const char *where) {
  AppThread *at = cur->app; if (!at || AP.nocb) return;
  int dep = cur_depth();
  bool ms = AP.main_started; int num = monitor_get_thread_num(); i64 data = (i64)monitor_get_user_data(); void *st = monitor_get_addr_thread_start(); void *sb = monitor_stack_bottom(); void *am = monitor_get_addr_main();
  S->opcount[O_QUERY]++;
  bool thr = monitor_is_threaded(); if (AP.init_done && !AP.created && dep == 0 && thr) viol("C14", "is-threaded", "%s: process %d has not created a thread, but counts as threaded", where, PIDX);
  if (!at->ismain && !at->ignored && at->init_begun && !thr) viol("C14", "is-threaded", "%s: thread %d of process %d runs, but the process does not count as threaded", where, cur_tid(), PIDX);
  if (ms && am != (void *)sim_main) viol("C14", "addr-main", "%s: address of main is wrong", where);
  if (at->ismain) {
    if (!AP.init_begun) return;
    if (num != 0) viol("C14", "main-tid", "%s: main thread %d of process %d reports thread number %d", where, cur_tid(), PIDX, num);
    i64 want = AP.init_done ? AP.ptok : (AP.fork_child ? at->forktok : 0);
    bool early = dep > 0 && !AP.main_started; for (auto &x : at->ops) if (dep > 0 && x.code == O_FORK) early = true; // the library may not have stored the value yet
    if (data != want && !(early && (data == 0 || data == at->forktok))) viol("C14", "main-data", "%s: main thread of process %d sees user data %llx, expected %llx", where, PIDX, (long long)data, (long long)want);
    if (st) viol("C14", "main-start", "%s: main thread reports a thread start routine", where);
    if (at->started && !at->nostack && !(sb && in_stack(sb))) viol("C14", "main-stack", "%s: stack bottom of main thread is not in its stack (process %d)", where, PIDX);
    return;
  }
  if (at->ignored) {
    if (num != -1 || data || st || sb) viol("C14", "ignored-identity", "%s: unmonitored thread %d has identity num=%d data=%llx", where, cur_tid(), num, (long long)data);
    return;
  }
  if (!at->init_begun) { if (at->started || num > 0 || data) { if (num != -1 || data) { /* thread not yet announced: only its own values */ } } return; }
  bool none = num == -1 && !data && !st && !sb;
  if ((at->fini_done || (at->blocked_sd && (at->in_dtor || at->ended || at->end_set))) && none) return; // a thread that ends while it blocks shootdown gets no thread-fini
  if (num != at->mtid) viol("C14,C19", "thread-num", "%s: thread %d has number %d, reports %d", where, cur_tid(), at->mtid, num);
  i64 want = at->init_done ? at->init_tok : at->pre_tok;
  if (data != want && !(dep > 0 && !at->started && data == at->pre_tok)) viol("C14,C19", "thread-data", "%s: thread %d sees user data %llx, expected %llx", where, cur_tid(), (long long)data, (long long)want);
  if (st != (void *)at->startfn) viol("C14", "thread-start", "%s: thread %d reports a wrong start routine", where, cur_tid());
  if (!sb || !in_stack(sb)) viol("C14", "thread-stack", "%s: stack bottom of thread %d is not in its own stack", where, cur_tid());
}
static void check_newinfo(const char *where) {
  AppThread *at = cur->app; if (!at || AP.nocb) return;
  monitor_thread_info mti; memset(&mti, 0, sizeof mti);
  CreateCtx *cc = at->cc; int r = monitor_get_new_thread_info(&mti); S->opcount[O_NEWINFO]++;
  if (at->ignored) { if (r == 0) viol("C14", "newinfo-ignored", "%s: unmonitored thread gets new-thread info", where); return; }
  if (cc && cc->incb) { // inside a callback from pthread_create
    if (r != 0) viol("C14", "newinfo-missing", "%s: no new-thread info inside pthread_create", where);
    else if (mti.mti_start_routine != (void *)cc->start) viol("C14", "newinfo-wrong", "%s: new-thread info describes another call", where);
    else { Dl_info di; (void)di; char *ra = (char *)mti.mti_create_return_addr; extern char call_create_begin[] asm("sim_call_create"); if (ra < call_create_begin || ra > call_create_begin + 400) viol("C14", "newinfo-ra", "%s: new-thread info has a wrong return address", where); }
  } else if (!cc) { if (r == 0) viol("C14", "newinfo-stale", "%s: new-thread info available outside pthread_create (thread %d)", where, cur_tid()); }
}

// ------------------------------------------------------------ client callbacks
static const u64 cbdur[] = {1000, 20000, 150000, 700000, 3000000, 12500000, 41000000};
static void cb_begin(int k, i64 a = 0, i64 b = 0, i64 c = 0, i64 d = 0) {
  ev(E_CB + k, a, b, c, d); AppThread *at = cur->app; if (at) at->in_cb++; if (at && at->cc && (k == CB_PRE_CREATE || k == CB_RESET_STACK || k == CB_POST_CREATE)) at->cc->incb++;
  static const int maxd[] = {0, 2, 4, 5, 7};
  int lv = C.knob[K_CBDUR]; u32 v = choose(CK_CBDUR, maxd[lv], lv ? 0.25 : 0); if (v) { S->hz += cbdur[v - 1]; compute(cbdur[v - 1]); } else point0();
  bool ioable = k == CB_FINI_THREAD || k == CB_BEGIN_EXIT || k == CB_FINI_PROCESS || k == CB_INIT_THREAD || k == CB_PRE_FORK || k == CB_POST_FORK || k == CB_PRE_CREATE || k == CB_POST_CREATE || k == CB_RESET_STACK || k == CB_THR_SUPPORT;
  if (ioable && C.knob[K_CBIO]) { u32 w = choose(CK_CBIO, 3, 0.5); if (w == 1) sim_pthread_testcancel(); else if (w == 2) io(2000); else if (w == 3) io(130000); }
}
static void cb_end(int k, i64 a = 0, i64 b = 0) { AppThread *at = cur->app; if (at) at->in_cb--; if (at && at->cc && (k == CB_PRE_CREATE || k == CB_RESET_STACK || k == CB_POST_CREATE)) at->cc->incb--; ev(E_CB_END + k, a, b); }
static i64 newtok(int base) { u32 n = ++tokctr; if (C.knob[K_NULLDATA] && (mix64(n * 7919 + C.seed) % 4) == 0) return 0; return base + n; }
static void do_csigact(int sig, int hid, int withact);
X void monitor_init_library() { cb_begin(CB_INIT_LIBRARY); cb_end(CB_INIT_LIBRARY); }
X void monitor_fini_library() { cb_begin(CB_FINI_LIBRARY); cb_end(CB_FINI_LIBRARY); }
X void *monitor_init_process(int *argc, char **argv, void *data) {
  AP.init_begun = true; AP.main_tid = cur_tid();
  cb_begin(CB_INIT_PROCESS, argc ? *argc : -1, argv == g_argv, (i64)data, AP.main_started);
  check_query("init_process");
  if (C.knob[K_CLIENTREG] & 1) do_csigact(SIGPROF, 1, C.knob[K_CLIENTREG] & 4);
  if (C.knob[K_CLIENTREG] & 2) do_csigact(37, 2, 0);
  i64 t = newtok(TK_PROC); AP.ptok = t; cb_end(CB_INIT_PROCESS, t); AP.init_done = true; return (void *)t;
}
X void monitor_fini_process(int how, void *data) { AP.fini_begun = true; cb_begin(CB_FINI_PROCESS, how, 0, (i64)data); check_query("fini_process"); cb_end(CB_FINI_PROCESS, how); }
X void monitor_start_main_init() { cb_begin(CB_START_MAIN); cb_end(CB_START_MAIN); }
X void monitor_at_main() { cb_begin(CB_AT_MAIN); cb_end(CB_AT_MAIN); }
// what is the calling thread's reason to end the process?
static int exit_reason() {
  AppThread *at = cur->app; int dep = cur_depth();
  if (!at->ops.empty() && at->ops.back().depth == dep) { int c = at->ops.back().code; return c == O_EXEC ? 3 : 1; }
  if (dep > 0) return 2;
  return 1;
}
X void monitor_begin_process_exit(int how) { AP.exit_begun = true; cb_begin(CB_BEGIN_EXIT, how, exit_reason()); check_query("begin_process_exit"); cb_end(CB_BEGIN_EXIT, how); }
X void *monitor_pre_fork() { cb_begin(CB_PRE_FORK); i64 t = newtok(TK_FORK); cur->app->forktok = t; cb_end(CB_PRE_FORK, t); return (void *)t; }
X void monitor_post_fork(pid_t child, void *data) { cb_begin(CB_POST_FORK, child, 0, (i64)data); check_query("post_fork"); cb_end(CB_POST_FORK); }
X void *monitor_thread_pre_create() {
  cb_begin(CB_PRE_CREATE); check_newinfo("pre_create"); check_query("pre_create"); CreateCtx *cc = cur->app->cc; i64 t;
  if (cc && cc->ign_pre) t = -1; else { t = newtok(TK_PRE); }
  if (cc) { cc->pre_tok = t; cc->pre_done = true; }
  cb_end(CB_PRE_CREATE, t); return (void *)t;
}
X void monitor_thread_post_create(void *data) { cb_begin(CB_POST_CREATE, 0, 0, (i64)data); check_newinfo("post_create"); cb_end(CB_POST_CREATE); }
X void monitor_init_thread_support() { cb_begin(CB_THR_SUPPORT); check_newinfo("thread_support"); cb_end(CB_THR_SUPPORT); }
X void *monitor_init_thread(int tid, void *data) {
  AppThread *at = cur->app; at->init_begun = true; at->mtid = tid; cb_begin(CB_INIT_THREAD, tid, 0, (i64)data); at->pre_tok = (i64)data; check_query("init_thread"); check_newinfo("init_thread");
  i64 t = newtok(TK_INIT); at->init_tok = t; cb_end(CB_INIT_THREAD, t, tid); at->init_done = true; return (void *)t;
}
X void monitor_fini_thread(void *data) { AppThread *at = cur->app; at->fini_begun = true; cb_begin(CB_FINI_THREAD, at->blocked_sd, cur->mask & (AP.shoot ? SB(AP.shoot) : 0) ? 1 : 0, (i64)data, cur_depth()); check_query("fini_thread"); cb_end(CB_FINI_THREAD); at->fini_done = true; }
X size_t monitor_reset_stacksize(size_t old) {
  cb_begin(CB_RESET_STACK, old); check_newinfo("reset_stacksize"); CreateCtx *cc = cur->app->cc; size_t n = old; int m = C.knob[K_STACKMODE];
  if (m == 2) m = choose(CK_CLIENT, 2, 0.6) == 1 ? 1 : choose(CK_CLIENT, 1, 0.3) ? 3 : 0;
  if (m == 1) n = choose(CK_CLIENT, 1, 0.4) ? old / 2 : old * 2; else if (m == 3) n = 100;
  if (cc) { cc->chosen = n; cc->have_chosen = true; }
  cb_end(CB_RESET_STACK, n); return n;
}
static int path_id(const char *p);
X void monitor_pre_dlopen(const char *p, int f) { cb_begin(CB_PRE_DLOPEN, path_id(p), f); cb_end(CB_PRE_DLOPEN); }
X void monitor_dlopen(const char *p, int f, void *h) { cb_begin(CB_DLOPEN, path_id(p), f, (i64)h); cb_end(CB_DLOPEN); }
X void monitor_dlclose(void *h) { cb_begin(CB_DLCLOSE, 0, 0, (i64)h); cb_end(CB_DLCLOSE); }
X void monitor_post_dlclose(void *h, int r) { cb_begin(CB_POST_DLCLOSE, r, 0, (i64)h); cb_end(CB_POST_DLCLOSE); }
X void monitor_mpi_pre_init() { cb_begin(CB_MPI_PRE_INIT); cb_end(CB_MPI_PRE_INIT); }
X void monitor_init_mpi(int *a, char ***v) { cb_begin(CB_INIT_MPI, a ? *a : -1, v ? *v == g_argv : -1); cb_end(CB_INIT_MPI); }
X void monitor_fini_mpi() { cb_begin(CB_FINI_MPI); cb_end(CB_FINI_MPI); }
X void monitor_mpi_post_fini() { cb_begin(CB_MPI_POST_FINI); cb_end(CB_MPI_POST_FINI); }
X int monitor_wrap_main(int argc, char **argv, char **) { cb_begin(CB_WRAP_MAIN, argc, argv == g_argv); cb_end(CB_WRAP_MAIN); return 0; }

// ------------------------------------------------------------ handlers
static void push_op(int code, int a, int b, int c) { cur->app->ops.push_back({code, cur_depth(), S->nev, a, b, c, cur->cancel_on}); ev(E_OP, code, a, b, c); S->opcount[code]++; }
static void pop_op(int code, i64 b = 0, i64 c = 0, i64 d = 0) { ev(E_OP_END, code, b, c, d); if (cur->cancel_on != cur->app->ops.back().cs && !cur->unwinding) viol("C05", "cancel-state", "a call leaves the thread with cancellation %s", cur->cancel_on ? "enabled" : "disabled"); cur->app->ops.pop_back(); }
static int hb_budget = 20; // broadcasts from handlers: each may trigger others
static void do_bcast(int sig) { push_op(O_BCAST, sig, 0, 0); int r = monitor_broadcast_signal(sig); pop_op(O_BCAST, r); }
static void do_blocksd(u64 us, bool leave = false) {
  AppThread *at = cur->app; if (at->blocked_sd || at->sd_busy) return; push_op(O_BLOCKSD, us, 0, 0);
  at->sd_busy = true; int r = monitor_block_shootdown(); ev(E_OP_END, O_BLOCKSD, r, 1); at->blocked_sd = true; at->sd_busy = false;
  if (leave) { pop_op(O_BLOCKSD, r, 3); return; } // the thread goes on, and may end, without unblocking
  compute(us); at->blocked_sd = false; monitor_unblock_shootdown(); pop_op(O_BLOCKSD, r, 2);
}
static void app_handler(int sig, siginfo_t *si, void *uc, int hid, int form) {
  Frame f = cur->frames.empty() ? Frame{0, -1, -1, 0} : cur->frames.back();
  int bad = 0;
  if (f.sig != sig) bad = 1;
  if (form) { if (!si || si->si_signo != sig || (i64)si->si_value.sival_ptr != f.cookie) bad = 2; if (!uc || (i64)((UCtx *)uc)->dummy[0] != f.cookie) bad = 3; }
  ev(E_APP_H, sig, hid + (form ? 50 : 10), f.cookie, bad); if (sig == SIGSEGV && cur->app) cur->app->segvh++;
  if (bad) viol("C07", "handler-args", "handler for signal %d called with wrong %s", sig, bad == 1 ? "signal number" : bad == 2 ? "siginfo" : "context");
  // mask inside the handler (C08)
  if (AP.probed && f.id >= 0) {
    if (AP.shoot && !(cur->mask & SB(AP.shoot))) viol("C08", "shoot-open-in-handler", "shootdown signal is open inside the handler of signal %d", sig);
    int d = curdisp[sig]; int sel = d >> 8; u64 Ka = K_all();
    if ((d & 255) == hid + (form ? 50 : 10) && !(AP.clientact & SB(sig))) {
      u64 want = f.oldmask | (sel == 15 ? 0 : maskset(sel)) | (nodefer(sel) ? 0 : SB(sig)); u64 ign = Ka | SB(SIGKILL) | SB(SIGSTOP) | SB(32) | SB(33);
      if ((cur->mask & ~ign) != (want & ~ign)) { ev(E_NONE, want, cur->mask); cur->ctr[CK_MISC]++; /* verified against the disposition history in the oracle */ }
      u64 base = AP.K0 & ~SB(AP.shoot) & ~SB(sig);
      if (!AP.Kclient && (cur->mask & base) != (f.oldmask & base)) viol("C08", "samask-keepopen", "handler mask of signal %d changes keep-open signals", sig);
    }
  }
  ev(E_QMASK, sig, cur->mask, f.oldmask, hid + (form ? 50 : 10));
  switch (hid & 15) {
  case 1: compute(2000); break;
  case 2: compute(60000); break;
  case 3: check_query("app handler"); point0(); break;
  case 4: push_op(O_UEXIT, 40 + sig % 8, 0, 0); mon__exit(40 + sig % 8); break;
  case 5: if (cur_depth() < 3 && safe_sig(SIGUSR2) && sig != SIGUSR2) { cur->app->sending++, cur->app->senddep = cur_depth(); sim_raise(SIGUSR2); cur->app->sending--; } break;
  case 6: { u64 m0 = cur->mask; sigset_t s, o; to_sigset(SB(SIGALRM) | SB(SIGTERM) | AP.K0, &s); int r = mon_pthread_sigmask(SIG_BLOCK, &s, &o); if (AP.probed && (r || from_sigset(&o) != m0 || ((cur->mask ^ (m0 | SB(SIGALRM) | SB(SIGTERM))) & ~AP.Kclient & ~(SB(32) | SB(33))))) viol("C08", "mask-in-handler", "pthread_sigmask inside a handler: wrong result"); break; }
  case 7: if (safe_sig(SIGUSR2) && cur_depth() < 3 && hb_budget-- > 0) do_bcast(SIGUSR2); break;
  case 8: push_op(O_EXIT, 60 + sig % 8, 0, 0); mon_exit(60 + sig % 8); break;
  case 9: do_blocksd(5000); break;
  default: point0();
  }
  ev(E_APP_H_END, sig, hid, f.cookie);
}
template <int H> static void hplain(int sig) { app_handler(sig, nullptr, nullptr, H, 0); }
template <int H> static void hinfo(int sig, siginfo_t *si, void *uc) { app_handler(sig, si, uc, H, 1); }
#define HL(T) (void *)T<0>, (void *)T<1>, (void *)T<2>, (void *)T<3>, (void *)T<4>, (void *)T<5>, (void *)T<6>, (void *)T<7>, (void *)T<8>, (void *)T<9>
static void *hp[] = {HL(hplain)}; static void *hi[] = {HL(hinfo)};
static int client_handler(int sig, siginfo_t *si, void *uc, int hid) {
  i64 ck = si ? (i64)si->si_value.sival_ptr : -1; int bad = 0;
  if (!si || si->si_signo != sig) bad = 1;
  if (cur_depth() > 0 && cur->frames.back().sig == sig && cur->frames.back().cookie == ck && !cur->in_sigwait) { if (!uc) bad = 2; } else if (!uc) bad = 2;
  ev(E_CLI_H, sig, hid, ck, bad); if (bad) viol("C07", "client-handler-args", "client handler for %d called with wrong arguments", sig);
  int ret = 0;
  switch (hid) {
  case 1: point0(); break;
  case 2: ret = 1; break;
  case 3: ret = (ck & 1); break;
  case 4: if (AP.probed && safe_sig(SIGUSR2) && cur_depth() < 3 && hb_budget-- > 0) do_bcast(SIGUSR2); break;
  case 5: do_blocksd(8000); break;
  case 6: check_query("client handler"); check_newinfo("client handler"); ret = 1; break;
  }
  ev(E_CLI_H_END, sig, hid, ck, ret); return ret;
}
template <int H> static int chand(int sig, siginfo_t *si, void *uc) { return client_handler(sig, si, uc, H); }
static monitor_sighandler_t *ch[] = {chand<0>, chand<1>, chand<2>, chand<3>, chand<4>, chand<5>, chand<6>};
static void do_csigact(int sig, int hid, int withact) {
  if (maybe_shoot(sig)) return;
  push_op(O_CSIGACT, sig, hid, withact); struct sigaction a; memset(&a, 0, sizeof a); sigemptyset(&a.sa_mask); a.sa_flags = SA_RESTART; sigaddset(&a.sa_mask, SIGURG);
  bool bad = sig <= 0 || sig > 64 || sig == SIGKILL || sig == SIGSTOP || sig == 32 || sig == 33;
  if (!bad) { AP.Kclient |= SB(sig); if (withact) AP.clientact |= SB(sig); clihid[sig] = hid; }
  AP.csigbusy++; int r = monitor_sigaction(sig, ch[hid], 0, withact ? &a : nullptr); AP.csigbusy--; if (!bad) AP.Kcert |= SB(sig);
  if ((r != 0) != bad) viol("C07", "client-sigaction-ret", "monitor_sigaction(%d) returned %d", sig, r);
  pop_op(O_CSIGACT, r);
}

// ------------------------------------------------------------ kernel-side hooks
void app_attr_live(int d) { if (cur && cur->app && cur->app->cc) cur->app->cc->attr_live += d; }
bool app_attr_restoring(pthread_attr_t *, size_t s) { CreateCtx *cc = cur->app->cc; return cc && cc->realcalled && s == cc->reqstack; }
struct StartArg { u64 magic; int slot; int prog; AppThread *at; int runs; };
void app_real_create(Thread *t, void *(*start)(void *), void *arg, size_t stack, int detach, size_t guard) {
  CreateCtx *cc = cur->app->cc; if (!cc) { viol("C13", "stray-create", "real pthread_create called outside an application call"); return; }
  if (cc->realcalled) viol("C13", "create-twice", "real pthread_create called twice for one call");
  cc->realcalled = true; cc->made = t; cc->realret = t ? 0 : g_create_err;
  bool ign = start == cc->start; // handed straight to the real call
  bool want_ign = cc->ign_disable || cc->ign_pre || cc->ign_creator;
  if (ign && !want_ign) viol("C03", "unexpected-ignore", "thread created by %d is not monitored", cur_tid());
  if (!ign && want_ign) viol("C13", "ignore-broken", "thread that the client asked to ignore is monitored");
  if (detach != cc->reqdetach || guard != cc->reqguard) viol("C13", "attr-lost", "attributes did not reach the real pthread_create");
  if (!want_ign && !cc->have_chosen && S->faults[FK_ATTR] == cc->attrfaults) viol("C13", "stack-not-asked", "the client was not asked for the stack size");
  if (want_ign || !cc->have_chosen) { if (stack != cc->reqstack && !cc->shared) viol("C13", "stack-changed", "stack size %zu instead of %zu", stack, cc->reqstack); }
  else if (cc->shared) { if (stack != cc->reqstack && stack != cc->chosen) viol("C13", "shared-attr-stack", "attribute object shared by concurrent calls: stack size %zu, requested %zu", stack, cc->reqstack); }
  else if (!cc->shared) {
    if (stack != cc->reqstack && stack != cc->chosen) viol("C13", "stack-wrong", "stack size %zu, requested %zu, client chose %zu", stack, cc->reqstack, cc->chosen);
    else if (stack != cc->chosen && cc->chosen >= 16384 && S->faults[FK_ATTR] == cc->attrfaults) viol("C13", "stack-choice-ignored", "the client's stack size was not used");
  }
  if (ign && arg != cc->sarg) viol("C13", "arg-lost", "argument of an ignored thread changed");
  if (!t) return;
  AppThread *at = new AppThread(); t->app = at; at->prog = cc->prog; at->slot = cc->slot; at->ignored = ign; at->startfn = cc->start; at->pre_tok = cc->pre_tok; at->create_mask = cc->mask; cc->newat = at;
  ((StartArg *)cc->sarg)->at = at;
  t->cancellable_by_env = cc->envcancel;
}
static void system_cut();
void app_unwound() { AppThread *at = cur->app; if (!at) return; while (!at->ops.empty()) { if (at->ops.back().code == O_CSIGACT && AP.csigbusy) AP.csigbusy--; if (at->ops.back().code == O_SYSTEM || at->ops.back().code == O_REALSYSTEM) system_cut(); ev(E_OP_END, at->ops.back().code, 0, 0, -99); at->ops.pop_back(); } at->cc = nullptr; at->sending = 0; at->in_cb = 0; if (!at->end_set) { at->end_set = true; at->end_val = (i64)cur->retval; } }
void app_exec_failed() {}
static void cmp_env(const char *prop, const char *tag, const std::vector<std::string> &want, char *const envp[]) {
  if (!envp) { if (!want.empty()) viol(prop, tag, "no environment passed"); return; }
  size_t i = 0; for (; envp[i]; i++) { if (i >= want.size() || want[i] != envp[i]) { viol(prop, tag, "environment entry %zu is \"%.40s\", expected \"%.40s\"", i, envp[i], i < want.size() ? want[i].c_str() : "(end)"); return; } }
  if (i != want.size()) viol(prop, tag, "environment has %zu entries, expected %zu", i, want.size());
}
void app_exec_check(const char *, const char *orig, const char *path, char *const argv[], char *const envp[], bool succeeds) {
  AppThread *at = cur->app; ExpExec &x = at->ex; const char *P = x.system ? "C12" : "C11";
  if (!x.on) { viol("C11", "stray-exec", "exec of %s that nobody asked for", path); return; }
  if (x.path != orig) viol(P, "exec-path", "exec path \"%.40s\", expected \"%.40s\"", orig, x.path.c_str());
  size_t n = 0; for (; argv && argv[n]; n++) if (n < x.argv.size() && x.argv[n] != argv[n] && !(x.system && n == 0)) { viol(P, "exec-arg", "argument %zu is \"%.30s\", expected \"%.30s\"", n, argv[n], x.argv[n].c_str()); break; }
  if (n != x.argv.size()) viol(P, "exec-argc", "%zu arguments, expected %zu", n, x.argv.size());
  cmp_env(P, "exec-env", x.envp, envp); if (!succeeds) return;
  if (AP.probed && ((cur->mask ^ x.mask) & ~(SB(32) | SB(33)))) viol(P, "exec-mask", "new image starts with mask %llx, caller had %llx", (long long)cur->mask, (long long)x.mask);
  for (int s = 1; s < 65; s++) if (s != SIGKILL && s != SIGSTOP && s != 32 && s != 33 && s != AP.shoot && AP.probed && !dispbusy[s] && !dispamb[s] && displast[s] <= x.ver) {
    bool ign = kact[s].h == (void *)SIG_IGN; bool want = curdisp[s] == 1 || (curdisp[s] & 255) == 1;
    if (ign && !want) { bool sysign = (s == SIGINT || s == SIGQUIT) && (AP.sysfork || (!x.system && AP.nsystem)); if (!sysign) viol(P, "exec-ignored", "new image starts with signal %d ignored", s); }
    if (!ign && want && !(clihid[s]) && !((s == SIGINT || s == SIGQUIT) && (AP.nsysend || (!x.system && AP.nsystem)))) viol(P, "exec-not-ignored", "signal %d that the application ignores is not ignored in the new image", s);
  }
}
void app_real_system(const char *cmd) { ev(E_REALDL, 5, cmd ? strlen(cmd) : -1); }
void app_waitpid(int pid, int ret, int status) {
  AppThread *at = cur->app; if (at->ops.empty()) return; int c = at->ops.back().code; if (c != O_SYSTEM && c != O_REALSYSTEM) return;
  at->waited = true; at->lastwait_eintr = ret < 0 && status == EINTR; at->lastwait = ret < 0 ? -1 : status;
}
static bool int_quit_open() { for (int s : {SIGINT, SIGQUIT}) if (kact[s].h != (void *)SIG_IGN && !(AP.fini_begun && kact[s].h == (void *)SIG_DFL)) return true; return false; } // (default: the process is dying from this signal)
void app_at_fork() {
  AppThread *at = cur->app; if (!at || at->ops.empty()) return; int c = at->ops.back().code; if (c != O_SYSTEM && c != O_REALSYSTEM) return;
  if (!(cur->mask & SB(SIGCHLD)) && !(K_all() & SB(SIGCHLD))) viol("C12", "chld-open", "SIGCHLD not blocked when system() makes its child");
  if (int_quit_open() && AP.sa_intquit == 0) viol("C12", "int-quit-open", "SIGINT or SIGQUIT not ignored when system() makes its child");
}
void app_in_waitpid() {
  AppThread *at = cur->app; if (!at || at->ops.empty()) return; int c = at->ops.back().code; if (c != O_SYSTEM && c != O_REALSYSTEM) return;
  if (int_quit_open()) { if (AP.sa_intquit == 0) viol("C12", "int-quit-open", "SIGINT or SIGQUIT not ignored while system() waits"); }
  if (!(cur->mask & SB(SIGCHLD)) && !(K_all() & SB(SIGCHLD))) viol("C12", "chld-open", "SIGCHLD not blocked while system() waits");
}
static const char *dlpaths[] = {"liba.so", "libb.so", "/x/libc.so", "missing.so", nullptr};
static int path_id(const char *p) { if (!p) return -1; for (int i = 0; dlpaths[i]; i++) if (p == dlpaths[i]) return i; return 99; }
void *app_real_dlopen(const char *p, int fl) { int id = path_id(p); void *h = (void *)(0xd000L + 16 * (handles.size() + 1)); if (id == 3 || fault(FK_DLOPEN, 0.1)) h = nullptr; else handles.push_back(h); compute(1000); ev(E_REALDL, 0, id, fl, (i64)h); return h; }
int app_real_dlclose(void *h) { int r = fault(FK_DLOPEN, 0.1) ? -1 : 0; compute(500); ev(E_REALDL, 1, (i64)h, 0, r); return r; }

// ------------------------------------------------------------ MPI
static int call_mpi(int kind, int v, long comm, int *rank) {
  static int ac; static char **av; ac = 3; av = g_argv; int e = -77, pr = -1, rq = 2, cm = comm;
#define FV(n, p, s) case n: if (kind == M_INIT) mon_##p##mpi_init##s(&e); else if (kind == M_INITT) { mon_##p##mpi_init_thread##s(&rq, &pr, &e); if (pr != 2) viol("C18", "provided", "provided level lost"); } else if (kind == M_FINI) mon_##p##mpi_finalize##s(&e); else mon_##p##mpi_comm_rank##s(&cm, rank, &e); return e;
  switch (v) {
  case 0: if (kind == M_INIT) return mon_MPI_Init(&ac, &av); if (kind == M_INITT) { int r = mon_MPI_Init_thread(&ac, &av, rq, &pr); if (pr != 2) viol("C18", "provided", "provided level lost"); return r; } if (kind == M_FINI) return mon_MPI_Finalize(); return mon_MPI_Comm_rank((void *)comm, rank);
  FV(1, , ) FV(2, , _) FV(3, , __)
  case 4: if (kind == M_INIT) return mon_PMPI_Init(&ac, &av); if (kind == M_INITT) { int r = mon_PMPI_Init_thread(&ac, &av, rq, &pr); if (pr != 2) viol("C18", "provided", "provided level lost"); return r; } if (kind == M_FINI) return mon_PMPI_Finalize(); return mon_PMPI_Comm_rank((void *)comm, rank);
  FV(5, p, ) FV(6, p, _) FV(7, p, __)
  }
  return -1;
}
int app_real_mpi(int kind, int variant, int *argc, char ***argv) {
  AppThread *at = cur->app; ev(E_REALMPI, kind, variant, 0);
  if ((variant == 0 || variant == 4) && kind != M_FINI && (!argc || *argc != 3 || !argv || *argv != g_argv)) viol("C18", "mpi-args", "arguments of MPI init changed");
  int ret = 0; compute(1500);
  if (at->mpi_nest >= 0) { int n = at->mpi_nest & 15; at->mpi_nest >>= 4; if (!at->mpi_nest || n == variant) at->mpi_nest = -1; if (n != variant) ret = call_mpi(kind, n, 0, nullptr); }
  if (at->mpi_rank_inside && kind != M_FINI) { at->mpi_rank_inside = false; int r = -5; call_mpi(9, 0, 7, &r); }
  if (!ret && fault(FK_MPI, 0.1)) ret = 13;
  ev(E_REALMPI, kind, variant, 1, ret); return ret;
}
int app_real_comm(int which, long comm, int *out) { point0(); if (fault(FK_MPI, 0.05)) { ev(E_REALMPI, 20 + which, comm, 1, 13); return 13; } *out = which ? (int)comm * 10 + 3 : (int)comm * 100 + 8; ev(E_REALMPI, 20 + which, comm, 1, 0); return 0; }

// ------------------------------------------------------------ execs
static const char *targets[] = {"/bin/true", "/usr/bin/prog", "prog", "tool", "data", "late", "nope", "/nope/x", "/opt/a/data", "here", "./here", "fallback", ""};
enum { NTGT = 13 };
static std::vector<std::string> envlist(bool strip) { std::vector<std::string> v; for (char **e = sim_environ; *e; e++) if (!strip || strncmp(*e, "LD_PRELOAD=", 11)) v.push_back(*e); return v; }
#define A10(b) , A[b], A[b + 1], A[b + 2], A[b + 3], A[b + 4], A[b + 5], A[b + 6], A[b + 7], A[b + 8], A[b + 9]
#define A140 A10(1) A10(11) A10(21) A10(31) A10(41) A10(51) A10(61) A10(71) A10(81) A10(91) A10(101) A10(111) A10(121) A10(131)
#define A280 A140 A10(141) A10(151) A10(161) A10(171) A10(181) A10(191) A10(201) A10(211) A10(221) A10(231) A10(241) A10(251) A10(261) A10(271)
static void do_exec_op(const Op &o) {
  int form = o.a % 6, nargs = o.c % 270; const char *path = targets[o.b % NTGT]; bool p = form == 1 || form == 4; bool hasenv = form == 2 || form == 5;
  static char strs[280][12]; char *A[290]; char *ENV[7] = {(char *)"A=1", (char *)"LD_PRELOAD=libmonitor.so", (char *)"LD_LIBRARY_PATH=/l", (char *)"XLD_PRELOAD=keep", (char *)"B=LD_PRELOAD=2", (char *)"Z=", nullptr};
  if (nargs < 1) nargs = 1;
  for (int i = 0; i < nargs; i++) { snprintf(strs[i], 12, "arg%d", i); A[i] = strs[i]; }
  A[nargs] = nullptr; A[nargs + 1] = (char *)ENV; for (int i = nargs + 2; i < 290; i++) A[i] = (char *)"trailing";
  AppThread *at = cur->app; ExpExec &x = at->ex; x = ExpExec(); x.on = true; x.ver = dispver; x.path = path; x.search = p; x.mask = cur->mask; x.system = x.client = false;
  for (int i = 0; i < nargs; i++) x.argv.push_back(A[i]);
  if (hasenv) { for (int i = 0; ENV[i]; i++) x.envp.push_back(ENV[i]); } else x.envp = envlist(false);
  int st = p ? path_search_state(path) : file_state_pub(path);
  push_op(O_EXEC, form, o.b % NTGT, st); errno = 0; int r = -9; AP.nexec++;
  switch (form) {
  case 0: r = mon_execl(path, A[0] A280); break;
  case 1: r = mon_execlp(path, A[0] A280); break;
  case 2: r = mon_execle(path, A[0] A280); break;
  case 3: r = mon_execv(path, A); break;
  case 4: r = mon_execvp(path, A); break;
  case 5: r = mon_execve(path, A, ENV); break;
  }
  int e = errno; x.on = false; AP.nexec--;
  pop_op(O_EXEC, r, st, e);
  if (r != -1) viol("C11", "exec-ret", "failed exec returned %d", r);
  int want = st == 0 ? ENOENT : st == 1 ? EACCES : E2BIG;
  if (e != want) viol("C11", "exec-errno", "failed exec of \"%s\": errno %d, expected %d", path, e, want);
}
static void do_realexec(const Op &o) {
  const char *path = targets[o.b % NTGT]; char *A[] = {(char *)"x", (char *)"y", nullptr}; AppThread *at = cur->app; ExpExec &x = at->ex; x = ExpExec(); x.on = true; x.ver = dispver; x.path = path; x.mask = cur->mask; x.argv = {"x", "y"}; x.client = true;
  char *ENV[] = {(char *)"A=1", (char *)"LD_PRELOAD=libmonitor.so", (char *)"LD_LIBRARY_PATH=/l", (char *)"XLD_PRELOAD=keep", (char *)"B=LD_PRELOAD=2", (char *)"Z=", nullptr}; char **env = sim_environ;
  if (o.c & 1) { env = ENV; x.envp = {"A=1", "LD_LIBRARY_PATH=/l", "XLD_PRELOAD=keep", "B=LD_PRELOAD=2", "Z="}; } else x.envp = envlist(true);
  int nul = (o.c >> 1) == 7 ? 1 + o.b % 3 : 0; if (nul) x.path = "(null)";
  push_op(O_REALEXEC, nul, o.b % NTGT, file_state_pub(path)); errno = 0; AP.nexec++; int r = monitor_real_execve(nul == 1 ? nullptr : path, nul == 2 ? nullptr : A, nul == 3 ? nullptr : env); int e = errno; AP.nexec--; x.on = false; pop_op(O_REALEXEC, r, 0, e); (void)e;
  if (r != -1) viol("C11", "realexec-ret", "failed exec returned %d", r);
}
static const char *cmds[] = {"exit 3", "exit 0", "kill 9", "exit 77", "kill 15"};
static void sys_restored(const char *how) {
  if (AP.nsystem == 0 && AP.sa_intquit == 0 && AP.nexec == 0) for (int s : {SIGINT, SIGQUIT}) { KAct &b = s == SIGINT ? AP.sysint : AP.sysquit; if (AP.fini_begun && kact[s].h == (void *)SIG_DFL) continue; /* the process is dying from this signal */ if (b.h != kact[s].h || b.mask != kact[s].mask || b.flags != kact[s].flags) viol("C12", "disp-not-restored", "disposition of signal %d not restored after system()%s", s, how); }
}
static void do_system(const Op &o, bool client) {
  AppThread *at = cur->app; const char *cmd = cmds[o.a % 5]; int code = client ? O_REALSYSTEM : O_SYSTEM; bool real = !client && C.knob[K_NOSYS];
  ExpExec &x = at->ex; x = ExpExec(); x.on = true; x.ver = dispver; x.system = true; x.client = client; x.path = "/bin/sh"; x.argv = {"sh", "-c", cmd}; x.envp = envlist(client); x.mask = cur->mask;
  push_op(code, o.a % 5, real, 0);
  if (AP.nsystem++ == 0) { AP.sysint = kact[SIGINT]; AP.sysquit = kact[SIGQUIT]; AP.sa_intquit = AP.sa_busy + AP.nexec; }
  at->waited = false; at->lastwait = -1; at->lastwait_eintr = false; at->forkfail = false; at->forked = 0;
  int r = client ? monitor_real_system(cmd) : mon_system(cmd);
  x.on = false; AP.nsystem--; if (AP.nexec) AP.nsysend = true;
  if (real) { if (r != 3 << 8) viol("C12", "nosys-ret", "result of the real system() changed: %x", r); }
  else {
    int want = at->forkfail ? -1 : at->waited ? at->lastwait : -2;
    if (want == -2) viol("C12", "no-wait", "system() returned without waiting for its child");
    else { if (at->lastwait_eintr && !at->forkfail) viol("C12", "eintr", "system() gave up after an interrupted wait"); if (r != want) viol("C12", "status", "system() returned %x, wait status was %x", r, want); }
    sys_restored("");
  }
  pop_op(code, r, at->forked);
}

static void system_cut() { cur->app->ex.on = false; AP.nsystem--; if (AP.nexec) AP.nsysend = true; sys_restored(" that was cancelled"); } // a cancel inside system()

// ------------------------------------------------------------ thread programs
struct Ret { bool ended; i64 val; };
static Ret run_ops(const std::vector<Op> &ops, bool ismain);
static void tsd_dtor(void *v) { AppThread *at = cur->app; ev(E_TSD_DTOR, (i64)v & 0xff); at->in_dtor = true; check_query("tsd destructor"); point0(); check_query("tsd destructor 2"); }
static std::vector<Op> tiny = {{O_QUERY, 0, 0, 0}, {O_COMPUTE, 700, 0, 0}, {O_QUERY, 0, 0, 0}};
static std::vector<Op> tinyblk = {{O_COMPUTE, 300, 0, 0}, {O_BLOCKSD, 0, 1, 0}}; // ends with shootdown blocked
static void *start_body(void *arg, void *ra) {
  StartArg *sa = (StartArg *)arg; AppThread *at = cur->app; bool ok = arg && sa->magic == 0x57a27a26 && sa->at == at;
  ev(E_APP_START, at->slot, ok, at->ignored, sa && ok ? sa->runs : 0);
  if (!ok) { viol("C13", "start-arg", "start routine called with a wrong argument (thread %d)", cur_tid()); return nullptr; }
  if (sa->runs++) viol("C13", "start-twice", "start routine ran twice");
  at->started = true;
  if (AP.probed && (cur->mask ^ at->create_mask) & ~(SB(32) | SB(33))) viol("C13", "start-mask", "thread %d starts with mask %llx, creator had %llx", cur_tid(), (long long)cur->mask, (long long)at->create_mask);
  int nar = monitor_in_start_func_narrow(ra), wid = monitor_in_start_func_wide(ra), bot = monitor_unwind_thread_bottom_frame(ra), pb = monitor_unwind_process_bottom_frame(ra), self = monitor_in_start_func_wide((void *)start_body);
  if (at->ignored) { if (nar || wid || bot) viol("C14", "fence-ignored", "unmonitored thread looks monitored at its bottom frame"); }
  else if (!nar || !wid || !bot || pb || self) viol("C14", "fence-thread", "bottom frame tests: narrow=%d wide=%d thread-bottom=%d process-bottom=%d app=%d", nar, wid, bot, pb, self);
  Ret r = run_ops(at->prog == -2 ? tiny : at->prog == -3 ? tinyblk : C.progs[at->prog].ops, false);
  i64 v = r.ended ? 0x7000 + r.val : 0x6000 + at->slot;
  at = cur->app; ev(E_APP_END, 0, v); at->ended = true; at->end_set = true; at->end_val = v; return (void *)v;
}
template <int K> __attribute__((noinline)) static void *start_k(void *a) { return start_body(a, __builtin_return_address(0)); }
typedef void *(*startfn)(void *);
static startfn starts[] = {start_k<0>, start_k<1>, start_k<2>, start_k<3>, start_k<4>};
X __attribute__((noinline)) int sim_call_create(pthread_t *th, const pthread_attr_t *a, void *(*f)(void *), void *arg) { int r = mon_pthread_create(th, a, f, arg); asm volatile("" ::: "memory"); return r + 0; }
static int do_create(int slot, int prog, int flags, int stackkb) {
  AP.created++; if (!AP.init_done) flags &= ~16; // the client cannot disable threads before it has been initialised
  AppThread *at = cur->app; CreateCtx cc = CreateCtx(); cc.slot = slot; cc.prog = prog; cc.flags = flags; cc.reqstack = 8388608; cc.reqguard = 4096; cc.mask = cur->mask; cc.start = starts[slot % 5];
  cc.ign_pre = flags & 8; cc.ign_disable = flags & 16; cc.ign_creator = at->ignored; cc.envcancel = (flags & 32) && C.knob[K_ACANCEL]; cc.shared = flags & 4; cc.attrfaults = S->faults[FK_ATTR];
  StartArg *sa = new StartArg{0x57a27a26, slot, prog, nullptr, 0}; cc.sarg = sa;
  pthread_attr_t attr, *ap = nullptr; bool own = false; u64 before[7] = {0}; 
  static const size_t sizes[] = {65536, 131072, 1048576};
  if (flags & 4) { if (!shared_attr_made) { memset(&shared_attr, 0, sizeof shared_attr); if (sim_pthread_attr_init(&shared_attr) == 0) shared_attr_made = true; } if (shared_attr_made) { ap = &shared_attr; cc.reqstack = 8388608; } else cc.shared = false; }
  else if (flags & 2) { memset(&attr, 0, sizeof attr); if (sim_pthread_attr_init(&attr) == 0) { own = true; ap = &attr; ((AttrView *)ap)->stack = sizes[stackkb % 3]; cc.reqstack = sizes[stackkb % 3]; if (flags & 1) { ((AttrView *)ap)->detach = 1; cc.reqdetach = 1; } if (stackkb & 4) { ((AttrView *)ap)->guard = 0; cc.reqguard = 0; } } }
  if (ap) memcpy(before, ap, sizeof(pthread_attr_t) < 56 ? sizeof(pthread_attr_t) : 56);
  cc.attrfaults = S->faults[FK_ATTR];
  if (flags & 16) monitor_disable_new_threads();
  push_op(O_CREATE, slot, flags, (cc.ign_disable || cc.ign_creator) ? 1 : 0);
  at->cc = &cc; pthread_t th = (pthread_t)0x1; u64 m0 = cur->mask;
  int r = sim_call_create(&th, ap, cc.start, sa);
  at->cc = nullptr;
  if (flags & 16) monitor_enable_new_threads();
  if (!cc.realcalled) viol("C13", "no-real-create", "pthread_create did not call the real one");
  else if (r != cc.realret) viol("C13", "create-ret", "pthread_create returned %d, the real call %d", r, cc.realret);
  if (r == 0 && cc.realcalled && (Thread *)th != cc.made) viol("C13", "create-id", "wrong thread id stored");
  if (cc.attr_live) viol("C13", "attr-leak", "%d attribute objects left behind", cc.attr_live);
  if (ap && !cc.shared && memcmp(before, ap, 56)) viol("C13", "attr-changed", "the caller's attribute object changed");
  if (cur->mask != m0) viol("C13", "create-mask", "pthread_create changed the caller's mask");
  if (own) sim_pthread_attr_destroy(&attr);
  if (r == 0 && slot >= 0 && slot < (int)slots.size()) { slots[slot].t = cc.made; slots[slot].created = true; slots[slot].detached = cc.reqdetach; }
  pop_op(O_CREATE, r, cc.made ? cc.made->id : -1, cc.made && cc.newat ? cc.newat->ignored : -1);
  return r;
}
static void do_join(int slot) {
  if (slot < 0 || slot >= (int)slots.size()) return; Slot &s = slots[slot]; if (!s.created || s.joined || s.detached || s.t == cur) return;
  Thread *t = s.t; s.joined = true; push_op(O_JOIN, slot, t->id, 0); void *rv = nullptr; sim_pthread_join((pthread_t)t, &rv); AppThread *a = t->app;
  if (a && a->started && a->end_set && (i64)rv != a->end_val && !(t->end_kind == 2 && C.knob[K_DEBUG])) /* debug output is a cancellation point */ viol("C13", "join-value", "thread %d ended with %llx, join got %llx", t->id, (long long)a->end_val, (long long)(i64)rv);
  pop_op(O_JOIN, (i64)rv, a ? a->started : -1);
}
// the client's own mask calls: nothing is filtered
static void do_realmask(int how, int sel, int api) {
  u64 m0 = cur->mask, U = ~(SB(32) | SB(33) | SB(SIGKILL) | SB(SIGSTOP)), set = maskset(sel); int h = how & 1 ? SIG_SETMASK : SIG_BLOCK; if (h == SIG_SETMASK) set |= m0; sigset_t s, o; to_sigset(set, &s); memset(&o, 0x33, sizeof o);
  auto f = [&](const sigset_t *n, sigset_t *old, int hh) { return api & 1 ? monitor_real_sigprocmask(hh, n, old) : monitor_real_pthread_sigmask(hh, n, old); };
  push_op(O_MASK, how, sel, api); int r = f(&s, &o, h); u64 m1 = cur->mask;
  if (r != 0 || ((m1 ^ (m0 | set)) & U)) viol("C08", "client-mask", "the client's mask call returned %d, mask is %llx after adding %llx to %llx", r, (long long)m1, (long long)set, (long long)m0);
  if (from_sigset(&o) != m0) viol("C08", "client-mask-old", "the client's mask call reports %llx, was %llx", (long long)from_sigset(&o), (long long)m0);
  to_sigset(m0, &s); r = f(&s, nullptr, SIG_SETMASK); if (r != 0 || cur->mask != m0) viol("C08", "client-mask", "the client's mask call returned %d, mask is %llx, asked for %llx", r, (long long)cur->mask, (long long)m0);
  pop_op(O_MASK, r);
}
static void do_mask(int how, int sel, int api) {
  static const int hows[] = {SIG_BLOCK, SIG_UNBLOCK, SIG_SETMASK, 99};
  u64 m0 = cur->mask, K = AP.K0 | AP.Kcert; sigset_t s, o; u64 set = maskset(sel); to_sigset(set, &s); memset(&o, 0x33, sizeof o); int h = hows[how & 3]; bool q = sel == 40;
  push_op(O_MASK, how, sel, api); errno = 0;
  int r = api ? mon_sigprocmask(h, q ? nullptr : &s, &o) : mon_pthread_sigmask(h, q ? nullptr : &s, &o); int e = errno;
  u64 m1 = cur->mask, K2 = K_all(), U = ~(SB(32) | SB(33) | SB(SIGKILL) | SB(SIGSTOP));
  auto want = [&](u64 k) { if (q) return m0; if (h == SIG_BLOCK) return m0 | (set & ~k); if (h == SIG_UNBLOCK) return m0 & ~(set & ~k); return (set & ~k) | (m0 & k); };
  if (h == 99 && !q) { bool bad = api ? !(r == -1 && e == EINVAL) : r != EINVAL; if (bad || m1 != m0) viol("C08", "mask-how", "invalid how: returned %d", r); }
  else {
    if (r != 0) viol("C08", "mask-ret", "mask call returned %d", r);
    if (AP.probed) {
      if ((m1 ^ want(K)) & U & ~(K2 & ~K)) viol("C08", "mask-result", "mask is %llx after how=%d set=%llx from %llx, expected %llx", (long long)m1, h, (long long)set, (long long)m0, (long long)want(K));
      if (from_sigset(&o) != m0) viol("C08", "mask-old", "old mask reported as %llx, was %llx", (long long)from_sigset(&o), (long long)m0);
    }
  }
  pop_op(O_MASK, r);
}
static int disp_of(const struct sigaction *a) {
  if (a->sa_handler == SIG_DFL) return 0; if (a->sa_handler == SIG_IGN) return 1;
  for (int i = 0; i < 10; i++) { if ((void *)a->sa_handler == hp[i]) return (a->sa_flags & SA_SIGINFO) ? 250 : 10 + i; if ((void *)a->sa_handler == hi[i]) return (a->sa_flags & SA_SIGINFO) ? 50 + i : 251; }
  return 255;
}
static void fill_act(struct sigaction *a, int disp, int sel) {
  memset(a, 0, sizeof *a); int d = disp; if (d == 0) a->sa_handler = SIG_DFL; else if (d == 1) a->sa_handler = SIG_IGN; else if (d >= 50) { a->sa_sigaction = (void (*)(int, siginfo_t *, void *))hi[(d - 50) % 10]; a->sa_flags = SA_SIGINFO; } else a->sa_handler = (sighandler_t)hp[(d - 10) % 10];
  if (sel & 1) a->sa_flags |= SA_RESTART; if (nodefer(sel)) a->sa_flags |= SA_NODEFER; to_sigset(maskset(sel), &a->sa_mask);
}
static bool bad_sig(int s, bool set) { return s < 1 || s > 64 || s == 32 || s == 33 || (set && (s == SIGKILL || s == SIGSTOP)); }
static void do_sigact(const Op &o) {
  int sig = o.a; if (maybe_shoot(sig)) return; struct sigaction a, old; memset(&old, 0x77, sizeof old); int sel = o.c % 12; bool query = o.b < 0; bool viasig = o.code == O_SIGNAL;
  int enc = query ? -1 : (o.b | ((viasig ? 15 : sel) << 8)); if ((o.b == 0 || o.b == 1) && !query && !viasig) enc = o.b | (sel << 8);
  if (!query && !viasig) { u64 X_ = ~(SB(SIGKILL) | SB(SIGSTOP) | SB(32) | SB(33)); for (int i = 0; i <= sel; i++) if ((maskset(i) & X_) == (maskset(sel) & X_) && (i & 1) == (sel & 1) && nodefer(i) == nodefer(sel)) { enc = o.b | (i << 8); break; } }
  if (sig == SIGINT || sig == SIGQUIT) { AP.sa_intquit++; AP.sa_busy++; }
  bool ovl = false; u32 myver = 0; if (sig >= 0 && sig < 65 && !query) { if (dispbusy[sig]) ovl = dispamb[sig] = true; dispbusy[sig]++; myver = displast[sig] = ++dispver; }
  push_op(o.code, sig, enc, AP.nsystem > 0); errno = 0; int r, od = -5;
  if (viasig) { struct sigaction t; fill_act(&t, o.b, 0); if (o.b >= 50) t.sa_handler = (sighandler_t)hp[(o.b - 50) % 10]; sighandler_t h = mon_signal(sig, t.sa_handler); r = h == SIG_ERR ? -1 : 0; if (!r) { memset(&old, 0, sizeof old); old.sa_handler = h; for (int i = 0; i < 10; i++) if ((void *)h == hi[i]) old.sa_flags = SA_SIGINFO; od = disp_of(&old) | (14 << 8); } }
  else {
    if (!query) fill_act(&a, o.b, sel);
    r = mon_sigaction(sig, query ? nullptr : &a, &old);
    if (!r) { od = disp_of(&old); int fs = -1; u64 m = from_sigset(&old.sa_mask); for (int i = 0; i < 12; i++) { u64 w = maskset(i) & ~(SB(SIGKILL) | SB(SIGSTOP) | SB(32) | SB(33)); if ((m & ~(SB(SIGKILL) | SB(SIGSTOP))) == w && ((old.sa_flags & SA_RESTART) != 0) == (i & 1) && ((old.sa_flags & SA_NODEFER) != 0) == nodefer(i)) { fs = i; break; } } od |= (fs < 0 ? 13 : fs) << 8; }
  }
  int e = errno; bool bad = bad_sig(sig, !query || viasig);
  if (bad) { if (r != -1 || e != EINVAL) viol("C07", "bad-signal", "%s of signal %d returned %d errno %d", viasig ? "signal" : "sigaction", sig, r, e); }
  else if (r) viol("C07", "sigaction-fails", "sigaction of signal %d failed with errno %d", sig, e);
  if (!bad && !query && sig != SIGKILL && sig != SIGSTOP) curdisp[sig] = enc;
  if (sig == SIGINT || sig == SIGQUIT) AP.sa_busy--;
  if (sig >= 0 && sig < 65 && !query) { dispbusy[sig]--; if (displast[sig] != myver) ovl = true; displast[sig] = ++dispver; dispamb[sig] = ovl || dispbusy[sig]; }
  pop_op(o.code, r, od, sig);
}
static void do_sigwait(const Op &o) {
  u64 set = maskset(o.b); sigset_t s, old; to_sigset(set, &s); u64 K = K_all(); (void)K;
  u64 m0 = cur->mask; mon_pthread_sigmask(SIG_BLOCK, &s, &old); u64 mb = cur->mask;
  struct timespec ts = {o.c / 1000, (o.c % 1000) * 1000000L}; siginfo_t si; memset(&si, 0, sizeof si); int sg = -1, r, e; bool noinfo = o.a == 3;
  push_op(O_SIGWAIT, o.a, o.b, o.c); errno = 0;
  if (o.a == 0) { r = mon_sigwait(&s, &sg); e = r; if (r == 0) r = sg; else { r = -1; } }
  else if (o.a == 1) { r = mon_sigwaitinfo(&s, &si); e = errno; }
  else { r = mon_sigtimedwait(&s, noinfo ? nullptr : &si, &ts); e = errno; }
  i64 ck = (r > 0 && (o.a == 1 || o.a == 2)) ? (i64)si.si_value.sival_ptr : -1;
  if (r > 0 && o.a != 0 && !noinfo && si.si_signo != r) viol("C09", "siginfo", "sigwait returned %d with info of %d", r, si.si_signo);
  if (cur->mask != mb) viol("C08", "sigwait-mask", "sigwait changed the mask");
  pop_op(O_SIGWAIT, r, ck, e);
  mon_pthread_sigmask(SIG_SETMASK, &old, nullptr); (void)m0;
}
extern "C" int sim_conf_shoot;
static void probe_mask() {
  if (AP.probed) return; sigset_t all, old; memset(&all, 0xff, sizeof all); u64 m0 = cur->mask, m;
  for (;;) { // again if the client registers a signal meanwhile
    while (AP.csigbusy) compute(50); u64 k = AP.Kclient; mon_pthread_sigmask(SIG_SETMASK, &all, &old); m = cur->mask; mon_pthread_sigmask(SIG_SETMASK, &old, nullptr); if (AP.Kclient == k) break; cur->mask = m0; check_signals();
  }
  u64 U = ~(SB(32) | SB(33) | SB(SIGKILL) | SB(SIGSTOP)); u64 open = ~m & U, list = 0; for (int i = 0; sim_client_list[i]; i++) list |= SB(sim_client_list[i]);
  u64 known = list | AP.Kclient; u64 extra = open & ~known; ev(E_PROBEMASK, open, m0, cur->mask);
  if ((cur->mask ^ m0) & U) viol("C08", "probe-restore", "mask not restored");
  if ((list | AP.Kcert) & ~open & ~m0) viol("C08", "client-blocked", "a client signal can be blocked by the application: %llx", (long long)(known & ~open));
  int want = env_shoot();
  if (!want) want = sim_conf_shoot;
  AP.shoot = 0;
  if (want) { AP.shoot = want; if (!((open | m0) & SB(want))) viol("C08", "shoot-env", "the shootdown signal %d named by the environment can be blocked", want); if (extra & ~SB(want)) viol("C08", "extra-open", "other signals are kept open: %llx", (long long)(extra & ~SB(want))); }
  else {
    if (__builtin_popcountll(extra) == 0) { viol("C08", "no-shoot", "no signal is kept open for shootdown that the client does not hold"); }
    else if (__builtin_popcountll(extra) > 1) viol("C08", "extra-open", "more than one extra signal is kept open: %llx", (long long)extra);
    if (extra) AP.shoot = __builtin_ctzll(extra) + 1;
  }
  S->shoot = AP.shoot; AP.K0 = list | (AP.shoot ? SB(AP.shoot) : 0); AP.probed = true;
}
static void app_atexit_fn(int id) { ev(E_ATEXIT_RUN, id); if (id & 1) compute(3000); }
static void sample_sr() { u32 c0 = sr_ops, v0 = sr_ver; int s = monitor_mpi_comm_size(), r = monitor_mpi_comm_rank(); ev(E_SR, s, r, c0 + sr_ops + (sr_ver - v0)); }
extern "C" int sim_is_dynamic;
static Ret run_ops(const std::vector<Op> &ops, bool ismain) {
  for (size_t i = 0; i < ops.size(); i++) {
    const Op &o = ops[i]; AppThread *at = cur->app; u64 m0 = cur->mask; point0();
    switch (o.code) {
    case O_COMPUTE: compute(o.a); break;
    case O_IO: S->opcount[O_IO]++; io(o.a); break;
    case O_YIELD: for (int k = 0; k < 6; k++) point0(); break;
    case O_TESTCANCEL: sim_pthread_testcancel(); break;
    case O_CREATE: if (o.a < (int)slots.size() && !slots[o.a].created) { slots[o.a].prog = o.a; do_create(o.a, o.a, o.b, o.c); } break;
    case O_JOIN: do_join(o.a); break;
    case O_CANCEL: if (o.a >= 0 && o.a < (int)slots.size()) { Slot &s = slots[o.a]; if (s.created && !s.joined && !s.detached) { push_op(O_CANCEL, o.a, 0, 0); sim_pthread_cancel((pthread_t)s.t); pop_op(O_CANCEL); } } break;
    case O_DETACH: if (o.a >= 0 && o.a < (int)slots.size()) { Slot &s = slots[o.a]; if (s.created && !s.joined && !s.detached) { s.detached = true; sim_pthread_detach((pthread_t)s.t); } } break;
    case O_KILLT: { if (!(safe_sig(o.b) || (o.c == 1 && o.b != AP.shoot && AP.probed))) break; Thread *t = nullptr; if (o.a < 0) t = threads[AP.main_tid]; else if (o.a < (int)slots.size()) { Slot &s = slots[o.a]; if (s.created && !s.joined && !s.detached) t = s.t; } if (t && !t->freed && !t->detached) { push_op(O_KILLT, o.a, o.b, t->id); at->sending++, at->senddep = cur_depth(); sim_pthread_kill((pthread_t)t, o.b); at->sending--; pop_op(O_KILLT); } break; }
    case O_RAISE: if (safe_sig(o.b) || (o.c == 1 && o.b != AP.shoot && AP.probed)) { push_op(O_RAISE, 0, o.b, cur_tid()); at->sending++, at->senddep = cur_depth(); sim_raise(o.b); at->sending--; pop_op(O_RAISE); } break;
    case O_KILLP: if (safe_sig(o.b) || (o.c == 1 && o.b != AP.shoot && AP.probed)) { push_op(O_KILLP, 0, o.b, 0); at->sending++, at->senddep = cur_depth(); sim_kill(1000 + PIDX, o.b); at->sending--; pop_op(O_KILLP); } break;
    case O_SIGACT: case O_SIGNAL: do_sigact(o); break;
    case O_MASK: if (o.c >= 2) do_realmask(o.a, o.b % 12, o.c); else do_mask(o.a, o.b, o.c); m0 = cur->mask; break;
    case O_SIGWAIT: do_sigwait(o); break;
    case O_FORK: {
      if (AP.exit_begun || at->blocked_sd) break; push_op(O_FORK, o.a, o.b, 0); errno = 0; pid_t p = o.b ? mon_vfork() : mon_fork(); int e = errno;
      if (p == 0) { ev(E_OP_END, O_FORK, 0, 0, 0); at->ops.clear(); if (AP.init_done) { check_query("fork child"); check_newinfo("fork child"); } if (o.a >= 0) { if (cur->mask != m0) viol("C08,C10", "fork-mask", "mask changed in the child"); return run_ops(C.progs[o.a].ops, ismain); } }
      else pop_op(O_FORK, p, 0, e);
      break; }
    case O_REALFORK: { if (AP.exit_begun || at->blocked_sd) break; push_op(O_REALFORK, o.a, 0, 0); pid_t p = monitor_real_fork(); if (p == 0) { at->ops.clear(); if (o.b) { Op x{O_REALEXEC, 0, 0, o.b}; do_realexec(x); } push_op(O_REALEXIT, o.a, 0, 0); monitor_real_exit(o.a); } pop_op(O_REALFORK, p); break; }
    case O_WAIT: { push_op(O_WAIT, 0, 0, 0); for (int k = 0; k < 20; k++) { int st; if (sim_waitpid(-1, &st, 0) < 0 && errno == ECHILD) break; } pop_op(O_WAIT); break; }
    case O_SYSTEM: do_system(o, false); break;
    case O_REALSYSTEM: do_system(o, true); break;
    case O_SYSNULL: { push_op(O_SYSNULL, 0, 0, 0); int r = o.a ? monitor_real_system(nullptr) : mon_system(nullptr); int want = file_state_pub("/bin/sh") == 2; if (!C.knob[K_NOSYS] || o.a) if ((r != 0) != want) viol("C12", "null-command", "system(NULL) returned %d, shell available: %d", r, want); pop_op(O_SYSNULL, r); break; }
    case O_EXEC: if (!AP.nsystem) do_exec_op(o); break;
    case O_REALEXEC: if (!AP.nsystem) do_realexec(o); break;
    case O_EXIT: push_op(O_EXIT, o.a, 0, 0); mon_exit(o.a); break;
    case O_UEXIT: push_op(O_UEXIT, o.a, 0, 0); mon__exit(o.a); break;
    case O_UUEXIT: push_op(O_UEXIT, o.a, 0, 0); if (sim_is_dynamic) mon__Exit(o.a); else mon__exit(o.a); break;
    case O_PEXIT: push_op(O_PEXIT, o.a, 0, 0); if (!at->ismain || PIDX || ismain) { ev(E_APP_END, 1, 0x5000 + o.a); at->end_set = true; at->end_val = 0x5000 + o.a; at->ended = true; } mon_pthread_exit((void *)(0x5000L + o.a)); break;
    case O_RET: return {true, o.a};
    case O_SEGV: if ((curdisp[SIGSEGV] & 255) < 10 || (curdisp[SIGSEGV] & 15) == 0) { push_op(O_SEGV, 0, SIGSEGV, cur_tid()); int h0 = at->segvh; for (int k = 0; k < 2 && at->segvh == h0; k++) sync_signal(SIGSEGV, next_cookie++, 1); pop_op(O_SEGV); } break;
    case O_KEYSET: if (!app_key_made) { pthread_key_t nk; sim_pthread_key_create(&nk, tsd_dtor); if (!app_key_made) { app_key = nk; app_key_made = true; } } sim_pthread_setspecific(app_key, (void *)(0x900L + (at->slot & 15))); break;
    case O_ATEXIT: ev(E_OP, O_ATEXIT, o.a); add_app_atexit(app_atexit_fn, o.a); break;
    case O_DLOPEN: { const char *p = o.a < 0 ? nullptr : dlpaths[o.a % 4]; push_op(O_DLOPEN, o.a < 0 ? -1 : o.a % 4, o.b, 0); void *h = mon_dlopen(p, o.b); pop_op(O_DLOPEN, (i64)h); break; }
    case O_DLCLOSE: { void *h = handles.empty() || o.a < 0 ? (void *)0xbad : handles[o.a % handles.size()]; push_op(O_DLCLOSE, (int)(i64)h, 0, 0); int r = mon_dlclose(h); pop_op(O_DLCLOSE, r, (i64)h); break; }
    case O_REALDLOPEN: { const char *p = dlpaths[(o.a & 0xff) % 4]; push_op(O_REALDLOPEN, (o.a & 0xff) % 4, o.b, 0); void *h = monitor_real_dlopen(p, o.b); int r = -1; if (h) r = monitor_real_dlclose(h); pop_op(O_REALDLOPEN, (i64)h, r); break; }
    case O_MPI: {
      int v = o.a & 7, k = o.b; if (v >= 4 && !sim_is_dynamic) v -= 4; if (k != 9 && AP.mpi_busy) break; if (k == 9) { sr_ops++; sr_ver++; } else AP.mpi_busy++;
      if (k == 9) { push_op(O_MPI, v, k, o.c); int rank = -55; int r = call_mpi(9, v, o.c, &rank); sr_ops--; sr_ver++; pop_op(O_MPI, r, rank, o.c); sample_sr(); if (r == 0 && rank != o.c * 10 + 3) viol("C18", "rank-lost", "MPI_Comm_rank result changed"); }
      else { at->mpi_nest = o.c > 0 ? o.c & 0xff : -1; if (at->mpi_nest >= 0 && !sim_is_dynamic) at->mpi_nest &= 0x33; at->mpi_rank_inside = (o.c & 0x100) != 0; push_op(O_MPI, v, k, at->mpi_nest); int r = call_mpi(k, v, 0, nullptr); at->mpi_nest = -1; AP.mpi_busy--; pop_op(O_MPI, r, 0, 0); sample_sr(); }
      break; }
    case O_SETSR: push_op(O_SETSR, o.a, o.b, 0); sr_ops++; sr_ver++; monitor_set_size_rank(o.a, o.b); sr_ops--; sr_ver++; pop_op(O_SETSR); sample_sr(); break;
    case O_BCAST: if (safe_sig(o.a)) do_bcast(o.a); break;
    case O_BLOCKSD: do_blocksd(o.a, o.b == 1); break;
    case O_UNRESP: if (!at->blocked_sd && !at->sd_busy) { push_op(O_UNRESP, 0, 0, 0); at->sd_busy = true; int r = monitor_block_shootdown(); ev(E_OP_END, O_BLOCKSD, r, 1); at->blocked_sd = true; at->sd_busy = false; compute(60000000); at->blocked_sd = false; monitor_unblock_shootdown(); pop_op(O_UNRESP); } break;
    case O_QUERY: check_query("app"); check_newinfo("app"); break;
    case O_CSIGACT: do_csigact(o.a, o.b, o.c); break;
    case O_SETCANCEL: sim_pthread_setcancelstate(o.a ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE, nullptr); break;
    case O_REALEXIT: push_op(O_REALEXIT, o.a, 0, 0); monitor_real_exit(o.a); break;
    case O_REALABORT: push_op(O_REALABORT, 0, 0, 0); monitor_real_abort(); break;
    case O_INITIALIZE: push_op(O_INITIALIZE, 0, 0, 0); monitor_initialize(); pop_op(O_INITIALIZE); break;
    case O_STOPSELF: { static const int ss[] = {SIGTSTP, SIGTTIN, SIGTTOU}; int sg = ss[o.a % 3]; if (curdisp[sg] != 0) break; push_op(O_RAISE, 0, sg, cur_tid()); at->sending++, at->senddep = cur_depth(); sim_raise(sg); at->sending--; pop_op(O_RAISE); } break;
    case O_MANY: {
      push_op(O_MANY, o.a, o.b, 0); int n = o.a, par = (o.b & 1) ? 6 : 1; std::vector<int> *b = new std::vector<int>();
      for (int k = 0; k < n; k++) { int s = slots.size(); slots.push_back(Slot()); at->createfail = o.b & 16; do_create(s, o.b & 8 ? -3 : -2, (o.b & 2) && (k % 3) ? 8 : (o.b & 4) && (k % 3) ? 16 : 0, 0); b->push_back(s); if ((int)b->size() >= par) { for (int s2 : *b) do_join(s2); b->clear(); } }
      for (int s2 : *b) do_join(s2); cur->app->createfail = false; pop_op(O_MANY); break; }
    default: break;
    }
    at = cur->app;
    if (AP.probed && o.code != O_SIGWAIT && cur->mask != m0) viol(o.code == O_SYSTEM || o.code == O_REALSYSTEM ? "C12" : o.code == O_EXEC || o.code == O_REALEXEC ? "C11" : o.code == O_FORK ? "C08,C10" : "C08", "mask-drift", "operation %s changed the caller's mask from %llx to %llx", op_names[o.code], (long long)m0, (long long)cur->mask);
  }
  return {false, 0};
}
X __attribute__((noinline)) int sim_main(int argc, char **argv, char **) {
  void *ra = __builtin_return_address(0); AppThread *at = cur->app; AP.main_started = true; at->started = true;
  ev(E_MAIN_START, argc, argv == g_argv); if (argc != 3 || argv != g_argv) viol("C01", "main-args", "main called with wrong arguments");
  int nar = monitor_in_start_func_narrow(ra), wid = monitor_in_start_func_wide(ra), pb = monitor_unwind_process_bottom_frame(ra), tb = monitor_unwind_thread_bottom_frame(ra);
  if (!nar || !wid || !pb || tb) viol("C14", "fence-main", "bottom frame tests in main: narrow=%d wide=%d process=%d thread=%d", nar, wid, pb, tb);
  probe_mask();
  Ret r = run_ops(C.progs[0].ops, true);
  int v = r.ended ? r.val : 0; ev(E_MAIN_END, 0, v); cur->app->ended = true; return v;
}
X void sim_run_lib_fini() { for (initfn *f = __start_lib_fini_array; f && f < __stop_lib_fini_array; f++) if (*f) (*f)(); }
static void run_lib_init() { for (initfn *f = __start_lib_init_array; f && f < __stop_lib_init_array; f++) if (*f) (*f)(); }
void app_main_thread() {
  if (sim_is_dynamic && !C.knob[K_EARLYFIRST]) run_lib_init();
  if (!C.early.empty()) run_ops(C.early, true);
  if (sim_is_dynamic && C.knob[K_EARLYFIRST]) run_lib_init();
  if (sim_is_dynamic) mon___libc_start_main(sim_main, 3, g_argv, nullptr, nullptr, nullptr, nullptr);
  else { int r = mon_main(3, g_argv, sim_environ); libc_exit(r); }
}
static const char *sdenv[] = {nullptr, "45", "12", "9", "garbage", "20", "0", "-3", "64", "65", "10", "19", "32", "33", " 44", "99999999999", "36", "37"};
int n_sdenv() { return sizeof sdenv / sizeof *sdenv; }
void app_setup() {
  std::vector<std::string> env = {"HOME=/root", "TERM=x"};
  switch (C.knob[K_PATHMODE]) {
  case 0: env.push_back("PATH=/bin:/usr/bin"); break;
  case 1: env.push_back("PATH=/opt/a:/opt/b:/usr/bin"); break;
  case 2: break;
  case 3: env.push_back("PATH="); break;
  case 4: env.push_back("PATH=:/usr/bin"); break;
  case 5: env.push_back("PATH=/" + std::string(5000, 'q') + ":/usr/bin:/opt/b"); break;
  case 6: env.push_back("PATH=/opt/a::/opt/b"); break;
  case 7: env.push_back("PATH=/opt/b:/usr/bin:"); break;
  case 8: env.push_back("PATH=/" + std::string(4088, 'r') + ":/usr/bin:/opt/b"); break;
  }
  if (C.knob[K_PRELOAD]) { env.push_back("LD_PRELOAD=libmonitor.so:libclient.so"); env.push_back("MY_LD_PRELOAD_X=1"); env.push_back("LD_LIBRARY_PATH=/l"); env.push_back("LD_PRELOAD_X=2"); env.push_back("LD=3"); env.push_back("NOTE=set LD_PRELOAD first"); }
  if (C.knob[K_ENVBIG]) for (int i = 0; i < (C.knob[K_ENVBIG] > 40 ? 460 : 235) + C.knob[K_ENVBIG]; i++) { char b[32]; snprintf(b, sizeof b, "E%d=%d", i, i * 3); env.push_back(b); }
  if (C.knob[K_DEBUG]) env.push_back("MONITOR_DEBUG=1");
  if (C.knob[K_NOSYS]) env.push_back("MONITOR_NO_SYSTEM_OVERRIDE=1");
  const char *sd = sdenv[C.knob[K_SDENV] % n_sdenv()]; if (sd) env.push_back(std::string("MONITOR_SHOOTDOWN_SIGNAL=") + sd);
  set_environ(env);
  auto ign = [](int s) { kact[s].h = (void *)SIG_IGN; curdisp[s] = 1; };
  if (C.knob[K_IGNMASK] & 1) ign(SIGHUP);
  if (C.knob[K_IGNMASK] & 2) { ign(SIGINT); ign(SIGQUIT); }
  slots.assign(C.progs.size() + 1, Slot());
}
void app_make_main(Thread *m) { m->app = new AppThread(); m->app->ismain = true; m->app->slot = -1; for (int s = 1; s < 65; s++) if (curdisp[s]) { Thread *sv = cur; cur = m; ev(E_DISP0, s, curdisp[s]); cur = sv; } if (C.knob[K_IGNMASK] & 4) m->mask = SB(SIGUSR1) | SB(SIGTERM); }
void app_child_reset(int ptid) {
  AppThread *at = cur->app; int code = at->ops.empty() ? -1 : at->ops.back().code; at->forked = S->nproc - 1;
  AP.main_tid = ptid; AP.nocb = code != O_FORK; AP.fork_child = true; AP.created = 0; AP.init_begun = AP.init_done = AP.exit_begun = AP.fini_begun = false; AP.mpi_busy = 0; AP.csigbusy = 0;
  if (at->ignored) at->nostack = true;
  at->ismain = true; at->ignored = false; at->fini_begun = at->fini_done = false; at->mtid = 0; at->blocked_sd = at->sd_busy = false; at->disable_depth = 0;
  slots.assign(C.progs.size() + 1, Slot()); if (!AP.nocb) { at->ex.on = false; if (AP.nsystem > 0) AP.sysfork = true; AP.nsystem = 0; AP.nexec = 0; }
  ev(E_DISP0, 0, AP.nocb); for (int s = 1; s < 65; s++) ev(E_DISP0, s, curdisp[s], clihid[s]);
}
bool app_createfail() { return cur && cur->app && cur->app->createfail; }
void app_fork_failed() { if (cur && cur->app) cur->app->forkfail = true; }
void app_forked(int np) { if (cur && cur->app) cur->app->forked = 1000 + np; }
