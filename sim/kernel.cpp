// Simulated kernel: coroutine threads, seeded scheduler, virtual clock,
// signals, cancellation, process life.  Everything nondeterministic is a
// choice (see choose()).
#include "sim.h"
#include "klocal.h"
#include "app.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <algorithm>
#include <unordered_map>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <setjmp.h>
void app_unwound();

const char *ck_names[CK_N] = {"switch","pick","stall","asig","acancel","fault","cbdur","cbio","sigtgt","jump","client","misc"};
const char *fk_names[FK_N] = {"pthread_create_fail","fork_fail","exec_fail","attr_fail","waitpid_eintr","waitpid_echild",
  "sigwait_eintr","dlopen_fail","mpi_fail","sleep_eintr","thread_stall","async_signal_injected","cancel_injected","clock_jump",
  "preemption","env_signal","dlsym_next_fail"};

Config C; Shared *S; bool g_replay = false; int PIDX = 0; Thread *cur = nullptr;
std::vector<Thread *> threads; KAct kact[65]; std::vector<PendSig> ppend;
static std::unordered_map<u64, u32> g_rep;
static void *os_sp; static bool os_ret;
static u64 vnow = 0; i64 wall_off = 0; static u64 stop_until = 0; static u64 last_adv_points = 0;
static int n_spin = 0; static int idle_rounds = 0;
std::vector<TimedEv> timed; static u64 timed_seq = 0;
static int budget_stall = 3, budget_asig = 3, budget_cancel = 2, budget_jump = 1; static u64 stall_sum = 0;
int g_depth = 0; u64 SHOOT_KNOWN = 0; u64 next_cookie = 1; int frame_ctr = 0; bool g_dtor_ran = false;
std::vector<std::pair<void (*)(int), int>> g_atexit;
u64 g_step_cap = 3000000, g_horizon = 300ULL * 1000000;
static std::vector<char *> free_stacks;

u64 from_sigset(const sigset_t *s) { u64 m; memcpy(&m, s, 8); return m & ~(SB(32) | SB(33)); }
void to_sigset(u64 m, sigset_t *s) { memset(s, 0, sizeof *s); memcpy(s, &m, 8); }

// ---------------------------------------------------------------- choices
static inline u64 ckey(int kind, int pidx, int tid, u32 ctr) { return ((u64)kind << 56) | ((u64)(pidx & 255) << 48) | ((u64)(tid & 0xffff) << 32) | ctr; }
void load_replay_choices(const std::vector<Choice> &v) { g_rep.clear(); for (auto &c : v) g_rep[ckey(c.kind, c.pidx, c.tid, c.ctr)] = c.val; }
u32 choose(CK kind, u32 n, double p) {
  Thread *t = cur; u32 ctr = t ? t->ctr[kind]++ : 0; int tid = t ? t->id : 0xffff;
  if (n == 0) return 0;
  u32 val = 0;
  if (g_replay) {
    auto it = g_rep.find(ckey(kind, PIDX, tid, ctr));
    if (it == g_rep.end()) return 0;
    val = it->second; if (val > n) val = 1 + (val - 1) % n;
  } else {
    if (p <= 0) return 0;
    u64 r = mix64(C.seed ^ mix64(ckey(kind, PIDX, tid, ctr) * 0x9e3779b97f4a7c15ULL + 0x1234567));
    if ((double)(r >> 11) * 0x1p-53 >= p) return 0;
    val = 1 + (u32)(mix64(r + 0x55) % n);
  }
  if (val && S->nchoice < MAX_CHOICE) { Choice &c = S->choice[S->nchoice++]; c.kind = kind; c.pidx = PIDX; c.tid = tid; c.ctr = ctr; c.val = val; }
  return val;
}
bool fault(FaultKind fk, double p) {
  static const double lev[] = {0, 0.5, 1, 2};
  u32 v = choose(CK_FAULT, 1, p * lev[C.knob[K_FAULT] & 3]);
  if (v) S->faults[fk]++;
  return v;
}
void probe(int n) { S->probe[n]++; }

// ---------------------------------------------------------------- events
void ev(int type, i64 a, i64 b, i64 c, i64 d) {
  if (S->nev >= MAX_EV) end_run(V_LOGFULL, "event log full");
  Ev &e = S->ev[S->nev]; e.seq = S->nev++; e.type = type; e.pidx = PIDX; e.tid = cur ? cur->id : -1; e.depth = cur ? cur->frames.size() : 0;
  e.vt = vnow; e.a = a; e.b = b; e.c = c; e.d = d; e.pad = 0;
  S->evcount[type]++;
  u64 h = S->evhash; h = mix64(h ^ ((u64)type << 32 ^ (u64)PIDX << 24 ^ (u64)(e.tid + 1) << 8 ^ e.depth)); h = mix64(h ^ vnow);
  h = mix64(h ^ a); h = mix64(h ^ (b * 3)); h = mix64(h ^ (c * 5)); h = mix64(h ^ (d * 7)); S->evhash = h;
}
void viol(const char *prop, const char *sig, const char *fmt, ...) {
  if (prop[0] == 'C' && strlen(prop) > 3) { // several properties: one entry each
    char b[200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for (const char *q = prop; ; q += 4) { char one[4] = {q[0], q[1], q[2], 0}; viol(one, sig, "%s", b); if (q[3] != ',') return; }
  }
  if (S->nviol >= MAX_VIOL) return;
  Viol &v = S->viol[S->nviol++]; snprintf(v.prop, sizeof v.prop, "%s", prop); snprintf(v.sig, sizeof v.sig, "%s", sig);
  va_list ap; va_start(ap, fmt); vsnprintf(v.msg, sizeof v.msg, fmt, ap); va_end(ap); v.seq = S->nev;
  if (PIDX > 0 && (!strncmp(prop, "C14", 3) || !strcmp(prop, "C13") || !strcmp(prop, "C01")) && S->nviol < MAX_VIOL) { Viol &w = S->viol[S->nviol++]; w = v; snprintf(w.prop, sizeof w.prop, "C10"); snprintf(w.sig, sizeof w.sig, "child-%.30s", sig); } // a thread's identity in a forked child
}

// ---------------------------------------------------------------- context switch
extern "C" void sim_swtch(void **save, void *to);
asm(".text\n.globl sim_swtch\nsim_swtch:\n pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n movq %rsp,(%rdi)\n movq %rsi,%rsp\n popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n");
void end_run(int verdict, const char *fmt, ...) {
  if (S->verdict == V_NONE) {
    S->verdict = verdict; va_list ap; va_start(ap, fmt); vsnprintf(S->verdict_msg, sizeof S->verdict_msg, fmt, ap); va_end(ap);
  }
  if (vnow > S->maxvt) S->maxvt = vnow;
  if (PIDX != 0) _exit(0);
  Thread *t = cur; cur = nullptr; void *dummy; (void)t; os_ret = true;
  sim_swtch(&dummy, os_sp); abort();
}
[[noreturn]] void die(int kind, int status) {
  ev(E_PROC_END, kind, status);
  ProcInfo &p = S->proc[PIDX]; p.ended = 1; p.kind = kind; p.status = status; p.endvt = vnow;
  if (PIDX != 0) { if (vnow > S->maxvt) S->maxvt = vnow; _exit(0); }
  end_run(V_OK, "ok");
}

// ---------------------------------------------------------------- readiness
static inline u64 pendbits(Thread *t) { u64 m = 0; for (auto &p : t->pend) m |= SB(p.sig); for (auto &p : ppend) m |= SB(p.sig); return m; }
static inline bool deliverable(Thread *t) { if (t->pend.empty() && ppend.empty()) return false; return (pendbits(t) & ~t->mask) != 0; }
static bool ready(Thread *t) {
  if (t->st == T_DEAD || t->stall_until > vnow) return false;
  if (deliverable(t)) return true;
  if (t->st == T_RUN) return !t->spinning;
  Wait &w = t->w;
  if (w.pred && w.pred(w.arg)) return true;
  if (w.cancelpt && t->cancel_req && t->cancel_on && !t->unwinding) return true;
  if (w.has_deadline && w.deadline <= vnow) return true;
  return false;
}
static int npick(std::vector<Thread *> &v) { v.clear(); if (stop_until > vnow) return 0; for (auto t : threads) if (t->st != T_DEAD && ready(t)) v.push_back(t); return v.size(); }
void add_timed(u64 vt, void (*fn)(i64, i64), i64 a, i64 b) { timed.push_back({vt, timed_seq++, fn, a, b}); }
static void run_timed() {
  for (;;) {
    int best = -1;
    for (size_t i = 0; i < timed.size(); i++) if (timed[i].vt <= vnow && (best < 0 || timed[i].vt < timed[best].vt || (timed[i].vt == timed[best].vt && timed[i].seq < timed[best].seq))) best = i;
    if (best < 0) return;
    TimedEv e = timed[best]; timed.erase(timed.begin() + best); e.fn(e.a, e.b);
  }
}
static bool advance() {
  u64 nx = ~0ULL;
  if (stop_until > vnow) nx = std::min(nx, stop_until);
  for (auto t : threads) if (t->st != T_DEAD) {
    if (t->stall_until > vnow) nx = std::min(nx, t->stall_until);
    else if (t->st == T_BLOCK && t->w.has_deadline && t->w.deadline > vnow) nx = std::min(nx, t->w.deadline);
  }
  for (auto &e : timed) nx = std::min(nx, std::max(e.vt, vnow + 1));
  if (nx == ~0ULL) return false;
  vnow = nx; last_adv_points = S->points; idle_rounds = 0;
  if (n_spin) { for (auto t : threads) t->spinning = false; n_spin = 0; }
  if (vnow > g_horizon + S->hz) end_run(V_HANG, "no end of process within %llu s of virtual time", (unsigned long long)(g_horizon / 1000000));
  run_timed();
  return true;
}
static void describe_deadlock(char *b, size_t n) {
  size_t k = 0; for (auto t : threads) if (t->st != T_DEAD && k + 40 < n) k += snprintf(b + k, n - k, " t%d:%s%s(%s)", t->id, t->spinning ? "spin" : t->st == T_BLOCK ? "blocked" : "run", t->frames.empty() ? "" : "/handler", t->curapi ? t->curapi : "-");
}
static void switch_to(Thread *t) {
  t->run_len = 0;
  if (t == cur) return;
  Thread *o = cur; o->err = errno; cur = t; S->switches++;
  S->schedhash = mix64(S->schedhash ^ ((u64)t->id << 40) ^ (o->ctr[CK_SWITCH] + ((u64)PIDX << 56)));
  sim_swtch(&o->sp, t->sp);
  errno = cur->err;
}
static std::vector<Thread *> rdy;
// Give up the processor; returns when this thread is ready and picked.
static void schedule() {
  for (;;) {
    if (npick(rdy)) {
      Thread *self = cur;
      // round robin order starting after the current thread
      size_t st = 0; while (st < rdy.size() && rdy[st]->id <= self->id) st++;
      if (st == rdy.size()) st = 0;
      u32 v = choose(CK_PICK, rdy.size() - 1, 0.5);
      Thread *n = rdy[(st + v) % rdy.size()];
      switch_to(n);
      return;
    }
    if (advance()) continue;
    if (n_spin && idle_rounds < 3) { idle_rounds++; for (auto t : threads) t->spinning = false; n_spin = 0; continue; }
    char b[160] = ""; describe_deadlock(b, sizeof b); end_run(V_DEADLOCK, "deadlock:%s", b);
  }
}
static void deliver_all();
static void wake_spin(const void *a) { if (!n_spin) return; for (auto t : threads) if (t->spinning && t->spinaddr == a) { t->spinning = false; n_spin--; } }
void notify_write(const void *a) { if (cur) wake_spin(a); }
static const double swp[] = {0, 1.0 / 512, 1.0 / 128, 1.0 / 32, 1.0 / 8, 1.0 / 3, 1.0 / 2};
static inline bool hot(u64 pc) { return C.knob[K_HOT] && (mix64(pc * 31 + C.seed * 77) % 100) < (u64)C.knob[K_HOT]; }
static const u64 stall_len[] = {1000, 30000, 150000, 600000, 2000000};
void point(u64 pc, const void *addr, bool write) {
  Thread *t = cur; if (!t) return;
  if ((char *)addr >= t->stk && (char *)addr < t->stk + t->stksz) return;
  if (++S->points > g_step_cap) end_run(V_STEPCAP, "step cap: no end of process within %llu steps", (unsigned long long)g_step_cap);
  if (n_spin) { idle_rounds = 0; if (t->lastwrite) wake_spin(t->lastwrite); if (write) wake_spin(addr); }
  t->lastwrite = write ? addr : nullptr; // this point comes before the write itself
  bool yielded = false;
  if (!write && addr && pc == t->spinpc && addr == t->spinaddr) {
    if (++t->spincnt >= 3) { t->spincnt = 0; t->spinning = true; n_spin++; schedule(); if (t->spinning) { t->spinning = false; n_spin--; } yielded = true; }
  } else { t->spinpc = pc; t->spinaddr = addr; t->spincnt = 0; }
  if (!yielded) {
    t->run_len++;
    double h = hot(pc) ? 0.5 : 0;
    double p = std::max(swp[C.knob[K_SWITCH]], h);
    if (!g_replay && p == 0) t->ctr[CK_SWITCH]++;
    else {
      u32 v = choose(CK_SWITCH, 7, p);
      if (v) {
        if (npick(rdy) > 1) { // another thread
          size_t k = 0; while (k < rdy.size() && rdy[k] != t) k++;
          if (k < rdy.size()) { Thread *n = rdy[(k + 1 + (v - 1) % (rdy.size() - 1)) % rdy.size()]; S->faults[FK_PREEMPT]++; switch_to(n); }
        }
      }
    }
    if (t->run_len > 4000) { t->run_len = 0; if (npick(rdy) > 1) { size_t k = 0; while (rdy[k] != t) k++; switch_to(rdy[(k + 1) % rdy.size()]); } else advance(); }
    if (C.knob[K_STALL] && budget_stall > 0) {
      u32 v = choose(CK_STALL, 5, h > 0 ? 0.05 : C.knob[K_STALL] / 20000.0);
      if (v) { u64 d = stall_len[v - 1]; if (stall_sum + d <= 5000000) { budget_stall--; stall_sum += d; S->faults[FK_STALL]++; t->stall_until = vnow + d; schedule(); } }
    }
    if (C.knob[K_ASIG] && budget_asig > 0 && !C.asigs.empty() && PIDX == 0) {
      u32 v = choose(CK_ASIG, C.asigs.size(), h > 0 ? 0.08 : C.knob[K_ASIG] / 4000.0);
      if (v && app_asig_ok(C.asigs[v - 1])) { budget_asig--; S->faults[FK_ASIG]++; post_thread_signal(t, abs(C.asigs[v - 1]), next_cookie, env_code(abs(C.asigs[v - 1]), true), 2); next_cookie++; }
    }
    if (C.knob[K_ACANCEL] && t->cancellable_by_env && !t->cancel_req && budget_cancel > 0) {
      u32 v = choose(CK_ACANCEL, 1, h > 0 ? 0.1 : C.knob[K_ACANCEL] / 2000.0);
      if (v) { budget_cancel--; S->faults[FK_ACANCEL]++; t->cancel_req = true; }
    }
  }
  if (stop_until > vnow) schedule();
  if (deliverable(t)) deliver_all();
}
void point0() { point((u64)__builtin_return_address(0), nullptr, true); }
void yield_cpu() { Thread *t = cur; if (!t) return; S->points++; if (S->points > g_step_cap) end_run(V_STEPCAP, "step cap"); if (npick(rdy) > 1) { size_t k = 0; while (k < rdy.size() && rdy[k] != t) k++; switch_to(rdy[(k + 1) % rdy.size()]); } else if (S->points - last_adv_points > 20000) advance(); if (deliverable(t)) deliver_all(); }
void spend_us(u64 us) { vnow += us; }
u64 now_us() { return vnow; }
u64 stall_used() { return stall_sum; }
bool want_jump() { if (!C.knob[K_JUMP] || budget_jump <= 0) return false; u32 v = choose(CK_JUMP, 2, 0.15); if (!v) return false; budget_jump--; S->faults[FK_CLOCK]++; wall_off += (v == 1 ? 1 : -1) * 3600LL * 1000000; return true; }

// ---------------------------------------------------------------- signals
// signals from outside come from kill, a timer, a queue or the kernel itself
int env_code(int sig, bool thr) {
  if (sig == SIGSEGV || sig == SIGBUS || sig == SIGFPE || sig == SIGILL || sig == SIGTRAP) return SI_USER;
  static const int c[] = {SI_USER, SI_KERNEL, SI_QUEUE, SI_TIMER, SI_TKILL}; int k = c[mix64(next_cookie * 31 + sig) % 5];
  if (k == SI_KERNEL && sig == SIGCHLD) k = CLD_EXITED; if (k == SI_KERNEL && sig >= 32) k = SI_QUEUE; if (k == SI_TKILL && !thr) k = SI_USER; return k;
}
static bool default_ignore(int s) { return s == SIGCHLD || s == SIGCONT || s == SIGURG || s == SIGWINCH; }
static bool default_stop(int s) { return s == SIGSTOP || s == SIGTSTP || s == SIGTTIN || s == SIGTTOU; }
static bool waits_for(Thread *t, int sig) { return t->in_sigwait && t->st == T_BLOCK && (t->w.sigwaitset & SB(sig)); }
static void do_cont(i64, i64) { if (stop_until) { stop_until = 0; Thread *s = cur; (void)s; ev(E_CONT); } }
static void do_stop() { ev(E_STOP); stop_until = vnow + 400000; add_timed(vnow + 400000, do_cont, 0, 0); }
static void queue_sig(std::vector<PendSig> &q, int sig, i64 cookie, int code) {
  if (sig < 34) for (auto &p : q) if (p.sig == sig) { ev(E_SIG_DROP, sig, 1, cookie); return; }
  q.push_back({sig, cookie, code, cur ? cur->id : -1});
}
static bool kernel_ignores(int sig) { KAct &a = kact[sig]; return a.h == (void *)SIG_IGN || (a.h == (void *)SIG_DFL && default_ignore(sig)); }
void post_thread_signal(Thread *t, int sig, i64 cookie, int code, int origin) {
  ev(E_SIG_SEND, t->id, sig, cookie, origin);
  if (sig == SIGCONT && stop_until) do_cont(0, 0);
  if (t->st == T_DEAD) { ev(E_SIG_DROP, sig, 2, cookie); return; }
  if (sig == SIGKILL) { die(1, SIGKILL); }
  if (sig == SIGSTOP) { do_stop(); return; }
  if (kernel_ignores(sig) && !(t->mask & SB(sig)) && !waits_for(t, sig)) { ev(E_SIG_DROP, sig, 0, cookie); return; }
  queue_sig(t->pend, sig, cookie, code);
}
void post_process_signal(int sig, i64 cookie, int code, int origin) {
  std::vector<Thread *> el;
  if (sig == SIGCONT && stop_until) do_cont(0, 0);
  if (sig == SIGKILL) { ev(E_SIG_SEND, -1, sig, cookie, origin); die(1, SIGKILL); }
  if (sig == SIGSTOP) { ev(E_SIG_SEND, -1, sig, cookie, origin); do_stop(); return; }
  for (auto t : threads) if (t->st != T_DEAD && (!(t->mask & SB(sig)) || waits_for(t, sig))) el.push_back(t);
  if (el.empty()) {
    ev(E_SIG_SEND, -1, sig, cookie, origin);
    bool anyblk = false; for (auto t : threads) if (t->st != T_DEAD) anyblk = true;
    if (!anyblk) return;
    queue_sig(ppend, sig, cookie, code); return;
  }
  if (kernel_ignores(sig)) { bool w = false; for (auto t : el) w |= waits_for(t, sig); if (!w) { ev(E_SIG_SEND, -1, sig, cookie, origin); ev(E_SIG_DROP, sig, 0, cookie); return; } }
  u32 v = choose(CK_SIGTGT, el.size() - 1, 0.6);
  post_thread_signal(el[v], sig, cookie, code, origin);
}
static bool take_pending(Thread *t, u64 set, PendSig &out) {
  int bi = -1; bool pr = false;
  // lowest numbered synchronous first, then lowest number (Linux order)
  auto scan = [&](std::vector<PendSig> &q, bool isp) { for (size_t i = 0; i < q.size(); i++) if (set & SB(q[i].sig)) { if (bi < 0 || q[i].sig < out.sig) { out = q[i]; bi = i; pr = isp; } } };
  scan(t->pend, false); if (bi < 0) scan(ppend, true);
  if (bi < 0) return false;
  auto &q = pr ? ppend : t->pend; q.erase(q.begin() + bi); return true;
}
bool take_sigwait(Thread *t, u64 set, PendSig &out) { return take_pending(t, set, out); }
bool has_pending(Thread *t, u64 set) { return (pendbits(t) & set) != 0; }
static void handle_one(const PendSig &ps) {
  Thread *t = cur; int sig = ps.sig; KAct a = kact[sig];
  if (a.h == (void *)SIG_IGN) { ev(E_SIG_DROP, sig, 0, ps.cookie); return; }
  if (a.h == (void *)SIG_DFL) {
    if (default_ignore(sig)) { ev(E_SIG_DROP, sig, 0, ps.cookie); return; }
    if (default_stop(sig)) { do_stop(); return; }
    die(1, sig);
  }
  u64 old = t->mask; t->mask |= a.mask; if (!(a.flags & SA_NODEFER)) t->mask |= SB(sig);
  if (a.flags & SA_RESETHAND) kact[sig].h = (void *)SIG_DFL;
  int id = frame_ctr++; t->frames.push_back({sig, id, ps.cookie, old});
  if (t->frames.size() > 14) end_run(V_HANG, "signal handler nesting over 14 levels");
  ev(E_FRAME, sig, 0, ps.cookie, id);
  bool sv_wait = t->waiting; Wait svw = t->w; TState svst = t->st; bool insw = t->in_sigwait; bool sp = t->spinning; if (sp) { t->spinning = false; n_spin--; }
  const char *svapi = t->curapi;
  t->st = T_RUN; t->in_sigwait = false;
  siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = sig; si.si_code = ps.code; si.si_pid = 999; si.si_value.sival_ptr = (void *)ps.cookie;
  if (ps.code > 0) { si.si_addr = (void *)(0xdead0000 + ps.cookie); }
  UCtx uc; memset(&uc, 0x5a, sizeof uc); uc.dummy[0] = ps.cookie;
  if (a.flags & SA_SIGINFO) ((void (*)(int, siginfo_t *, void *))a.h)(sig, &si, &uc);
  else ((void (*)(int))a.h)(sig);
  t->st = svst; t->w = svw; t->waiting = sv_wait; t->in_sigwait = insw; t->curapi = svapi;
  t->frames.pop_back(); t->mask = old; ev(E_FRAME_END, sig, 0, ps.cookie, id);
}
static void deliver_all() {
  Thread *t = cur; PendSig ps; int guard = 0;
  while (take_pending(t, ~t->mask, ps)) { handle_one(ps); if (++guard > 200) end_run(V_HANG, "endless signal delivery"); }
}
void check_signals() { if (cur && deliverable(cur)) deliver_all(); }
void sync_signal(int sig, i64 cookie, int code) { // fault raised by the current instruction
  Thread *t = cur; ev(E_SIG_SEND, t->id, sig, cookie, 3);
  if ((t->mask & SB(sig)) || kact[sig].h == (void *)SIG_IGN) { ev(E_SIG_DROP, sig, 9, cookie); die(1, sig); }
  PendSig ps{sig, cookie, code, t->id}; handle_one(ps);
  if (deliverable(t)) deliver_all();
}

// ---------------------------------------------------------------- blocking
[[noreturn]] void do_unwind();
void start_cancel() {
  Thread *t = cur; t->unwinding = true; t->cancel_on = false; t->retval = PTHREAD_CANCELED; t->end_kind = 2; ev(E_CANCELLED);
  do_unwind();
}
void testcancel() { Thread *t = cur; if (t && t->cancel_req && t->cancel_on && !t->unwinding) start_cancel(); }
int block_on(Wait w) {
  Thread *t = cur; bool first = true;
  for (;;) {
    if (w.pred && w.pred(w.arg)) { t->st = T_RUN; return WR_OK; }
    if (deliverable(t)) { t->st = T_RUN; deliver_all(); if (w.sigint) return WR_SIGNAL; continue; }
    if (w.cancelpt && t->cancel_req && t->cancel_on && !t->unwinding) { t->st = T_RUN; t->in_sigwait = false; start_cancel(); }
    if (w.has_deadline && w.deadline <= vnow) { if (first) { } t->st = T_RUN; return WR_TIMEOUT; }
    first = false; t->w = w; t->st = T_BLOCK; schedule(); t->st = T_RUN;
  }
}
void compute(u64 us) { if (!cur) return; Wait w{nullptr, nullptr, vnow + us, true, false, false, 0}; block_on(w); }
bool io(u64 us) { if (!cur) return true; testcancel(); Wait w{nullptr, nullptr, vnow + us, true, true, false, 0}; block_on(w); return true; }

// ---------------------------------------------------------------- threads
static const size_t STK = 160 * 1024;
static char *alloc_stack() {
  if (free_stacks.empty() && threads.size() > 40) for (auto t : threads) if (t->st == T_DEAD && t != cur && t->stk) recycle_stack(t);
  if (!free_stacks.empty()) { char *s = free_stacks.back(); free_stacks.pop_back(); return s; }
  char *s = (char *)mmap(nullptr, STK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (s == MAP_FAILED) end_run(V_INTERNAL, "stack mmap failed");
  mprotect(s, 4096, PROT_NONE);
  return s + 4096;
}
extern "C" void sim_thread_entry();
asm(".text\nsim_thread_tramp:\n movq %r12,%rdi\n xorl %ebp,%ebp\n call sim_thread_body\n hlt\n");
extern "C" void sim_thread_tramp();
[[noreturn]] void thread_finish() {
  Thread *t = cur;
  // thread-specific data destructors; the thread is past cancellation
  t->cancel_on = false; run_tsd_dtors();
  int live = 0; for (auto x : threads) if (x->st != T_DEAD) live++;
  if (live == 1) libc_exit(0);
  ev(E_THR_END);
  t->st = T_DEAD; t->pend.clear();
  if (t->detached) t->freed = true;
  if (!t->ismain) { }
  std::vector<Thread *> v;
  // never returns
  for (;;) { schedule(); }
}
struct BotJb { jmp_buf jb; };
extern "C" void sim_thread_body(Thread *t) {
  errno = 0;
  BotJb bj; t->botjb = &bj;
  if (setjmp(bj.jb) == 0) {
    check_signals();
    if (t->ismain) { app_main_thread(); }
    else { void *r = t->start(t->arg); cur->retval = r; }
  }
  thread_finish();
}
void do_unwind() {
  Thread *t = cur;
  while (!t->frames.empty()) { Frame f = t->frames.back(); t->frames.pop_back(); ev(E_FRAME_END, f.sig, 1, f.cookie, f.id); }
  t->in_sigwait = false; app_unwound();
  if (!t->unw.empty()) { void *b = t->unw.back(); t->unw.pop_back(); siglongjmp(*(sigjmp_buf *)b, 1); }
  longjmp(((BotJb *)t->botjb)->jb, 1);
}
Thread *new_thread(void *(*start)(void *), void *arg) {
  Thread *t = new Thread(); t->id = threads.size(); t->magic = 0x51e55517; t->stk = alloc_stack(); t->stksz = STK; t->st = T_RUN; t->err = 0;
  t->spinning = false; t->lastwrite = nullptr; t->spinaddr = nullptr; t->spinpc = 0; t->spincnt = 0; t->waiting = false; t->stall_until = 0; t->stall_total = 0;
  memset(&t->w, 0, sizeof t->w); t->mask = cur ? cur->mask : 0; t->in_sigwait = false;
  t->cancel_req = false; t->cancel_on = true; t->unwinding = false; t->cancellable_by_env = false; t->retval = nullptr; t->detached = t->joined = t->freed = false; t->joiner = -1;
  t->start = start; t->arg = arg; t->creator = cur ? cur->id : -1; memset(t->ctr, 0, sizeof t->ctr); t->run_len = 0; t->stack_attr = 0; t->end_kind = 0; t->app = nullptr; t->ismain = false;
  t->curapi = nullptr; t->in_end = false; t->lastreq = -1; t->sw_saved_mask = 0; t->botjb = nullptr; t->asig_budget = 0;
  u64 *sp = (u64 *)(t->stk + STK - 256); sp = (u64 *)((u64)sp & ~15ULL);
  *--sp = (u64)&sim_thread_tramp; // return address
  *--sp = 0; *--sp = 0; *--sp = (u64)t; *--sp = 0; *--sp = 0; *--sp = 0; // rbp rbx r12 r13 r14 r15
  t->sp = sp; threads.push_back(t); return t;
}
void recycle_stack(Thread *t) { if (t->stk && t != cur) { free_stacks.push_back(t->stk); t->stk = nullptr; t->stksz = 0; } }
Thread *thr_by_id(int id) { return id >= 0 && id < (int)threads.size() ? threads[id] : nullptr; }
int cur_tid() { return cur ? cur->id : -1; }
int cur_depth() { return cur ? cur->frames.size() : 0; }
u64 cur_mask() { return cur->mask; }
bool in_stack(const void *p) { return (char *)p >= cur->stk && (char *)p < cur->stk + cur->stksz; }
bool thr_is_main(Thread *t) { return t->ismain; }
int nlive() { int n = 0; for (auto t : threads) if (t->st != T_DEAD) n++; return n; }
void child_after_fork(int newidx) {
  for (auto t : threads) if (t != cur && t->st != T_DEAD) { t->st = T_DEAD; t->freed = true; t->pend.clear(); }
  for (auto t : threads) t->spinning = false; 
  n_spin = 0; PIDX = newidx; cur->pend.clear(); ppend.clear(); timed.clear(); stop_until = 0; g_depth++;
  memset(cur->ctr, 0, sizeof cur->ctr); cur->cancellable_by_env = false;
}

static void env_signal(i64 i, i64) {
  EnvSig &e0 = C.envsigs[i]; if (!app_asig_ok(e0.sig)) return; EnvSig e = e0; e.sig = abs(e.sig); S->faults[FK_ENVSIG]++;
  Thread *sv = cur; // may run inside scheduler on behalf of any thread
  if (e.target < 0) post_process_signal(e.sig, next_cookie, env_code(e.sig, false), 2), next_cookie++;
  else { Thread *t = thr_by_id(e.target); if (t && t->st != T_DEAD) post_thread_signal(t, e.sig, next_cookie, env_code(e.sig, true), 2); else post_process_signal(e.sig, next_cookie, env_code(e.sig, false), 2); next_cookie++; }
  (void)sv;
}
void run_process() {
  for (int i = 0; i < 65; i++) kact[i] = {(void *)SIG_DFL, 0, 0};
  S->nproc = 1; S->proc[0].used = 1; S->proc[0].parent = -1;
  app_setup();
  Thread *m = new_thread(nullptr, nullptr); m->ismain = true; app_make_main(m);
  for (size_t i = 0; i < C.envsigs.size(); i++) add_timed(C.envsigs[i].vt, env_signal, i, 0);
  cur = m; ev(E_PROC_START, -1, 0);
  errno = 0;
  sim_swtch(&os_sp, m->sp);
  cur = nullptr;
}
