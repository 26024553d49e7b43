// The oracle: checks over the recorded history of one simulated run.
// It runs in the memory of process 0 after the run and sees the events of
// all processes of the run.  It uses only what the application, the client
// and the kernel observed, never the library's own state.
#include "app.h"
#include <cstdio>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <algorithm>
#include <map>
#include <set>

namespace {
const u32 INF = 0xffffffff;
struct OpR { int code, proc, tid, depth; i64 a, b, c; u32 s0, s1; u64 v0, v1; bool ended, unw; i64 r, rc, rd; std::vector<u32> evs; u32 blkseq; i64 blkret; };
struct FrR { int proc, tid, depth, sig; i64 cookie; u32 s0, s1; u64 v0, v1; bool ended, unw; int origin; };
struct Thr { int tid; u32 created = INF, init_b = INF, init_e = INF, start = INF, app_end = INF, cancelled = INF, thr_end = INF; int ninit = 0; i64 init_data = 0, init_tok = 0, mtid = 0; bool ignored = false; std::vector<u32> fini_b, fini_e; bool known = false; };
struct Pr { int idx = 0, parent = -1; u32 forkseq = INF; int forkop = -1; bool nocb = false; int maint = 0; std::vector<u32> ev; std::vector<int> ops, frames; std::map<int, Thr> thr; u32 s0 = 0, s1 = INF; bool seen = false; bool from_ignored = false;
  u32 ip_b = INF, ip_e = INF, be_b = INF, be_e = INF, fp_b = INF, fp_e = INF; int nip = 0, nbe = 0, nfp = 0; i64 ptok = 0; int win = -1; int winop = -1; };
std::vector<Pr> P; std::vector<OpR> ops; std::vector<FrR> fr; std::vector<int> opof; // event seq -> op index at the same depth
Ev *E; u32 N;
bool isb(const Ev &e, int k) { return e.type == E_CB + k; }
bool ise(const Ev &e, int k) { return e.type == E_CB_END + k; }
bool iscb(const Ev &e) { return e.type >= E_CB && e.type < E_CB + CB_N; }
void bad(const char *props, const char *sig, int proc, const char *fmt, ...) __attribute__((format(printf, 4, 5)));
void bad(const char *props, const char *sig, int proc, const char *fmt, ...) {
  char b[200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  bool c10 = false; for (const char *p = props; *p; p += p[3] ? 4 : 3) { char q[4] = {p[0], p[1], p[2], 0}; if (!strcmp(q, "C10")) c10 = true; viol(q, sig, "%s", b); if (!p[3]) break; }
  if (!c10 && proc > 0 && proc < (int)P.size() && !P[proc].nocb) { char s[44]; snprintf(s, sizeof s, "child-%s", sig); viol("C10", s, "in a forked child: %s", b); }
}
bool fatal_dfl(int s) { return !(s == SIGCHLD || s == SIGCONT || s == SIGURG || s == SIGWINCH || s == SIGTSTP || s == SIGTTIN || s == SIGTTOU || s == SIGSTOP); }
bool stop_dfl(int s) { return s == SIGTSTP || s == SIGTTIN || s == SIGTTOU || s == SIGSTOP; }
// an op of this code open on that thread at seq
int open_op(int proc, int tid, u32 seq, int code) { for (int i : P[proc].ops) { OpR &o = ops[i]; if (o.code == code && o.tid == tid && o.s0 < seq && (!o.ended || o.s1 > seq)) return i; } return -1; }
int any_open(int proc, u32 seq, int code) { for (int i : P[proc].ops) { OpR &o = ops[i]; if (o.code == code && o.s0 < seq && (!o.ended || o.s1 > seq)) return i; } return -1; }

void build() {
  E = S->ev; N = S->nev; P.assign(MAX_PROC, Pr()); opof.assign(N, -1);
  std::map<std::pair<int, int>, std::vector<int>> st, fst; std::map<i64, int> origin;
  for (u32 i = 0; i < N; i++) {
    Ev &e = E[i]; Pr &p = P[e.pidx]; p.ev.push_back(i); p.idx = e.pidx; if (!p.seen) { p.seen = true; p.s0 = i; }
    auto key = std::make_pair((int)e.pidx, e.tid); auto &s = st[key];
    if (e.type == E_OP && e.a != O_ATEXIT) { if (!s.empty() && ops[s.back()].depth == e.depth) { opof[i] = s.back(); } OpR o = OpR(); o.code = e.a; o.proc = e.pidx; o.tid = e.tid; o.depth = e.depth; o.a = e.b; o.b = e.c; o.c = e.d; o.s0 = i; o.s1 = INF; o.v0 = e.vt; o.v1 = ~0ULL; o.blkseq = INF; ops.push_back(o); s.push_back(ops.size() - 1); p.ops.push_back(ops.size() - 1); continue; }
    if (e.type == E_OP_END) {
      if (e.a == O_BLOCKSD && e.c == 1 && e.d != -99) { if (!s.empty()) { ops[s.back()].blkseq = i; ops[s.back()].blkret = e.b; } continue; }
      if (!s.empty() && ops[s.back()].code == e.a) { OpR &o = ops[s.back()]; o.ended = true; o.s1 = i; o.v1 = e.vt; o.unw = e.d == -99; o.r = e.b; o.rc = e.c; o.rd = e.d; s.pop_back(); }
      continue;
    }
    if (!s.empty() && ops[s.back()].depth == e.depth) { opof[i] = s.back(); ops[s.back()].evs.push_back(i); }
    auto &fs = fst[key]; Thr &t = p.thr[e.tid];
    switch (e.type) {
    case E_PROC_START: p.parent = e.a; p.maint = e.tid; break;
    case E_DISP0: if (e.a == 0) p.nocb = e.b; break;
    case E_REAL_FORK: if (e.a >= 0) { Pr &c = P[e.a]; c.forkseq = i; c.forkop = opof[i]; c.from_ignored = t.ignored || (p.from_ignored && e.tid == p.maint); } break;
    case E_PROC_END: p.s1 = i; break;
    case E_SIG_SEND: origin[e.c] = e.d; break;
    case E_FRAME: { FrR f = FrR(); f.proc = e.pidx; f.tid = e.tid; f.depth = e.depth; f.sig = e.a; f.cookie = e.c; f.s0 = i; f.s1 = INF; f.v0 = e.vt; f.v1 = ~0ULL; f.origin = origin.count(e.c) ? origin[e.c] : -1; fr.push_back(f); fs.push_back(fr.size() - 1); p.frames.push_back(fr.size() - 1); break; }
    case E_FRAME_END: if (!fs.empty()) { FrR &f = fr[fs.back()]; f.ended = true; f.s1 = i; f.v1 = e.vt; f.unw = e.b; fs.pop_back(); } break;
    case E_REAL_CREATE: if (e.a >= 0) { Thr &n = p.thr[e.a]; n.tid = e.a; n.created = i; n.known = true; } break;
    case E_APP_START: t.start = i; t.ignored = e.c; t.known = true; break;
    case E_APP_END: if (t.app_end == INF) t.app_end = i; break;
    case E_CANCELLED: t.cancelled = i; break;
    case E_THR_END: t.thr_end = i; break;
    case E_CB + CB_INIT_PROCESS: p.nip++; if (p.ip_b == INF) p.ip_b = i; break;
    case E_CB_END + CB_INIT_PROCESS: if (p.ip_e == INF) { p.ip_e = i; p.ptok = e.a; } break;
    case E_CB + CB_BEGIN_EXIT: p.nbe++; if (p.be_b == INF) { p.be_b = i; p.win = e.tid; p.winop = opof[i]; } break;
    case E_CB_END + CB_BEGIN_EXIT: if (p.be_e == INF) p.be_e = i; break;
    case E_CB + CB_FINI_PROCESS: p.nfp++; if (p.fp_b == INF) p.fp_b = i; break;
    case E_CB_END + CB_FINI_PROCESS: if (p.fp_e == INF) p.fp_e = i; break;
    case E_CB + CB_INIT_THREAD: t.ninit++; t.known = true; if (t.init_b == INF) { t.init_b = i; t.init_data = e.c; t.mtid = e.a; } break;
    case E_CB_END + CB_INIT_THREAD: if (t.init_e == INF) { t.init_e = i; t.init_tok = e.a; } break;
    case E_CB + CB_FINI_THREAD: t.fini_b.push_back(i); break;
    case E_CB_END + CB_FINI_THREAD: t.fini_e.push_back(i); break;
    }
  }
  // ignored flag also for threads that never reached application code
  for (auto &o : ops) if (o.code == O_CREATE && o.ended && !o.unw && o.rc >= 0) { Thr &t = P[o.proc].thr[o.rc]; if (o.rd == 1) t.ignored = true; }
  for (auto &p : P) if (p.seen) for (auto &kv : p.thr) kv.second.tid = kv.first;
}
// events of the process and of its ancestors before the forks, in order
std::vector<u32> chain(int p) { std::vector<u32> v; std::vector<int> an; for (int q = p; q >= 0; q = P[q].parent) an.push_back(q); for (int k = an.size() - 1; k >= 0; k--) { u32 lim = k ? P[an[k - 1]].forkseq : INF; for (u32 i : P[an[k]].ev) if (i < lim) v.push_back(i); } return v; }
bool exempt_unresp(int p, int tid, u32 a, u32 b) { for (int i : P[p].ops) { OpR &o = ops[i]; if (o.code == O_UNRESP && o.tid == tid && o.s0 < b && (!o.ended || o.s1 > a)) return true; } return false; }
bool has_unresp(int p) { for (int i : P[p].ops) if (ops[i].code == O_UNRESP) return true; return false; }
bool shoot_masked_initially() { return (C.knob[K_IGNMASK] & 4) && (AP.shoot == SIGUSR1 || AP.shoot == SIGTERM); }

// ------------------------------------------------------------------ C01
void c01(Pr &p) {
  auto ch = chain(p.idx); u32 lib_e = INF; int nlib = 0, nlibe = 0, nsm = 0;
  for (u32 i : ch) { if (isb(E[i], CB_INIT_LIBRARY)) nlib++; if (ise(E[i], CB_INIT_LIBRARY)) { nlibe++; if (lib_e == INF) lib_e = i; } if (isb(E[i], CB_START_MAIN)) nsm++; }
  if (nlib > 1) bad("C01", "library-init-count", p.idx, "process %d: %d library-init callbacks", p.idx, nlib);
  if (nsm > 1) bad("C01", "start-main-count", p.idx, "process %d: %d start-main callbacks", p.idx, nsm);
  if (p.nip > 1) bad("C01", "init-process-count", p.idx, "process %d: %d process-init callbacks", p.idx, p.nip);
  if (p.ip_b != INF) {
    if (lib_e == INF || lib_e > p.ip_b) bad("C01", "library-init-late", p.idx, "process %d: process-init before library-init finished", p.idx);
    Ev &e = E[p.ip_b];
    if (p.parent < 0) { if (e.c) bad("C01", "init-data", p.idx, "first process-init gets data %llx", (long long)e.c); }
    else { i64 want = -1; bool have = false; if (p.forkop >= 0) for (u32 i : ops[p.forkop].evs) if (ise(E[i], CB_PRE_FORK)) { want = E[i].a; have = true; } if (have && e.c != want) bad("C01,C10", "init-data", p.idx, "process-init in child %d gets %llx, pre-fork returned %llx", p.idx, (long long)e.c, (long long)want); }
    if (p.parent < 0 && opof[p.ip_b] < 0 && e.depth == 0) { if (e.a != 3 || e.b != 1) bad("C01", "init-args", p.idx, "process-init entered through main sees argc %lld and %s argv", (long long)e.a, e.b == 1 ? "right" : "wrong"); }
  }
  int nat = 0; u32 at_b = INF, at_e = INF, ms = INF; bool startmain_before = false;
  for (u32 i : p.ev) {
    Ev &e = E[i];
    if (isb(e, CB_AT_MAIN)) { nat++; at_b = std::min(at_b, i); } if (ise(e, CB_AT_MAIN)) at_e = std::min(at_e, i);
    if (e.type == E_MAIN_START) ms = i;
    if (iscb(e)) { int k = e.type - E_CB; bool gated = k == CB_FINI_PROCESS || k == CB_AT_MAIN || k == CB_BEGIN_EXIT || k == CB_PRE_CREATE || k == CB_POST_CREATE || k == CB_THR_SUPPORT || k == CB_INIT_THREAD || k == CB_FINI_THREAD || k == CB_RESET_STACK; if (gated && (p.ip_e == INF || p.ip_e > i)) { bad("C01", "before-init", p.idx, "process %d: callback %d before process-init finished", p.idx, k); break; } }
  }
  if (nat > 1) bad("C01", "at-main-count", p.idx, "process %d: %d at-main callbacks", p.idx, nat);
  if (ms != INF) {
    if (p.ip_e == INF || p.ip_e > ms) bad("C01", "main-before-init", p.idx, "process %d: main starts before process-init finished", p.idx);
    if (at_e == INF || at_e > ms || (p.ip_e != INF && at_b < p.ip_e)) bad("C01", "at-main", p.idx, "process %d: at-main not run between process-init and main", p.idx);
    for (u32 i : ch) if (ise(E[i], CB_START_MAIN) && i < at_b) startmain_before = true;
    if (!startmain_before) bad("C01", "start-main", p.idx, "process %d: start-main not run before at-main", p.idx);
  }
  if (p.parent >= 0 && p.nip == 0) { bool lived = false; for (u32 i : p.ev) if (E[i].type == E_OP || E[i].type == E_OP_END || E[i].type == E_MAIN_START) lived = true; if (lived) bad("C01,C10", "child-no-init", p.idx, "forked process %d got no process-init", p.idx); }
}

// A fatal signal, or a handler that ends the process again, strikes a thread
// inside its own exit sequence: from there on the process may end at any
// moment (a further exit in the exiting thread ends it at once).
std::vector<int> disp_cands(int p, int sig, u32 x0, u32 x1, int skipop);
std::map<int, u32> struck_at;
u32 struck(Pr &p) {
  auto it = struck_at.find(p.idx); if (it != struck_at.end()) return it->second; u32 r = INF;
  for (int fi : p.frames) {
    FrR &f = fr[fi]; if (f.sig == AP.shoot || f.s0 >= r) continue; bool exiting = false;
    if (p.be_b < f.s0) exiting = p.win == f.tid && f.depth > E[p.be_b].depth;
    else {
      for (int oi : p.ops) { OpR &o = ops[oi]; if (o.tid == f.tid && o.depth < f.depth && o.s0 < f.s0 && (!o.ended || o.s1 > f.s0) && (o.code == O_EXIT || o.code == O_UEXIT || o.code == O_PEXIT || o.code == O_EXEC)) exiting = true; }
      for (u32 i : p.ev) { if (i >= f.s0) break; if (E[i].tid == f.tid && E[i].depth < f.depth && (E[i].type == E_MAIN_END || E[i].type == E_APP_END)) exiting = true; }
      for (int gi : p.frames) { FrR &g = fr[gi]; if (g.tid == f.tid && g.depth < f.depth && g.s0 < f.s0 && !g.ended && g.sig != AP.shoot) exiting = true; } // inside another signal that never returns
    }
    if (!exiting) continue; bool ends = false;
    if (fatal_dfl(f.sig)) for (int x : disp_cands(p.idx, f.sig, f.s0, f.s1 == INF ? N : f.s1, -1)) if ((x & 255) == 0) ends = true;
    for (int oi : p.ops) { OpR &o = ops[oi]; if (o.tid == f.tid && o.depth >= f.depth && o.s0 > f.s0 && (!f.ended || o.s0 < f.s1) && (o.code == O_EXIT || o.code == O_UEXIT)) ends = true; }
    if (ends) r = f.s0;
  }
  return struck_at[p.idx] = r;
}
// ------------------------------------------------------------------ C02
// may this process end here without the exit sequence?
// does anybody but the thread that began the exit ask for the end of the process?
bool fatal_dfl(int sig);
bool other_end(Pr &p) {
    bool other = false; for (int oi : p.ops) { OpR &o = ops[oi]; if (o.code == O_REALEXIT || o.code == O_REALABORT || o.code == O_REALEXEC) other = true; if (o.code == O_EXEC && (o.ended || oi != p.winop)) other = true; }
    for (u32 i : p.ev) if ((E[i].type == E_SIG_SEND && E[i].b == SIGKILL) || (E[i].type == E_SIG_DROP && E[i].b == 9)) other = true;
    // somebody else who asks for the end may get there first, as without monitor
    for (int oi : p.ops) { OpR &o = ops[oi]; if (oi != p.winop && (o.code == O_EXIT || o.code == O_UEXIT || o.code == O_PEXIT)) other = true; }
    for (u32 i : p.ev) if (E[i].type == E_MAIN_END && (E[i].tid != p.win || p.winop >= 0 || E[p.be_b].depth > 0)) other = true;
    for (int fi : p.frames) { FrR &f = fr[fi]; if (f.sig != AP.shoot && fatal_dfl(f.sig) && (!f.ended || f.origin == 3) && !(f.tid == p.win && f.depth == E[p.be_b].depth)) other = true; }
    return other;
}
bool end_exempt(Pr &p, const Ev &e) {
  if (e.type == E_PROC_END && e.a == 1 && e.b == SIGKILL) return true;
  if (struck(p) < e.seq) return true;
  for (int c : {O_REALEXIT, O_REALABORT, O_REALEXEC}) if (open_op(p.idx, e.tid, e.seq, c) >= 0) return true;
  for (u32 i : p.ev) if (E[i].type == E_SIG_DROP && E[i].b == 9) return true;
  if (p.be_b < e.seq && e.tid == p.win && e.depth > E[p.be_b].depth) return true; // a fatal signal strikes the exiting thread inside its own exit sequence
  // a process forked by an unmonitored thread, which then just returns: the library never sees its end
  if (p.from_ignored && (p.thr[p.maint].app_end < e.seq || p.thr[p.maint].cancelled < e.seq) && e.type != E_EXEC) { bool op = false; for (int c : {O_EXIT, O_UEXIT, O_EXEC}) if (open_op(p.idx, e.tid, e.seq, c) >= 0) op = true; if (!op && e.depth == 0) return true; }
  if (p.parent >= 0 && p.from_ignored && e.tid == p.maint && e.type != E_EXEC) { bool op = false; for (int c : {O_EXIT, O_UEXIT, O_PEXIT, O_EXEC}) if (open_op(p.idx, e.tid, e.seq, c) >= 0) op = true; if (!op && e.depth == 0) return true; }
  return false;
}
void c02(Pr &p) {
  if (p.nbe > 1) bad("C02", "begin-exit-count", p.idx, "process %d: %d begin-process-exit callbacks", p.idx, p.nbe);
  if (p.nfp > 1) bad("C02", "fini-process-count", p.idx, "process %d: %d process-fini callbacks", p.idx, p.nfp);
  if (p.fp_b != INF) {
    if (p.be_e == INF || p.be_e > p.fp_b) bad("C02", "no-begin-exit", p.idx, "process %d: process-fini without begin-process-exit before it", p.idx);
    else { if (E[p.fp_b].tid != p.win) bad("C02", "fini-other-thread", p.idx, "process %d: begin-process-exit in thread %d, process-fini in %d", p.idx, p.win, E[p.fp_b].tid); if (E[p.fp_b].a != E[p.be_b].a) bad("C02", "how-differs", p.idx, "process %d: begin-process-exit reason %lld, process-fini %lld", p.idx, (long long)E[p.be_b].a, (long long)E[p.fp_b].a); }
    if (p.ip_e != INF && E[p.fp_b].c != p.ptok) bad("C02", "fini-data", p.idx, "process %d: process-fini gets %llx, process-init returned %llx", p.idx, (long long)E[p.fp_b].c, (long long)p.ptok);
  }
  if (p.be_b != INF && E[p.be_b].a != E[p.be_b].b) bad("C02", "how-wrong", p.idx, "process %d: exit reason %lld, expected %lld", p.idx, (long long)E[p.be_b].a, (long long)E[p.be_b].b);
  int nfl = 0, nfle = 0; bool told = false;
  for (u32 i : p.ev) {
    Ev &e = E[i]; bool atx = e.type == E_ATEXIT_RUN, pe = e.type == E_PROC_END, ex = e.type == E_EXEC && e.a == 1;
    if (!told && (atx || ex || pe) && (p.fp_e == INF || p.fp_e > i) && !end_exempt(p, e)) { told = true; const char *pr = ex ? "C02,C11" : "C02"; bad(pr, atx ? "atexit-before-fini" : ex ? "exec-before-fini" : "end-before-fini", p.idx, "process %d: %s (%lld/%lld) by thread %d before process-fini has returned", p.idx, atx ? "exit handler runs" : ex ? "image replaced" : "process ends", (long long)e.a, (long long)e.b, e.tid); }
    if (isb(e, CB_FINI_LIBRARY)) { nfl++; if ((p.fp_e == INF || p.fp_e > i) && !end_exempt(p, e)) bad("C02", "fini-library-early", p.idx, "process %d: library-fini before process-fini has returned", p.idx); }
    if (ise(e, CB_FINI_LIBRARY)) nfle++;
  }
  if (nfl > 1) bad("C02", "fini-library-count", p.idx, "process %d: %d library-fini callbacks", p.idx, nfl);
  bool inex = false; for (int q = p.idx; P[q].parent >= 0; q = P[q].parent) if (P[P[q].parent].be_b < P[q].forkseq) inex = true; // the C library's exit state is inherited
  if (sim_is_dynamic && !p.nocb && nfl == 0 && !inex && p.s1 != INF && p.be_b != INF && p.fp_e < p.s1 && struck(p) == INF && !other_end(p)) bad("C02", "no-fini-library", p.idx, "process %d ended without library-fini", p.idx);
}

// ------------------------------------------------------------------ C03
bool blocked_forever(Pr &p, int tid, u32 lim);
void c03(Pr &p) {
  auto ch = chain(p.idx); u32 sup_e = INF; int nsup = 0; u32 first_pre = INF;
  for (u32 i : ch) { if (isb(E[i], CB_THR_SUPPORT)) nsup++; if (ise(E[i], CB_THR_SUPPORT)) sup_e = std::min(sup_e, i); if (isb(E[i], CB_PRE_CREATE)) first_pre = std::min(first_pre, i); }
  if (nsup > 1) bad("C03", "thread-support-count", p.idx, "%d thread-support-init callbacks", nsup);
  bool sup_cut = false; /* the parent was inside the callback at the fork */ for (int q = p.idx; P[q].parent >= 0; q = P[q].parent) { int open = 0; for (u32 i : P[P[q].parent].ev) if (i < P[q].forkseq) { if (isb(E[i], CB_THR_SUPPORT)) open++; if (ise(E[i], CB_THR_SUPPORT)) open--; } if (open > 0) sup_cut = true; }
  if (first_pre != INF && (sup_e == INF || sup_e > first_pre) && !sup_cut) bad("C03", "thread-support-late", p.idx, "thread-pre-create before thread-support-init");
  for (u32 i : p.ev) if ((isb(E[i], CB_PRE_CREATE) || isb(E[i], CB_POST_CREATE)) && (opof[i] < 0 || ops[opof[i]].code != O_CREATE)) bad("C03", "stray-create-cb", p.idx, "thread creation callback outside pthread_create");
  for (int oi : p.ops) {
    OpR &o = ops[oi]; if (o.code != O_CREATE) continue; int npre = 0, npost = 0, npostend = 0; u32 pre_e = INF, post_b = INF, real = INF; i64 tok = 0; int nt = -1;
    for (u32 i : o.evs) { Ev &e = E[i]; if (isb(e, CB_PRE_CREATE)) npre++; if (ise(e, CB_PRE_CREATE)) { pre_e = i; tok = e.a; } if (ise(e, CB_POST_CREATE)) npostend++; if (isb(e, CB_POST_CREATE)) { npost++; post_b = i; if (e.c != tok || pre_e == INF) bad("C03", "post-create-data", p.idx, "thread-post-create gets %llx, pre-create returned %llx", (long long)e.c, (long long)tok); } if (e.type == E_REAL_CREATE) { real = i; nt = e.a; } }
    bool full = o.ended && !o.unw; bool none = o.c == 1, pre_only = !none && (o.b & 8);
    if (none && (npre || npost)) bad("C03,C13", "ignored-create-cb", p.idx, "callbacks for a thread created while new threads are disabled or by an unmonitored thread");
    else if (pre_only && (npost || npre > 1 || (full && npre != 1))) bad("C03,C13", "ignored-create-cb", p.idx, "thread ignored in pre-create: %d pre, %d post callbacks", npre, npost);
    else if (!none && !pre_only) {
      if (o.ended && o.unw && npre && !npostend && tok != -1) bad("C03,C13", "create-cut", p.idx, "pthread_create cut off by a cancellation after pre-create, no post-create");
      if (npre > 1 || npost > 1 || (full && (npre != 1 || npost != 1))) bad("C03", "create-cb-count", p.idx, "pthread_create (result %lld): %d pre-create and %d post-create callbacks", (long long)o.r, npre, npost);
      if (real != INF && (pre_e == INF || pre_e > real)) bad("C03", "pre-create-late", p.idx, "thread created before pre-create has returned");
      if (post_b != INF && (real == INF || post_b < real)) bad("C03", "post-create-early", p.idx, "post-create before the thread is created");
      if (nt >= 0) { auto it = p.thr.find(nt); if (it != p.thr.end() && it->second.init_b != INF && it->second.init_data != tok) bad("C03", "init-thread-data", p.idx, "thread-init of thread %d gets %llx, pre-create returned %llx", nt, (long long)it->second.init_data, (long long)tok); }
    }
  }
  std::set<i64> tids;
  for (auto &kv : p.thr) {
    Thr &t = kv.second; if (t.tid == p.maint || t.tid < 0) { if (t.ninit) bad("C03", "init-thread-main", p.idx, "thread-init in the main thread"); continue; }
    if (t.ignored) { if (t.ninit || t.fini_b.size()) bad("C03,C13", "ignored-thread-cb", p.idx, "callbacks in an unmonitored thread"); continue; }
    if (t.ninit > 1) bad("C03", "init-thread-count", p.idx, "thread %d: %d thread-init callbacks", t.tid, t.ninit);
    if (t.start != INF && (t.init_e == INF || t.init_e > t.start)) bad("C03", "start-before-init", p.idx, "thread %d: start routine runs before thread-init has returned", t.tid);
    if (t.init_b != INF) { if (t.mtid <= 0) bad("C03", "tid-not-positive", p.idx, "thread-init with tid %lld", (long long)t.mtid); if (!tids.insert(t.mtid).second) bad("C03,C19", "tid-reused", p.idx, "tid %lld given to two threads", (long long)t.mtid); }
    if (t.fini_b.size() > 1) bad(t.fini_b[1] > p.be_b ? "C03,C04" : "C03", "fini-thread-count", p.idx, "thread %d: %zu thread-fini callbacks", t.tid, t.fini_b.size());
    if (!t.fini_b.empty()) {
      if (t.init_e == INF || t.init_e > t.fini_b[0]) bad("C03", "fini-before-init", p.idx, "thread %d: thread-fini although thread-init has not returned", t.tid);
      for (u32 i : t.fini_b) if (t.init_e != INF && E[i].c != t.init_tok) bad("C03", "fini-thread-data", p.idx, "thread %d: thread-fini gets %llx, thread-init returned %llx", t.tid, (long long)E[i].c, (long long)t.init_tok);
    }
    if (t.init_b != INF && t.init_e == INF && t.thr_end < p.be_b) bad("C03", "init-cut", p.idx, "thread %d ended in the middle of its thread-init callback", t.tid);
    if (t.init_e != INF && t.thr_end != INF && t.thr_end < p.be_b && t.fini_e.size() != 1 && !blocked_forever(p, t.tid, t.thr_end)) bad("C03", t.fini_b.empty() ? "fini-missing" : "fini-cut", p.idx, "thread %d ended before process exit with %zu thread-fini callbacks, %zu of them completed", t.tid, t.fini_b.size(), t.fini_e.size());
    else if (t.thr_end != INF && t.fini_b.size() && t.fini_e.size() < t.fini_b.size() && t.thr_end < p.s1) bad("C03", "fini-cut", p.idx, "thread %d ended in the middle of its thread-fini callback", t.tid);
  }
}

// ------------------------------------------------------------------ C04
bool main_gone(Pr &p) { return p.from_ignored && p.thr[p.maint].thr_end < p.fp_b; } // forked by an unmonitored thread that has ended since
// the callback is interrupted by a signal whose handling ends the process or waits for its end, so it can never return
bool cut_by_exit(Pr &p, int tid, u32 b) { for (int fi : p.frames) { FrR &f = fr[fi]; if (f.tid == tid && f.s0 > b && f.depth > E[b].depth && !f.ended) return true; } return false; }
bool blocked_forever(Pr &p, int tid, u32 lim) { for (int oi : p.ops) { OpR &o = ops[oi]; if (o.code == O_BLOCKSD && o.tid == tid && o.s0 < lim && (!o.ended || o.unw || o.rc == 3)) return true; if (o.code == O_UNRESP && o.tid == tid && o.unw) return true; } return false; } // a fatal signal struck inside the blocked region: it is never left
// a signal that ends the process strikes the thread between claiming its thread-fini and calling it
bool cut_in_claim(Pr &p, Thr &t, u32 lim) {
  for (int fi : p.frames) {
    FrR &f = fr[fi]; if (f.tid != t.tid || f.ended || f.sig == AP.shoot || f.s0 > lim) continue;
    if (t.app_end < f.s0 || t.cancelled < f.s0) return true;
    for (int gi : p.frames) { FrR &g = fr[gi]; if (g.tid == t.tid && g.sig == AP.shoot && g.s0 < f.s0 && !g.ended) return true; }
    int sw = open_op(p.idx, t.tid, f.s0, O_SIGWAIT); if (sw >= 0 && ops[sw].depth < f.depth) return true;
  }
  return false;
}
u64 vt(u32 s) { return E[s].vt; }
// A thread is able to run its thread-fini if, between begin-process-exit and
// process-fini, it has the shootdown signal open for a while; and the exiting
// thread gives up only after ten seconds in which no thread-fini starts.
u64 quiet_since(Pr &p, u32 lim) { u64 l = vt(p.be_e); for (auto &kv : p.thr) if (kv.first != p.win) for (u32 i : kv.second.fini_b) if (i < lim) l = std::max(l, vt(i)); return l; }
bool gave_up(Pr &p, u32 lim) { u64 sl = S->faults[FK_STALL] ? 5000000 : 0; return vt(lim) + sl >= quiet_since(p, lim) + 9500000; }
bool was_able(Pr &p, int tid, u32 lim) {
  u64 slack = 1000000 + (S->faults[FK_STALL] ? 5000000 : 0), a = vt(p.be_e), b = vt(lim); std::vector<std::pair<u64, u64>> iv;
  for (u32 i : p.ev) if (E[i].type == E_STOP && i > p.be_b) slack += 500000;
  for (int oi : p.ops) { OpR &o = ops[oi]; if (o.tid == tid && (o.code == O_BLOCKSD || o.code == O_UNRESP)) iv.push_back({o.v0, !o.ended || o.unw || o.rc == 3 ? ~0ULL : o.v1}); }
  for (int fi : p.frames) { FrR &f = fr[fi]; if (f.tid == tid && f.sig != AP.shoot) iv.push_back({f.v0, f.ended ? f.v1 : ~0ULL}); }
  std::sort(iv.begin(), iv.end()); u64 at = a; for (auto &x : iv) { if (x.second <= at) continue; if (x.first > at && std::min(x.first, b) > at + slack) return true; at = std::max(at, x.second); if (at >= b) return false; }
  return b > at + slack;
}
// which other guarantees a missing thread-fini breaks
const char *missing_tag(Pr &p, int tid, u32 lim) {
  bool blk = false, sw = false;
  for (int oi : p.ops) { OpR &o = ops[oi]; if (o.tid != tid || o.s0 >= lim) continue; if (o.code == O_BLOCKSD && (!o.ended || o.s1 > p.be_b || o.rc == 3)) blk = true; if (o.code == O_SIGWAIT && (!o.ended || o.s1 > p.be_b)) sw = true; }
  return blk ? "C04,C16" : sw ? "C04,C09" : "C04";
}
void c04(Pr &p) {
  if (p.fp_b == INF || p.be_b == INF || struck(p) < p.fp_b) return;
  if (p.winop >= 0 && ops[p.winop].code == O_EXEC && ops[p.winop].ended) return; // the exec failed late and the process lives on
  u32 lim = p.fp_b;
  for (auto &kv : p.thr) {
    Thr &t = kv.second; if (t.tid < 0) continue;
    for (size_t k = 0; k < t.fini_b.size(); k++) {
      if (t.fini_b[k] > lim) bad("C04", "fini-thread-after", p.idx, "thread-fini of thread %d starts after process-fini has begun", t.tid);
      else if ((k >= t.fini_e.size() || t.fini_e[k] > lim) && !cut_by_exit(p, t.tid, t.fini_b[k])) bad("C04", "fini-thread-overlap", p.idx, "thread-fini of thread %d is still running when process-fini begins", t.tid);
    }
  }
  for (int oi : p.ops) { OpR &o = ops[oi]; if (o.code != O_CREATE || o.s0 < lim) continue; for (u32 i : o.evs) if (E[i].type == E_REAL_CREATE && E[i].a >= 0 && p.thr.count(E[i].a) && p.thr[E[i].a].init_b != INF) bad("C04", "init-after-fini", p.idx, "thread %lld, created after process-fini has begun, gets a thread-init callback", (long long)E[i].a); }
  if (shoot_masked_initially()) return;
  u32 gl = lim; { auto wi = p.thr.find(p.win); if (wi != p.thr.end()) for (u32 i : wi->second.fini_b) if (i > p.be_b) gl = std::min(gl, i); } // the exiting thread's own thread-fini comes after the others'
  u32 others_last = 0; bool winmain = p.win == p.maint;
  for (auto &kv : p.thr) {
    Thr &t = kv.second; if (t.tid < 0 || t.ignored || t.tid == p.win) continue;
    for (u32 i : t.fini_e) others_last = std::max(others_last, i);
    if (t.tid == p.maint) {
      size_t n = t.fini_b.size();
      if (n > 1 || (n == 0 && !main_gone(p) && !cut_in_claim(p, t, lim) && !(t.thr_end < lim && blocked_forever(p, t.tid, lim)) && !(gave_up(p, gl) && !was_able(p, t.tid, gl)))) bad(n ? "C04" : missing_tag(p, t.tid, lim), "main-fini-count", p.idx, "process %d ended by thread %d: main thread gets %zu thread-fini callbacks", p.idx, p.win, n);
      for (u32 i : t.fini_b) if (E[i].c != p.ptok) bad("C04", "main-fini-data", p.idx, "thread-fini of the main thread gets %llx, process data is %llx", (long long)E[i].c, (long long)p.ptok);
      continue;
    }
    if (t.start == INF || t.start > p.be_e) continue;
    bool ok = false; for (u32 i : t.fini_e) if (i < lim) ok = true;
    if (!ok && t.fini_b.empty() && !cut_in_claim(p, t, lim)) {
      bool gone = t.app_end < lim || t.cancelled < lim || t.thr_end < lim, never = (gone && blocked_forever(p, t.tid, lim)) || (gave_up(p, gl) && !was_able(p, t.tid, gl));
      if (!never) bad(missing_tag(p, t.tid, lim), "fini-thread-missing", p.idx, "process %d: running thread %d got no thread-fini before process-fini", p.idx, t.tid);
    }
  }
  auto it = p.thr.find(p.win); if (it == p.thr.end()) return; Thr &w = it->second;
  if (winmain) { if (!w.fini_b.empty()) bad("C04", "main-fini-self", p.idx, "the main thread ends the process and gets a thread-fini callback"); }
  else if (!w.ignored && w.start != INF && w.start < p.be_b) {
    if (w.fini_b.size() > 1 || (w.fini_b.empty() && !cut_in_claim(p, w, lim))) bad("C04", "winner-fini-count", p.idx, "process %d: exiting thread %d gets %zu thread-fini callbacks", p.idx, w.tid, w.fini_b.size());
    else if (w.fini_b.size() == 1 && w.fini_b[0] > p.be_b && w.fini_b[0] < others_last && !has_unresp(p.idx)) bad("C04", "winner-fini-order", p.idx, "the exiting thread's thread-fini is not the last");
  }
}

// ------------------------------------------------------------------ C05
u64 overlap(u64 a0, u64 a1, u64 b0, u64 b1) { u64 lo = std::max(a0, b0), hi = std::min(a1, b1); return hi > lo ? hi - lo : 0; }
void c05(Pr &p) {
  if (p.be_b == INF || struck(p) != INF) return; u64 stall = S->faults[FK_STALL] ? 5000000 : 0;
  u64 a0 = vt(p.be_b), a1 = p.fp_e != INF ? vt(p.fp_e) : p.s1 != INF ? vt(p.s1) : S->maxvt; u64 allow = 2000000 + stall;
  std::map<std::pair<int, int>, u64> open;
  for (u32 i : p.ev) {
    Ev &e = E[i];
    if (iscb(e)) open[{e.tid, (e.type - E_CB) | e.depth << 8}] = e.vt;
    else if (e.type >= E_CB_END && e.type < E_CB_END + CB_N) { auto k = std::make_pair(e.tid, (e.type - E_CB_END) | e.depth << 8); if (open.count(k)) { allow += overlap(open[k], e.vt, a0, a1); open.erase(k); } }
    if (e.type == E_STOP && i > p.be_b) allow += 500000;
  }
  for (auto &k : open) allow += overlap(k.second, a1, a0, a1);
  for (int fi : p.frames) { FrR &f = fr[fi]; if (f.ended && f.sig != AP.shoot) allow += overlap(f.v0, f.v1, a0, a1); }
  for (int oi : p.ops) { OpR &o = ops[oi]; if (o.code == O_BLOCKSD) allow += o.rc == 3 && o.s0 < (p.fp_e == INF ? N : p.fp_e) && p.thr[o.tid].thr_end > p.be_b ? 13000000 : overlap(o.v0, o.ended ? o.v1 : a1, a0, a1); if (o.code == O_UNRESP && o.s0 < (p.fp_e == INF ? N : p.fp_e)) allow += 13000000; }
  if (shoot_masked_initially() || main_gone(p)) allow += 13000000;
  if (a1 - a0 > allow) bad("C05", "exit-slow", p.idx, "process %d: exit sequence takes %llu ms, callbacks and handlers explain %llu ms", p.idx, (unsigned long long)(a1 - a0) / 1000, (unsigned long long)allow / 1000);
  if (p.fp_e != INF && p.s1 != INF) {
    bool skip = false; if (p.winop >= 0 && (ops[p.winop].code == O_PEXIT || ops[p.winop].code == O_EXEC)) skip = true;
    if (p.winop >= 0) for (u32 i : p.ev) if (i > p.fp_e && E[i].type == E_CANCELLED && E[i].tid == ops[p.winop].tid) skip = true; // an exit handler of the application was a cancellation point
    if (p.winop < 0 && E[p.be_b].depth == 0 && p.parent >= 0) skip = true; // thread finish in a forked child
    u64 b0 = vt(p.fp_e), b1 = vt(p.s1), al = 3000000 + stall; open.clear();
    for (u32 i : p.ev) if (i > p.fp_e) { Ev &e = E[i]; if (e.type == E_ATEXIT_RUN) al += 10000; if (e.type == E_STOP) al += 500000; if (isb(e, CB_FINI_LIBRARY)) open[{e.tid, 0}] = e.vt; if (ise(e, CB_FINI_LIBRARY) && open.count({e.tid, 0})) al += e.vt - open[{e.tid, 0}]; }
    for (auto &k : open) al += b1 - k.second;
    for (int fi : p.frames) { FrR &f = fr[fi]; if (f.ended) al += overlap(f.v0, f.v1, b0, b1); }
    if (!skip && b1 - b0 > al) bad("C05", "end-slow", p.idx, "process %d: %llu ms from process-fini to the end of the process", p.idx, (unsigned long long)(b1 - b0) / 1000);
  }
}

// ------------------------------------------------------------------ C06
struct Cand;
std::vector<int> disp_cands(int p, int sig, u32 x0, u32 x1, int skipop);
void c06(Pr &p) {
  if (p.s1 == INF) return; Ev &pe = E[p.s1]; bool okst = false; int ncause = 0; std::vector<std::string> c; bool ex_norm = false, u_norm = false;
  for (u32 i : p.ev) { Ev &e = E[i]; if (i > p.s1) break;
    if (e.type == E_MAIN_END) { ncause++; ex_norm = true; if (pe.a == 0 && pe.b == (e.b & 255)) okst = true; }
    if (e.type == E_SIG_SEND && e.b == SIGKILL && pe.a == 1 && pe.b == SIGKILL) { okst = true; ncause++; }
    if (e.type == E_SIG_DROP && e.b == 9 && pe.a == 1 && pe.b == e.a) okst = true; }
  for (int oi : p.ops) { OpR &o = ops[oi];
    if (o.code == O_EXIT || o.code == O_UEXIT || o.code == O_REALEXIT) { ncause++; if (o.unw && o.code != O_EXIT) ncause++; if (o.code == O_EXIT) ex_norm = true; else u_norm = true; if (pe.a == 0 && pe.b == (o.a & 255)) okst = true; }
    if (o.code == O_REALABORT) { ncause++; if (o.unw) ncause++; u_norm = true; if (pe.a == 1 && pe.b == SIGABRT) okst = true; }
    if (o.code == O_EXEC || o.code == O_REALEXEC) { if (!o.ended) { ncause++; u_norm = true; if (pe.a == 2 && o.tid == pe.tid) okst = true; } }
    if (o.code == O_PEXIT) { ncause++; ex_norm = true; if (pe.a == 0 && pe.b == 0) okst = true; } }
  bool fatalframe = false;
  for (int fi : p.frames) { FrR &f = fr[fi]; if (f.sig == AP.shoot) continue; auto d = disp_cands(p.idx, f.sig, f.s0, f.s1 == INF ? N : f.s1, -1); bool dfl = false; for (int x : d) if (x >= 0 && (x & 255) == 0) dfl = true;
    if (dfl && fatal_dfl(f.sig) && (!f.ended || f.origin == 3)) { ncause++; u_norm = true; fatalframe = true; if (pe.a == 1 && pe.b == f.sig) okst = true; } }
  if (pe.a == 0 && pe.b == 0 && p.parent >= 0) okst = okst || (open_op(p.idx, pe.tid, pe.seq, O_EXIT) < 0 && open_op(p.idx, pe.tid, pe.seq, O_UEXIT) < 0 && pe.depth == 0); // thread finish in a child
  for (u32 k = 0; k < S->nviol; k++) if (!strcmp(S->viol[k].sig, "monitor-error-exit")) okst = true; // reported as such
  if (!okst) bad("C06", "status", p.idx, "process %d ended with %s %lld, which nothing asked for", p.idx, pe.a == 0 ? "exit code" : pe.a == 1 ? "signal" : "exec", (long long)pe.b);
  // the thread that begins the exit decides the status
  if (okst && p.be_b != INF && p.be_b < p.s1 && p.fp_e < p.s1 && struck(p) == INF) {
    bool other = other_end(p);
    int kind = -1; i64 st = 0;
    if (p.winop >= 0) { OpR &o = ops[p.winop]; if ((o.code == O_EXIT || o.code == O_UEXIT) && !o.unw) { kind = 0; st = o.a & 255; } }
    else if (E[p.be_b].depth == 0) { for (u32 i : p.ev) if (E[i].type == E_MAIN_END && E[i].tid == p.win && i < p.be_b) { kind = 0; st = E[i].b & 255; } }
    else for (int fi : p.frames) { FrR &f = fr[fi]; if (f.tid == p.win && f.depth == E[p.be_b].depth && f.s0 < p.be_b && (!f.ended || f.s1 > p.be_b)) { kind = 1; st = f.sig; } }
    if (!other && kind >= 0 && (pe.a != kind || pe.b != st)) bad("C06", "status-winner", p.idx, "process %d ended with %s %lld, but the thread that began its exit asked for %s %lld", p.idx, pe.a == 0 ? "exit code" : pe.a == 1 ? "signal" : "exec", (long long)pe.b, kind ? "signal" : "exit code", (long long)st);
  }
  // a fatal signal ends the process: its handler does not return once process-fini has run for it
  if (p.fp_e != INF && E[p.fp_e].depth > 0 && E[p.fp_e].a == 2) for (int fi : p.frames) { FrR &f = fr[fi];
    if (f.tid == E[p.fp_e].tid && f.depth == E[p.fp_e].depth && f.s0 < p.fp_e && f.ended && f.s1 > p.fp_e && f.origin != 3) bad("C06", "signal-survived", p.idx, "process %d: signal %d led to process-fini but did not end the process", p.idx, f.sig); }
  // default actions ignore and stop
  for (int fi : p.frames) { FrR &f = fr[fi]; if (f.sig == AP.shoot) continue; auto d = disp_cands(p.idx, f.sig, f.s0, f.s1 == INF ? N : f.s1, -1); bool all0 = !d.empty(), allq = !d.empty(); for (int x : d) { if (x < 0 || (x & 255) != 0) all0 = false; if (x < 0 || (x & 255) > 1) allq = false; }
    bool be = p.be_b != INF && E[p.be_b].tid == f.tid && E[p.be_b].depth == f.depth && p.be_b > f.s0 && (f.s1 == INF || p.be_b < f.s1) && opof[p.be_b] < 0;
    bool fatal = false; for (int x : d) if (x >= 0 && (x & 255) == 0 && fatal_dfl(f.sig)) fatal = true;
    if (be && !fatal && !d.empty()) bad("C06,C07", "nonfatal-ends", p.idx, "signal %d starts process exit although the application does not use a fatal default action", f.sig);
    if (all0 && stop_dfl(f.sig) && f.ended && !f.unw) { bool st = false, cli = false; for (u32 i = f.s0; i <= f.s1; i++) { if (E[i].pidx == p.idx && E[i].type == E_STOP) st = true; if (E[i].type == E_CLI_H_END && E[i].c == f.cookie && E[i].d == 0) cli = true; } if (!st && !cli) bad("C06,C07", "no-stop", p.idx, "signal %d did not stop the process", f.sig); } }
  // exit handlers
  std::vector<i64> reg; int nrun = 0, reg_before = 0; auto ch = chain(p.idx); int inherited_run = 0;
  for (u32 i : ch) { if (E[i].type == E_OP && E[i].a == O_ATEXIT) { reg.push_back(E[i].b); if (E[i].pidx != p.idx || i < p.be_b) reg_before++; } if (E[i].type == E_ATEXIT_RUN) { if (E[i].pidx == p.idx) nrun++; else inherited_run++; } }
  if (nrun > (int)reg.size() - inherited_run) bad("C06", "atexit-extra", p.idx, "process %d: %d exit handlers run, %zu registered", p.idx, nrun, reg.size());
  if (ncause == 1 && struck(p) == INF && !inherited_run && p.fp_e != INF) {
    if (ex_norm && !u_norm && pe.a == 0 && nrun < reg_before) bad("C06", "atexit-missing", p.idx, "process %d: %d of %d exit handlers run", p.idx, nrun, reg_before);
    u32 arun = INF; for (u32 i : p.ev) if (E[i].type == E_ATEXIT_RUN) { arun = i; break; }
    bool lastthr = arun != INF && p.thr[p.maint].thr_end < arun; // the last thread ended after main
    if (u_norm && !ex_norm && nrun && !lastthr) bad("C06", "atexit-unexpected", p.idx, "process %d: exit handlers run although the process ends by _exit, a signal or exec", p.idx);
  }
  (void)fatalframe;
}

// ------------------------------------------------------------------ C07 and handler masks (C08)
struct Wr { u32 s0, s1; int val; int op; };
std::map<std::pair<int, int>, std::vector<Wr>> writes; bool writes_built = false;
void build_writes() { if (writes_built) return; writes_built = true; for (size_t k = 0; k < ops.size(); k++) { OpR &o = ops[k]; if ((o.code == O_SIGACT || o.code == O_SIGNAL) && o.b >= 0 && !(o.ended && !o.unw && o.r != 0)) writes[{o.proc, (int)o.a}].push_back({o.s0, o.ended && !o.unw ? o.s1 : INF, (int)o.b, (int)k}); } }
// dispositions the application may have had installed at some moment of [x0,x1]; -1 = initial of the root with unknown flags
std::vector<int> disp_cands(int p, int sig, u32 x0, u32 x1, int skipop) {
  build_writes(); std::vector<int> r; auto it = writes.find({p, sig}); static const std::vector<Wr> none; const std::vector<Wr> &w = it == writes.end() ? none : it->second; bool init_over = false;
  for (auto &a : w) if ((int)a.op != skipop && a.s1 < x0) init_over = true;
  if (!init_over) {
    if (P[p].parent < 0) { int d = 0; for (u32 i = 0; i < N && i < 70; i++) if (E[i].type == E_DISP0 && E[i].pidx == p && E[i].a == sig) d = E[i].b & 255; r.push_back(d | (13 << 8)); }
    else { auto q = disp_cands(P[p].parent, sig, P[p].forkseq, P[p].forkseq, -1); r.insert(r.end(), q.begin(), q.end()); }
  }
  for (auto &a : w) { if (a.op == skipop || a.s0 > x1) continue; bool over = false; for (auto &b : w) if (b.op != a.op && b.op != skipop && a.s1 != INF && b.s0 > a.s1 && b.s1 < x0) over = true; if (!over) r.push_back(a.val); }
  return r;
}
// client handler registration: 1 certain, 0 impossible, 2 maybe
int cli_reg(int p, int sig, u32 x0, u32 x1) { bool may = false; for (int q = p; q >= 0; q = P[q].parent) { u32 a0 = q == p ? x0 : P[p].forkseq, a1 = q == p ? x1 : P[p].forkseq; if (q != p) { int ch = p; while (P[ch].parent != q) ch = P[ch].parent; a0 = a1 = P[ch].forkseq; } for (int oi : P[q].ops) { OpR &o = ops[oi]; if (o.code == O_CSIGACT && o.a == sig) { if (o.ended && o.r == 0 && !o.unw && o.s1 < a0) return 1; if (o.s0 < a1 && !(o.ended && o.r != 0)) may = true; } } } return may ? 2 : 0; }
bool cli_act(int p, int sig) { for (int q = p; q >= 0; q = P[q].parent) for (int oi : P[q].ops) { OpR &o = ops[oi]; if (o.code == O_CSIGACT && o.a == sig && o.c) return true; } return false; }
u64 kclient(int p) { u64 k = 0; for (int q = p; q >= 0; q = P[q].parent) for (int oi : P[q].ops) { OpR &o = ops[oi]; if (o.code == O_CSIGACT && o.a >= 1 && o.a <= 64) k |= SB(o.a); } return k; }
bool sysfork(int p) { for (; P[p].parent >= 0; p = P[p].parent) for (int c : {O_SYSTEM, O_REALSYSTEM}) if (any_open(P[p].parent, P[p].forkseq, c) >= 0) return true; return false; }
// is there one order of all sigaction/signal calls for sig that explains every old disposition they returned?
struct LinOp { u32 s0, s1; bool write, must; int val, old; };
static bool lin_ok(int cur, int want) { if (want == -5 || cur == -7) return true; int a = cur & 255, b = want & 255, xs = cur >> 8, ws = want >> 8; if (a != b) return false; return xs >= 12 || ws == 14 || xs == ws || xs == 7 || xs == 8; }
static bool lin_dfs(std::vector<LinOp> &v, u32 done, int cur, std::set<std::pair<u32, int>> &seen) {
  if (!seen.insert({done, cur}).second) return false; u32 mine = INF; bool all = true;
  for (size_t i = 0; i < v.size(); i++) if (!(done >> i & 1)) { if (v[i].must) all = false; if (v[i].must) mine = std::min(mine, v[i].s1); }
  if (all) return true;
  for (size_t i = 0; i < v.size(); i++) if (!(done >> i & 1) && v[i].s0 <= mine && lin_ok(cur, v[i].old) && lin_dfs(v, done | 1u << i, v[i].write ? v[i].val : cur == -7 && v[i].old >= 0 ? v[i].old : cur, seen)) return true;
  return false;
}
void c07_lin(Pr &p) {
  std::map<int, std::vector<LinOp>> m; std::map<int, bool> amb;
  for (int oi : p.ops) {
    OpR &o = ops[oi]; if ((o.code != O_SIGACT && o.code != O_SIGNAL) || o.a == AP.shoot || o.a < 1 || o.a > 64 || o.a == SIGKILL || o.a == SIGSTOP) continue; bool full = o.ended && !o.unw; if (full && o.r != 0) continue; if (!full && o.b < 0) continue;
    m[(int)o.a].push_back({o.s0, full ? o.s1 : INF, o.b >= 0, full, (int)o.b, full && o.rc >= 0 ? (int)o.rc : -5});
  }
  for (auto &x : m) {
    if (x.second.size() < 2 || x.second.size() > 20) continue; bool conc = false; for (auto &a : x.second) for (auto &b : x.second) if (&a != &b && a.s0 < b.s1 && b.s0 < a.s1) conc = true; if (!conc) continue;
    int init = -7; if (P[p.idx].parent < 0) { int d = 0; for (u32 i = 0; i < N && i < 70; i++) if (E[i].type == E_DISP0 && E[i].pidx == p.idx && E[i].a == x.first) d = E[i].b & 255; init = d | (13 << 8); }
    std::set<std::pair<u32, int>> seen; if (!lin_dfs(x.second, 0, init, seen)) bad("C07", "oldact-order", p.idx, "no order of the %d sigaction/signal calls for signal %d explains the old dispositions they returned", (int)x.second.size(), x.first);
  }
}
void c07(Pr &p) {
  c07_lin(p);
  for (int fi : p.frames) {
    FrR &f = fr[fi]; if (f.sig == AP.shoot) continue; u32 end = f.s1 == INF ? (p.s1 == INF ? N - 1 : p.s1) : f.s1; int nh = 0, nc = 0; i64 cret = -1; u32 hseq = INF, cseq = INF; i64 hb = 0;
    for (u32 i = f.s0 + 1; i < N && i <= end; i++) { Ev &e = E[i]; if (e.pidx != p.idx || e.tid != f.tid || e.depth != f.depth) continue; if (e.type == E_APP_H && e.a == f.sig) { nh++; hseq = std::min(hseq, i); hb = e.b; } if (e.type == E_CLI_H && e.c == f.cookie) { nc++; cseq = std::min(cseq, i); } if (e.type == E_CLI_H_END && e.c == f.cookie) cret = e.d; }
    int reg = cli_reg(p.idx, f.sig, f.s0, end);
    if (nc > 1 || (nc && reg == 0)) bad("C07", "client-handler-count", p.idx, "signal %d: client handler called %d times", f.sig, nc);
    if (reg == 1 && nc == 0 && f.ended && !f.unw) bad("C07", "client-not-first", p.idx, "signal %d: client handler not called", f.sig);
    if (nc && hseq < cseq) bad("C07", "client-not-first", p.idx, "signal %d: application handler called before the client's", f.sig);
    if (nc && cret == 0 && nh) bad("C07", "client-accepted", p.idx, "signal %d: application handler called although the client took the signal", f.sig);
    if (nh > 1) bad("C07", "handler-twice", p.idx, "signal %d: %d handler calls for one delivery", f.sig, nh);
    auto d = disp_cands(p.idx, f.sig, f.s0, nh ? hseq : end, -1);
    if (nh) {
      bool ok = false; for (int x : d) if ((x & 255) == hb) ok = true;
      if (!ok) bad("C07", "wrong-handler", p.idx, "signal %d: handler %lld called, which is not the installed disposition (%d candidates, first %d)", f.sig, (long long)hb, (int)d.size(), d.empty() ? -1 : d[0] & 255);
    } else if (f.ended && !f.unw && !(nc && cret == 0)) {
      bool allh = !d.empty(), allfatal = !d.empty(); for (int x : d) { if ((x & 255) < 10) allh = false; if ((x & 255) != 0) allfatal = false; }
      if (allh) bad("C07", "handler-not-called", p.idx, "signal %d delivered but the application's handler was not called", f.sig);
      bool retaken = false; if (allfatal && reg == 2) for (u32 i = f.s0 + 1; i < N && i <= end; i++) { Ev &e = E[i]; if (e.pidx == p.idx && e.tid == f.tid && e.depth > f.depth && e.type == E_CLI_H_END && e.a == f.sig && e.d == 0) retaken = true; } // a client handler registered meanwhile took the re-raised signal
      if (allfatal && !retaken && fatal_dfl(f.sig) && f.origin != 3) bad("C06,C07", "fatal-survived", p.idx, "signal %d with fatal default action was handled and the process went on", f.sig);
    }
    if (nc && cret == 0 && p.be_b != INF && E[p.be_b].tid == f.tid && E[p.be_b].depth == f.depth && p.be_b > f.s0 && p.be_b <= end && opof[p.be_b] < 0) bad("C07", "client-accepted-ends", p.idx, "signal %d taken by the client ends the process", f.sig);
  }
  bool probed_seen = p.parent >= 0; int nsys = 0;
  for (u32 i : p.ev) {
    Ev &e = E[i]; if (e.type == E_PROBEMASK) probed_seen = true;
    if (e.type == E_SIG_DROP && e.b == 0 && e.a != AP.shoot && probed_seen) {
      auto d = disp_cands(p.idx, e.a, i, i, -1); bool allh = !d.empty(); for (int x : d) if ((x & 255) < 10) allh = false; int rg = cli_reg(p.idx, e.a, i, i);
      bool sys = (e.a == SIGINT || e.a == SIGQUIT) && (any_open(p.idx, i, O_SYSTEM) >= 0 || any_open(p.idx, i, O_REALSYSTEM) >= 0 || sysfork(p.idx));
      bool mayign = d.empty(); for (int x : d) if (x < 0 || (x & 255) == 1) mayign = true; // what the application ignores has to be ignored in the kernel across an exec
      if (mayign && (any_open(p.idx, i, O_EXEC) >= 0 || any_open(p.idx, i, O_REALEXEC) >= 0)) rg = 0;
      if (!sys && (allh || rg == 1)) bad("C07", "signal-ignored", p.idx, "signal %lld ignored although a handler is installed", (long long)e.a);
    }
    if (e.type == E_QMASK && probed_seen && p.parent < 0) {
      if (cli_act(p.idx, e.a)) continue; u32 f0 = i; for (int fi : p.frames) { FrR &f = fr[fi]; if (f.tid == e.tid && f.depth == e.depth && f.s0 < i && (!f.ended || f.s1 > i)) f0 = f.s0; }
      u64 ig = AP.K0 | kclient(p.idx) | SB(SIGKILL) | SB(SIGSTOP) | SB(32) | SB(33); bool ok = false, any = false, flux = false; build_writes(); for (auto &w : writes[{p.idx, (int)e.a}]) { if (w.s0 < i && w.s1 > f0) flux = true; if ((e.a == SIGINT || e.a == SIGQUIT) && w.s0 < i) for (int oi : p.ops) if ((ops[oi].code == O_SYSTEM || ops[oi].code == O_REALSYSTEM) && ops[oi].s0 < w.s1 && ops[oi].s1 > w.s0) flux = true; } // system() puts the earlier action back, or the action changes while this frame is being set up
      if (!flux) for (int x : disp_cands(p.idx, e.a, f0, i, -1)) if ((x & 255) == e.d) { any = true; int sel = x >> 8; u64 w = e.c | (sel >= 12 ? 0 : maskset(sel)) | (nodefer(sel) ? 0 : SB(e.a)); if (((u64)e.b & ~ig) == (w & ~ig) || sel == 13 || sel == 14) ok = true; }
      if (any && !ok) bad("C07,C08", "handler-mask", p.idx, "handler of signal %lld runs with mask %llx (before: %llx), not the mask the application installed", (long long)e.a, (long long)e.b, (long long)e.c);
      (void)f0;
    }
  }
  for (int oi : p.ops) {
    OpR &o = ops[oi]; if ((o.code != O_SIGACT && o.code != O_SIGNAL) || !o.ended || o.unw || o.r != 0 || o.rc == -5) continue; if (o.a == AP.shoot || o.a < 1 || o.a > 64) continue;
    if ((o.a == SIGINT || o.a == SIGQUIT) && (o.c || nsys)) { }
    auto d = disp_cands(p.idx, o.a, o.s0, o.s1, oi); int lo = o.rc & 255, sl = o.rc >> 8; bool okl = false, oks = false;
    for (int x : d) if ((x & 255) == lo) { okl = true; int xs = x >> 8; if (xs >= 12 || sl == 14 || xs == sl || xs == 7 || xs == 8) oks = true; /* 7 and 8 depend on the keep-open set, unknown before the probe */ }
    if (!okl) bad("C07", "oldact", p.idx, "%s(%lld) reports old disposition %d, which the application did not have installed (%d candidates, first %d)", o.code == O_SIGNAL ? "signal" : "sigaction", (long long)o.a, lo, (int)d.size(), d.empty() ? -1 : d[0] & 255);
    else if (!oks) bad("C07", "oldact-mask", p.idx, "sigaction(%lld) reports a mask or flags the application did not install", (long long)o.a);
  }
}

// ------------------------------------------------------------------ C09
void c09(Pr &p) {
  u32 pm = p.parent >= 0 ? 0 : INF; for (u32 i : p.ev) if (E[i].type == E_PROBEMASK) pm = std::min(pm, i);
  for (int oi : p.ops) {
    OpR &o = ops[oi]; if (o.code != O_SIGWAIT || !o.ended || o.unw) continue; if ((o.b == 7 || o.b == 8) && (pm == INF || o.s0 < pm)) continue;
    u64 set = maskset(o.b); std::vector<u32> tk; std::map<i64, int> acc; std::map<i64, int> seen;
    for (u32 i = o.s0; i <= o.s1; i++) { Ev &e = E[i]; if (e.pidx != p.idx || e.tid != o.tid || e.depth != o.depth) continue; if (e.type == E_SWTAKE) tk.push_back(i); if (e.type == E_CLI_H) seen[e.c]++; if (e.type == E_CLI_H_END && e.d == 0) acc[e.c]++; }
    u64 el = o.v1 - o.v0, allow = 100000 + (S->faults[FK_STALL] ? 5000000 : 0);
    for (size_t k = 0; k < tk.size(); k++) {
      Ev &e = E[tk[k]]; bool last = k + 1 == tk.size() && o.r > 0; bool sh = e.a == AP.shoot;
      int rg = cli_reg(p.idx, e.a, o.s0, o.s1); if (!sh && rg == 1 && seen[e.c] != 1) bad("C07,C09", "client-not-asked", p.idx, "signal %lld taken by sigwait: client handler called %d times", (long long)e.a, seen[e.c]);
      if (!last && !sh && !acc.count(e.c)) bad("C09", "lost", p.idx, "signal %lld taken by a wait and neither returned nor taken by the client", (long long)e.a);
      if (last && acc.count(e.c)) bad("C09", "client-accepted", p.idx, "signal %lld returned to the application although the client took it", (long long)e.a);
    }
    if (o.r > 0) {
      if (tk.empty()) bad("C09", "invented", p.idx, "signal %lld returned without being taken", (long long)o.r);
      else { Ev &e = E[tk.back()]; if (e.a != o.r || (o.rc >= 0 && (o.a == 1 || o.a == 2) && e.c != o.rc)) bad("C09", "wrong-info", p.idx, "wait took signal %lld (%lld) but returned %lld (%lld)", (long long)e.a, (long long)e.c, (long long)o.r, (long long)o.rc); }
      if (!(set & SB(o.r))) bad("C09", "not-in-set", p.idx, "signal %lld returned, which was not waited for", (long long)o.r);
      if (o.r == AP.shoot) bad("C09", "shootdown-leak", p.idx, "the library's shootdown signal %lld was returned to the application", (long long)o.r);
    } else if (o.r == -1) {
      if (o.a < 2) bad("C09", "error", p.idx, "wait without time-out failed with errno %lld", (long long)o.rd);
      else if (o.rd != EAGAIN) bad("C09", "error", p.idx, "timed wait failed with errno %lld", (long long)o.rd);
      else if (el < (u64)o.c * 1000) bad("C09", "early", p.idx, "timed wait of %lld ms ended after %llu us", (long long)o.c, (unsigned long long)el);
    } else bad("C09", "result", p.idx, "wait returned %lld", (long long)o.r);
    if (o.a >= 2) {
      // time the thread spent in handlers and callbacks does not count
      for (int fi : p.frames) { FrR &f = fr[fi]; if (f.tid == o.tid && f.ended) allow += overlap(f.v0, f.v1, o.v0, o.v1); }
      std::map<int, u64> ob; for (u32 i = o.s0; i <= o.s1; i++) { Ev &e = E[i]; if (e.pidx != p.idx) continue; if (e.type == E_STOP) allow += 500000; if (e.tid != o.tid) continue; if (isb(e, CB_FINI_THREAD)) ob[0] = e.vt; if (ise(e, CB_FINI_THREAD) && ob.count(0)) allow += e.vt - ob[0]; if (e.type == E_CLI_H) ob[1] = e.vt; if (e.type == E_CLI_H_END && ob.count(1)) allow += e.vt - ob[1]; }
      if (el > (u64)o.c * 1000 + allow) bad("C09", "late", p.idx, "timed wait of %lld ms lasted %llu ms", (long long)o.c, (unsigned long long)el / 1000);
    }
  }
}

// ------------------------------------------------------------------ C10, C11, C12
void c10(Pr &p) {
  for (u32 i : p.ev) if (isb(E[i], CB_PRE_FORK) || isb(E[i], CB_POST_FORK)) { int c = opof[i] >= 0 ? ops[opof[i]].code : -1; if (c != O_FORK && c != O_SYSTEM) { const char *pr = c == O_REALSYSTEM ? "C10,C12" : "C10"; bad(pr, "stray-fork-cb", p.idx, "fork callback outside the application's fork and system calls"); } }
  for (int oi : p.ops) {
    OpR &o = ops[oi]; if (o.code != O_FORK && o.code != O_SYSTEM) continue; bool sys = o.code == O_SYSTEM, nosys = sys && o.b; int npre = 0, npost = 0, nreal = 0, nrs = 0; u32 pre_e = INF, real = INF, post_b = INF; i64 tok = 0, child = -9, pa = 0, pc = 0;
    for (u32 i : o.evs) { Ev &e = E[i]; if (isb(e, CB_PRE_FORK)) npre++; if (ise(e, CB_PRE_FORK)) { pre_e = i; tok = e.a; } if (isb(e, CB_POST_FORK)) { npost++; post_b = i; pa = e.a; pc = e.c; } if (e.type == E_REAL_FORK) { nreal++; real = i; child = e.a < 0 ? -1 : 1000 + e.a; } if (e.type == E_REALDL && e.a == 5) nrs++; }
    bool full = o.ended && !o.unw; const char *pr = sys ? "C12" : "C10";
    if (nosys) { if (npre || npost || nreal) bad("C12", "nosys-cb", p.idx, "system() override is switched off but forks or gives callbacks"); if (full && nrs != 1) bad("C12", "nosys-real", p.idx, "system() override is switched off: %d real calls", nrs); continue; }
    if (npre > 1 || npost > 1 || nreal > 1 || (full && (npre != 1 || npost != 1 || nreal != 1))) { bad(pr, "fork-cb-count", p.idx, "%s: %d pre-fork, %d post-fork callbacks, %d forks", sys ? "system" : "fork", npre, npost, nreal); continue; }
    if (o.ended && o.unw && nreal != npost) bad(pr, "fork-cb-cut", p.idx, "%s cut off by a cancellation: %d forks, %d post-fork callbacks", sys ? "system" : "fork", nreal, npost);
    if (real != INF && (pre_e == INF || pre_e > real)) bad(pr, "pre-fork-late", p.idx, "fork before pre-fork has returned");
    if (post_b != INF) { if (real == INF || post_b < real) bad(pr, "post-fork-early", p.idx, "post-fork before the fork"); if (pc != tok) bad(pr, "post-fork-data", p.idx, "post-fork gets %llx, pre-fork returned %llx", (long long)pc, (long long)tok); if (child != -9 && pa != child) bad(pr, "post-fork-pid", p.idx, "post-fork gets %lld, fork returned %lld", (long long)pa, (long long)child); }
    if (full && !sys) { if (o.r != child) bad("C10", "fork-ret", p.idx, "fork returned %lld, the real call %lld", (long long)o.r, (long long)child); if (child == -1 && o.rd != EAGAIN) bad("C10", "fork-errno", p.idx, "failed fork: errno %lld", (long long)o.rd); }
    if (sys && full && nrs) bad("C12", "real-system", p.idx, "system() override also calls the real system()");
  }
}
void c10_nocb(Pr &p) { // children of the client's own fork and of system()
  int code = p.forkop >= 0 ? ops[p.forkop].code : -1; for (u32 i : p.ev) if (iscb(E[i])) { bad(code == O_SYSTEM || code == O_REALSYSTEM ? "C12" : "C10", "cb-in-unmonitored-child", 0, "callback %d in the child of %s", E[i].type - E_CB, code == O_REALFORK ? "the client's own fork" : "system()"); break; }
}
void c11(Pr &p) {
  for (int oi : p.ops) {
    OpR &o = ops[oi];
    if (o.code == O_EXEC && o.c != 2) for (u32 i : o.evs) if (iscb(E[i])) { bad("C11", "exec-fail-exit", p.idx, "exec of a file that is not executable gives callback %d", E[i].type - E_CB); break; }
    if (o.code == O_REALEXEC && o.ended && !o.unw) { bool done = false; for (u32 i : o.evs) if (E[i].type == E_EXEC) done = true; if (o.a ? done : !done && o.c == 2) bad("C11", "client-exec-called", p.idx, o.a ? "the client's exec with a null argument reached the real exec" : "the client's exec never reached the real exec"); }
    if (o.code == O_REALEXEC) for (u32 i : o.evs) if (iscb(E[i])) { bad("C11", "client-exec-cb", p.idx, "the client's exec gives callback %d", E[i].type - E_CB); break; }
    if (o.code == O_EXEC && o.c == 2) { bool done = false; for (u32 i : o.evs) if (E[i].type == E_EXEC) done = true; if (o.ended && !o.unw && !done) bad("C11", "exec-not-called", p.idx, "exec of an executable file never reached the real exec"); }
    if (o.code == O_EXEC && !o.ended && p.s1 != INF && E[p.s1].a == 2 && E[p.s1].tid == o.tid) { bool mine = p.winop == oi; if (p.be_b != INF && mine && E[p.be_b].a != 3) bad("C02,C11", "exec-how", p.idx, "exec ends the process with reason %lld", (long long)E[p.be_b].a); if (p.fp_e == INF && struck(p) == INF) bad("C02,C11", "exec-no-fini", p.idx, "image replaced without the exit sequence"); }
  }
}

// ------------------------------------------------------------------ C15, C16
void c15(Pr &p) {
  for (int oi : p.ops) {
    OpR &o = ops[oi]; if (o.code != O_BCAST || !o.ended || o.unw) continue; std::map<i64, int> n;
    for (u32 i : o.evs) if (E[i].type == E_SIG_SEND && E[i].b == o.a && E[i].d != 2) n[E[i].a]++;
    if (o.r != 0 && o.r != -1) bad("C15", "result", p.idx, "broadcast returned %lld", (long long)o.r);
    if (o.r == -1 && !n.empty()) bad("C15", "failed-but-sent", p.idx, "broadcast returned failure after sending %zu signals", n.size());
    // it may fail only because of somebody else inside the library at the same time
    if (o.r == -1 && !p.nocb && (p.be_b == INF || p.be_b > o.s1) && p.ip_e != INF && p.ip_e < o.s0) {
      bool busy = false;
      for (int oj : p.ops) { OpR &q = ops[oj]; if (oj == oi || q.tid == o.tid || q.s0 > o.s1 || (q.ended && q.s1 < o.s0)) continue; if (q.code == O_CREATE || q.code == O_BCAST || q.code == O_EXIT || q.code == O_UEXIT || q.code == O_PEXIT || q.code == O_EXEC || q.code == O_FORK || q.unw || !q.ended) busy = true; }
      for (auto &kv : p.thr) { Thr &t = kv.second; if (t.tid == o.tid || t.tid == p.maint) continue; if (t.created < o.s1 && t.start > o.s0) busy = true; u32 e0 = std::min(t.app_end, t.cancelled); if (t.fini_b.size()) e0 = std::min(e0, t.fini_b[0]); if (e0 < o.s1 && t.thr_end > o.s0) busy = true; }
      if (!busy) bad("C15", "failed-alone", p.idx, "broadcast failed although no other thread was inside the library");
    }
    for (auto &kv : n) {
      auto it = p.thr.find(kv.first); Thr *t = it == p.thr.end() ? nullptr : &it->second;
      if (kv.second > 1) bad("C15", "sent-twice", p.idx, "broadcast sent %d signals to thread %lld%s", kv.second, (long long)kv.first, kv.first == p.maint ? " (main)" : "");
      if (kv.first == o.tid) bad("C15", "sent-self", p.idx, "broadcast signalled the caller");
      if (kv.first < 0) bad("C15", "sent-process", p.idx, "broadcast signalled the process");
      if (t && t->ignored) bad("C15", "sent-ignored", p.idx, "broadcast signalled the unmonitored thread %lld", (long long)kv.first);
      if (t && kv.first != p.maint && t->fini_e.size() && t->fini_e[0] < o.s0) bad("C15", "sent-finished", p.idx, "broadcast signalled the finished thread %lld", (long long)kv.first);
    }
    if (o.r != 0 || p.be_b < o.s1) continue;
    for (auto &kv : p.thr) { Thr &t = kv.second; if (t.tid < 0 || t.tid == o.tid || t.ignored || t.tid == p.maint || t.start == INF || t.start > o.s0) continue; if ((t.fini_b.size() && t.fini_b[0] < o.s1) || t.app_end < o.s1 || t.cancelled < o.s1 || t.thr_end < o.s1) continue; if (!n.count(t.tid)) bad("C15", "missed", p.idx, "broadcast succeeded but did not signal running thread %d", t.tid); }
    if (o.tid != p.maint) { Thr &m = p.thr[p.maint]; if (m.thr_end > o.s1 && !n.count(p.maint)) bad("C15", "missed-main", p.idx, "broadcast succeeded but did not signal the main thread"); }
  }
}
void c16(Pr &p) {
  for (auto &kv : p.thr) for (u32 i : kv.second.fini_b) if (E[i].a == 1 && E[i].tid != p.win) bad("C16", "fini-in-blocked", p.idx, "thread-fini starts in thread %d while it blocks shootdown", E[i].tid);
  u32 first_shoot = INF; for (u32 i : p.ev) if (E[i].type == E_SIG_SEND && E[i].b == AP.shoot && E[i].d == 1 && AP.shoot) first_shoot = std::min(first_shoot, i);
  for (int oi : p.ops) {
    OpR &o = ops[oi]; if (o.blkseq == INF) continue; auto it = p.thr.find(o.tid); if (it == p.thr.end()) continue; Thr &t = it->second; bool alive = o.tid == p.maint || (!t.ignored && t.start != INF && t.start < o.s0 && (t.fini_b.empty() || t.fini_b[0] > o.blkseq));
    if (o.blkret == 0 && t.fini_b.size() && t.fini_b[0] > p.be_b && t.fini_b[0] < o.blkseq && t.app_end > o.blkseq && t.cancelled > o.blkseq && o.tid != p.win) bad("C16", "block-after-fini", p.idx, "block-shootdown returned 0 although the thread's thread-fini has already run");
    if (!alive) continue;
    if (first_shoot < o.s0 && o.blkret != 1) bad("C16", "block-ret", p.idx, "block-shootdown returned %lld although exit shootdown has begun", (long long)o.blkret);
    if (p.be_b > o.blkseq && o.blkret != 0) bad("C16", "block-ret", p.idx, "block-shootdown returned %lld although process exit has not begun", (long long)o.blkret);
  }
}

// ------------------------------------------------------------------ C17
void c17(Pr &p) {
  for (u32 i : p.ev) { Ev &e = E[i]; if (!iscb(e)) continue; int k = e.type - E_CB; int c = opof[i] >= 0 ? ops[opof[i]].code : -1; if ((k == CB_PRE_DLOPEN || k == CB_DLOPEN) && c != O_DLOPEN) bad("C17", "stray-dlopen-cb", p.idx, "dlopen callback outside the application's dlopen"); if ((k == CB_DLCLOSE || k == CB_POST_DLCLOSE) && c != O_DLCLOSE) bad("C17", "stray-dlclose-cb", p.idx, "dlclose callback outside the application's dlclose"); }
  for (int oi : p.ops) {
    OpR &o = ops[oi]; if (!o.ended || o.unw) continue;
    if (o.code == O_DLOPEN || o.code == O_DLCLOSE) {
      bool op = o.code == O_DLOPEN; int kb = op ? CB_PRE_DLOPEN : CB_DLCLOSE, ka = op ? CB_DLOPEN : CB_POST_DLCLOSE; int nb = 0, na = 0, nr = 0; u32 be = INF, r = INF, ab = INF; Ev *eb = 0, *ea = 0, *er = 0;
      for (u32 i : o.evs) { Ev &e = E[i]; if (isb(e, kb)) { nb++; eb = &e; } if (ise(e, kb)) be = i; if (isb(e, ka)) { na++; ea = &e; ab = i; } if (e.type == E_REALDL && e.a == (op ? 0 : 1)) { nr++; r = i; er = &e; } else if (e.type == E_REALDL && e.a < 2) nr += 10; }
      const char *nm = op ? "dlopen" : "dlclose";
      if (nb != 1 || na != 1 || nr != 1) { bad("C17", "dl-count", p.idx, "%s: %d callbacks before, %d after, %d real calls", nm, nb, na, nr); continue; }
      if (!(be < r && r < ab)) bad("C17", "dl-order", p.idx, "%s: callbacks do not bracket the real call", nm);
      if (op) { if (eb->a != o.a || eb->b != o.b || ea->a != o.a || ea->b != o.b || er->b != o.a || er->c != o.b) bad("C17", "dl-args", p.idx, "dlopen: path or flags changed (flags app %lld pre %lld real %lld post %lld)", (long long)o.b, (long long)eb->b, (long long)er->c, (long long)ea->b); if (ea->c != er->d || o.r != er->d) bad("C17", "dl-result", p.idx, "dlopen: handle %llx, callback got %llx, application %llx", (long long)er->d, (long long)ea->c, (long long)o.r); }
      else { if (eb->c != o.rc || ea->c != o.rc || er->b != o.rc) bad("C17", "dl-args", p.idx, "dlclose: handle changed"); if (ea->a != er->d || o.r != er->d) bad("C17", "dl-result", p.idx, "dlclose: result %lld, callback got %lld, application %lld", (long long)er->d, (long long)ea->a, (long long)o.r); }
    }
    if (o.code == O_REALDLOPEN) { int no = 0, nc = 0; i64 h = 0, cr = 0; for (u32 i : o.evs) { Ev &e = E[i]; if (e.type == E_REALDL && e.a == 0) { no++; h = e.d; if (e.b != o.a || e.c != o.b) bad("C17", "real-dl-args", p.idx, "client dlopen: path or flags changed"); } if (e.type == E_REALDL && e.a == 1) { nc++; cr = e.d; } } if (no != 1 || o.r != h || (h && (nc != 1 || o.rc != cr))) bad("C17", "real-dl", p.idx, "client dlopen/dlclose did not pass through"); }
  }
}

// ------------------------------------------------------------------ C18
bool main_seen(int p, u32 s) { for (u32 i : chain(p)) { if (i >= s) break; if (E[i].type == E_MAIN_START) return true; } return false; }
void c18(Pr &p) {
  if (p.parent >= 0) for (int q = p.idx; P[q].parent >= 0; q = P[q].parent) if (any_open(P[q].parent, P[q].forkseq, O_MPI) >= 0 || any_open(P[q].parent, P[q].forkseq, O_SETSR) >= 0) return;
  for (u32 i : p.ev) { Ev &e = E[i]; if (!iscb(e)) continue; int k = e.type - E_CB; if (k != CB_MPI_PRE_INIT && k != CB_INIT_MPI && k != CB_FINI_MPI && k != CB_MPI_POST_FINI) continue; if (opof[i] < 0 || ops[opof[i]].code != O_MPI || ops[opof[i]].b == 9) bad("C18", "stray-mpi-cb", p.idx, "MPI callback %d outside an application MPI init or finalize call", k); }
  for (int oi : p.ops) {
    OpR &o = ops[oi]; if (o.code != O_MPI || o.b == 9 || !o.ended || o.unw) continue; bool ini = o.b != M_FINI; int kb = ini ? CB_MPI_PRE_INIT : CB_FINI_MPI, ka = ini ? CB_INIT_MPI : CB_MPI_POST_FINI; int nb = 0, na = 0, nx = 0; u32 be = INF, ab = INF, r0 = INF, r1 = 0; i64 ret = -1; int nr = 0;
    for (u32 i : o.evs) { Ev &e = E[i]; if (isb(e, kb)) nb++; else if (isb(e, ka)) { na++; ab = i; if (ini && (e.a != 3 || e.b != 1) && main_seen(p.idx, i)) bad("C18", "init-mpi-args", p.idx, "MPI init callback sees argc %lld", (long long)e.a); } else if (iscb(e) && e.type - E_CB >= CB_MPI_PRE_INIT && e.type - E_CB <= CB_MPI_POST_FINI) nx++; if (ise(e, kb)) be = i; if (e.type == E_REALMPI && e.a < 20) { if (e.c == 0) { r0 = std::min(r0, i); nr++; } else { r1 = i; ret = e.d; } } }
    if (nb != 1 || na != 1 || nx) bad("C18", "mpi-cb-count", p.idx, "MPI %s (variant %lld, %d nested real calls): %d callbacks before, %d after, %d others", ini ? "init" : "finalize", (long long)o.a, nr, nb, na, nx);
    else { if (!(be < r0 && r1 < ab)) bad("C18", "mpi-order", p.idx, "MPI callbacks do not bracket the real call"); }
    if (nr < 1) bad("C18", "mpi-no-real", p.idx, "real MPI call not made"); else if (o.r != ret) bad("C18", "mpi-ret", p.idx, "MPI call returned %lld, the real one %lld", (long long)o.r, (long long)ret);
  }
  // size and rank
  struct Src { u32 s0, s1; i64 size, rank; bool sure; }; std::vector<Src> src; std::vector<int> anc; for (int q = p.idx; q >= 0; q = P[q].parent) anc.push_back(q); std::vector<OpR *> all;
  for (int k = anc.size() - 1; k >= 0; k--) { u32 lim = k ? P[anc[k - 1]].forkseq : INF; for (int oi : P[anc[k]].ops) if (ops[oi].s0 < lim) all.push_back(&ops[oi]); }
  for (OpR *o : all) {
    if (o->code == O_SETSR) src.push_back({o->s0, o->ended ? o->s1 : INF, o->a, o->b, o->ended && !o->unw});
    if (o->code == O_MPI && o->b == 9) {
      i64 sz = -1, rk = -1; bool ok20 = false, ok21 = false; for (u32 i : o->evs) { Ev &e = E[i]; if (e.type == E_REALMPI && e.a == 20) { ok20 = e.d == 0; sz = e.b * 100 + 8; } if (e.type == E_REALMPI && e.a == 21) { ok21 = e.d == 0; rk = e.b * 10 + 3; } }
      bool may = false, sure = ok20 && ok21 && o->ended && !o->unw, fin = false;
      for (OpR *m : all) if (m->code == O_MPI && (m->b == M_INIT || m->b == M_INITT)) { if (m->s0 < o->s1) may = true; if (m->unw) sure = false; if (m->ended && m->s1 < o->s0) fin = true; if (m->s0 < o->s1 && (!m->ended || m->s1 > o->s0)) sure = false; }
      if (!fin) sure = false;
      if (may && ok20 && ok21) src.push_back({o->s0, o->ended ? o->s1 : INF, sz, rk, sure});
    }
  }
  i64 ls = -1, lr = -1; bool set = false;
  auto ch = chain(p.idx);
  for (u32 i : ch) { Ev &e = E[i]; if (e.type != E_SR) continue; bool own = e.pidx == p.idx; if (e.c > 0 && (e.a == -1 || e.b == -1)) continue; // read while a pair is being published
    if (set && (e.a != ls || e.b != lr)) { if (own) bad("C18", "sr-changed", p.idx, "size/rank changed from %lld/%lld to %lld/%lld", (long long)ls, (long long)lr, (long long)e.a, (long long)e.b); break; }
    if (e.a == -1 && e.b == -1) { bool must = false; for (auto &s : src) if (s.sure && s.s1 < i && e.c == 0) must = true; if (must && own) bad("C18", "sr-unset", p.idx, "size/rank still unset after a successful rank query"); continue; }
    bool ok = false; for (auto &s : src) { if (s.s0 > i || s.size != e.a || s.rank != e.b) continue; bool beaten = false; for (auto &z : src) if (z.sure && z.s1 < s.s0) beaten = true; if (!beaten) ok = true; }
    if (!ok && e.c > 0) { bool ca = e.a == -1, cb = e.b == -1; for (auto &s : src) { if (s.size == e.a) ca = true; if (s.rank == e.b) cb = true; } if (ca && cb) continue; }
    if (!ok && own) { bad("C18", "sr-wrong", p.idx, "size/rank is %lld/%lld, which is not the pair of the first successful call", (long long)e.a, (long long)e.b); break; }
    if (e.c == 0) { set = true; ls = e.a; lr = e.b; }
  }
}

// ------------------------------------------------------------------ C19
void c19(Pr &p) {
  std::vector<std::pair<u32, int>> ed; i64 bytes = 0;
  for (int oi : p.ops) { OpR &o = ops[oi]; if (o.code != O_CREATE) continue; u32 e = o.ended ? o.s1 : INF; int nt = -1; for (u32 i : o.evs) { if (E[i].type == E_REAL_CREATE) nt = E[i].a; }
    if (nt >= 0) { Thr &t = p.thr[nt]; if (!t.ignored) e = std::max(o.ended ? o.s1 : INF, t.thr_end); } ed.push_back({o.s0, 1}); if (e != INF) ed.push_back({e, -1}); }
  std::sort(ed.begin(), ed.end()); int cur = 0, peak = 0; for (auto &x : ed) { cur += x.second; peak = std::max(peak, cur); }
  i64 live = 0; std::map<i64, i64> blk; // blocks allocated inside pthread_create before exit began
  for (u32 i : p.ev) { if (i >= p.be_b) break; if (E[i].type != E_MALLOC) continue; if (E[i].a >= 0) { int c = opof[i]; if (c >= 0 && ops[c].code == O_CREATE) { blk[E[i].b] = E[i].a; live += E[i].a; } } else { auto it = blk.find(E[i].b); if (it != blk.end()) { live -= it->second; blk.erase(it); } } bytes = std::max(bytes, live); }
  if (bytes > 128LL * (peak + 8) * (sim_tn_array > 64 ? 120 : 1)) bad("C19", "memory", p.idx, "process %d: %lld bytes in use for bookkeeping, at most %d threads existed at once", p.idx, (long long)bytes, peak);
}
}

void oracle() {
  if (S->verdict == V_LOGFULL || S->verdict == V_INTERNAL) return;
  build(); if (!AP.shoot) AP.shoot = S->shoot; if (!AP.shoot) for (u32 i = 0; i < N && !AP.shoot; i++) if (E[i].type == E_SIG_SEND && E[i].d == 1 && E[i].a >= 0 && E[i].a != E[i].tid && (opof[i] < 0 || ops[opof[i]].code != O_BCAST)) AP.shoot = E[i].b; // main was never reached
  bool complete = S->verdict == V_OK;
  for (auto &p : P) {
    if (!p.seen) continue; if (p.nocb) { c10_nocb(p); continue; }
    c01(p); c02(p); c03(p); if (complete) { c04(p); c06(p); } c05(p); c07(p); c09(p); c10(p); c11(p); c15(p); c16(p); c17(p); c18(p); c19(p);
  }
}
