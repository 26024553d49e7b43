// Seeded workload generator and the text form of a run configuration.
#include "sim.h"
#include "app.h"
#include <cstdio>
#include <cstring>
#include <sstream>
#include <map>
#include <algorithm>

struct Feat {
  int tmax, tp;          // most threads, percent of runs with threads
  int early, fork, sys, exec, sig, sigwait, mask, cancel, dl, mpi, bcast, blocksd, ignore, many, cli, unresp;
  int sideend, fatal, atex, real, key, query, asig, envsig, hexit, fault, attr, cbdur, cbio, stall, jump;
};
// percent-like weights; the order follows struct Feat
static const std::map<std::string, Feat> feats = {
  //          tmax tp ear frk sys exe sig sgw msk can dl mpi bc blk ign man cli unr  sid fat atx rea key qry asg env hex flt att cbd cbi stl jmp
  {"general", {4, 75, 15, 15,  8,  8, 20,  8, 10, 15, 4, 4,  8,  8, 10,  3, 15,  1,  30, 20, 20,  8, 10, 15, 20, 20, 10, 30, 15, 40, 30, 25, 10}},
  {"C01",     {3, 60, 70, 40,  5,  5,  8,  2,  3,  5, 2, 0,  2,  2, 10,  0, 10,  0,  15,  5,  5,  8,  3, 10, 10,  5,  0, 40,  5, 30, 10, 20,  0}},
  {"C02",     {5, 85, 10, 15,  3, 15, 20,  8,  3, 15, 2, 0,  3,  5, 20,  0, 10,  1,  75, 45, 40,  6,  5,  5, 35, 30, 25, 25,  3, 45, 50, 35, 10}},
  {"C03",     {6,100, 10,  5,  2,  2, 15, 10,  5, 45, 2, 0,  5, 10, 15,  8, 10,  1,  35, 15,  5,  2, 15, 10, 35, 15,  8, 50, 15, 40, 55, 30,  5}},
  {"C04",     {6,100,  8,  5,  2,  4, 25, 25, 12, 15, 2, 0,  5, 20, 10,  3, 12,  6,  60, 20,  5,  2, 10,  5, 30, 20, 15, 15,  5, 50, 30, 45, 25}},
  {"C05",     {6,100,  5, 10,  5,  6, 25, 25, 10, 20, 2, 2, 10, 20, 10,  3, 12,  8,  60, 25, 15,  3,  5,  5, 45, 25, 25, 25,  5, 50, 40, 45, 35}},
  {"C06",     {4, 75, 10, 20, 10, 15, 25,  5,  5, 10, 2, 0,  3,  5, 10,  0, 10,  0,  55, 40, 70,  6,  5,  3, 25, 25, 25, 35,  3, 40, 30, 30,  5}},
  {"C07",     {4, 80,  5,  8, 10,  3, 80, 10, 15,  5, 0, 0,  5,  3,  5,  0, 45,  0,  20, 15,  3,  2,  3,  5, 70, 60,  5, 15,  3, 20, 10, 20,  0}},
  {"C08",     {4, 70, 10, 12, 10,  6, 50, 15, 80,  8, 0, 0,  3,  5,  8,  0, 35,  0,  20, 10,  3,  3,  3,  5, 35, 30,  3, 20, 10, 20, 10, 15,  0}},
  {"C09",     {5, 95,  3,  3,  2,  2, 50, 85, 15, 10, 0, 0, 10,  8,  5,  0, 40,  1,  40, 10,  3,  2,  3,  3, 40, 60,  3, 40,  3, 35, 15, 30, 10}},
  {"C10",     {4, 70, 30, 85, 25,  6, 15,  4,  6,  8, 2, 2,  5,  8, 15,  3,  8,  0,  25, 15, 10, 15,  8, 20, 20, 15,  5, 45, 10, 30, 10, 30,  0}},
  {"C11",     {3, 50,  8, 25, 10, 85, 25,  5, 12,  5, 0, 0,  2,  2,  8,  0, 15,  0,  25, 10,  8, 25,  3,  3, 15, 10,  5, 50,  3, 30, 10, 15,  0}},
  {"C12",     {4, 65,  3, 10, 85,  3, 35,  5, 25,  3, 0, 0,  2,  2,  8,  0, 15,  0,  15,  8,  5, 15,  3,  3, 30, 35,  3, 60,  3, 20, 10, 20,  0}},
  {"C13",     {6,100, 12,  6,  2,  2, 12,  5, 15, 20, 0, 0,  2,  2, 35,  8,  8,  0,  20,  5,  3,  2, 15, 15, 20, 10,  2, 55, 75, 20, 10, 15,  0}},
  {"C14",     {5, 90, 25, 30,  5,  3, 25,  5,  5, 15, 0, 0,  3,  3, 35,  5, 20,  0,  25, 10,  5,  5, 40, 85, 35, 15,  5, 45, 10, 25, 15, 20,  0}},
  {"C15",     {6,100,  4,  6,  2,  2, 35, 10, 10, 12, 0, 0, 85,  8, 15,  3, 25,  0,  40, 10,  3,  2,  5,  3, 40, 20,  5, 25,  3, 25, 10, 30,  3}},
  {"C16",     {5, 95,  4,  6,  2,  3, 25,  8,  5, 15, 0, 0,  5, 85,  8,  0, 25,  2,  55, 15,  5,  2,  5,  3, 30, 20,  8, 15,  3, 35, 20, 35,  5}},
  {"C17",     {4, 60, 12, 10,  4,  3, 10,  3,  3,  5,85, 0,  2,  2, 10,  0,  8,  0,  20,  5,  3,  8,  3,  3, 15,  8,  3, 45,  3, 30,  5, 20,  0}},
  {"C18",     {4, 70,  8,  8,  3,  2, 10,  3,  3,  5, 3,90,  2,  2,  8,  0,  5,  0,  20,  8,  3,  3,  3,  3, 15,  8,  3, 45,  3, 30,  5, 25,  0}},
  {"C19",     {5,100,  5,  5,  2,  2, 10,  5,  3, 20, 0, 0,  4,  5, 25, 75,  5,  0,  20,  5,  3,  2,  5,  5, 20, 10,  2, 40, 10, 15, 15, 15,  0}},
};

namespace {
struct Gen {
  Config &c; Rng r; Feat f; int T = 0; bool inf_ok = true; std::string prof;
  std::vector<int> creator; std::vector<bool> cancellable, joined, detached, ignored; int leaf0 = 0;
  Gen(Config &cc, const std::string &p, u64 seed) : c(cc), r{mix64(seed * 0x9e3779b97f4a7c15ULL + 77)}, prof(p) { auto it = feats.find(p); f = it == feats.end() ? feats.at("general") : it->second; if (r.chance(f.sig / 2)) { static const int s[] = {SIGUSR1, SIGUSR2, 35, SIGTERM, SIGALRM, SIGURG}; hot = pick(s); } }
  int hot = 0; // most of the run's signals are this one: concurrent changes and deliveries of one signal
  bool on(int w) { return r.chance(w); }
  template <size_t N> int pick(const int (&a)[N]) { return a[r.below(N)]; }
  int usersig() { if (hot && r.chance(75)) return hot; static const int s[] = {SIGUSR1, SIGUSR1, SIGUSR2, SIGUSR2, SIGALRM, SIGTERM, 35, 50, SIGURG, SIGCHLD, SIGHUP, SIGINT, SIGQUIT, SIGPROF, 37, SIGPIPE, SIGWINCH, SIGCONT}; return r.chance(15) ? anysig() : pick(s); }
  int anysig() { for (;;) { int s = 1 + r.below(64); if (s != SIGKILL && s != SIGSTOP && s != 32 && s != 33 && s != SIGSEGV && s != SIGTSTP && s != SIGTTIN && s != SIGTTOU) return s; } }
  int hid() { static const int h[] = {0, 0, 1, 1, 2, 3, 5, 6, 0, 1}; int x = pick(h); if (on(f.bcast / 3)) x = 7; if (on(f.blocksd / 4)) x = 9; if (on(f.hexit / 2)) x = on(50) ? 4 : 8; return x; }
  int disp() { if (r.chance(8)) return 0; if (r.chance(10)) return 1; return (r.chance(50) ? 10 : 50) + hid(); }
  Op sigact() {
    int s = usersig(), d = disp(); if (r.chance(12)) d = -1; int sel = r.below(12);
    if (r.chance(3)) { static const int bad[] = {0, -1, 32, 33, 64, 65, SIGKILL, SIGSTOP, 999, SIGSEGV, SIGTSTP, SIGTTIN, SIGTTOU}; s = pick(bad); if (s == SIGSEGV) d = (r.chance(50) ? 10 : 50) + (r.chance(50) ? 0 : 3); if (s == SIGTSTP || s == SIGTTIN || s == SIGTTOU) d = 10; }
    if (r.chance(25) && d >= 0) return {O_SIGNAL, s, d >= 50 ? d - 40 : d, 0};
    return {O_SIGACT, s, d, sel};
  }
  Op send(int self, int nth) {
    int s = usersig(), w = r.below(10); (void)self;
    if (w < 3) return {O_RAISE, 0, s, 0}; if (w < 5) return {O_KILLP, 0, s, 0};
    int t = -1; if (nth > 0 && r.chance(75)) { t = 1 + r.below(nth); if (joined[t] || detached[t]) t = -1; }
    return {O_KILLT, t, s, 0};
  }
  int st() { if (r.chance(20)) return 120 + r.below(136); if (r.chance(4)) return r.chance(50) ? -1 : 256 + (int)r.below(300); return r.below(120); } // exit status
  Op compute() { static const int d[] = {100, 1000, 5000, 20000, 80000, 150000, 400000, 1500000}; return {O_COMPUTE, d[r.below(r.chance(80) ? 6 : 8)], 0, 0}; }
  Op io_() { static const int d[] = {200, 3000, 40000, 200000}; return {O_IO, pick(d), 0, 0}; }
  Op sigwait_(bool inf) { int form = r.below(4); static const int to[] = {0, 1, 20, 120, 350, 900, 1500}; if (!inf && form < 2) form = 2 + r.below(2); static const int sets[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 4, 1}; return {O_SIGWAIT, form, pick(sets), form >= 2 ? pick(to) : 0}; }
  Op exec_(bool client) { static const int na[] = {1, 2, 5, 62, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 260}; int n = r.chance(70) ? 1 + (int)r.below(6) : pick(na); if (client) return {O_REALEXEC, 0, (int)r.below(13), (int)r.below(16)}; return {O_EXEC, (int)r.below(6), (int)r.below(13), n}; }
  Op mpi_() {
    if (r.chance(20)) return {O_SETSR, 4 + (int)r.below(4), (int)r.below(4), 0};
    int v = r.below(8); if (r.chance(40)) return {O_MPI, v, 9, 1 + (int)r.below(6)};
    int k = r.below(3), nest = 0; if (r.chance(45)) { nest = r.below(8); if (r.chance(40)) nest |= r.below(8) << 4; } if (r.chance(30)) nest |= 0x100; return {O_MPI, v, k, nest};
  }
  // one body operation for thread program i (0 = main)
  Op body(int i, bool child) {
    struct E { int w; int k; }; std::vector<E> v = {{22, 0}, {14, 1}, {4, 2}, {f.query, 3}, {f.sig / 2, 4}, {f.sig / 2, 5}, {f.mask, 6}, {f.sigwait, 7}, {f.sys, 8}, {f.dl, 9}, {f.mpi, 10}, {f.bcast, 11}, {f.blocksd, 12}, {f.key, 13}, {f.cli / 2, 14}, {f.exec / 2, 15}, {f.real / 2, 16}, {f.atex / 4, 17}, {i ? f.cancel / 4 : 0, 18}, {child ? 0 : f.fork, 19}, {f.fork / 3, 20}, {f.many / 2, 21}, {2, 22}, {f.sig / 12, 23}, {f.sig / 10, 24}};
    int tot = 0; for (auto &e : v) tot += e.w; int x = r.below(tot), k = 0; for (auto &e : v) { if (x < e.w) { k = e.k; break; } x -= e.w; }
    bool mine = i < (int)cancellable.size();
    switch (k) {
    case 0: return compute(); case 1: return io_(); case 2: return {O_YIELD, 0, 0, 0}; case 3: return {O_QUERY, 0, 0, 0}; case 4: return sigact(); case 5: return send(i, child ? 0 : T);
    case 6: { int how = r.chance(4) ? 3 : (int)r.below(3); return {O_MASK, how, r.chance(8) ? 40 : (int)r.below(12), (int)r.below(r.chance(15) ? 4 : 2)}; }
    case 7: { bool inf = !child && i > 0 && inf_ok && mine && !joined[i] && r.chance(50); return sigwait_(inf); }
    case 8: if (r.chance(10)) return {O_SYSNULL, (int)r.below(2), 0, 0}; return {r.chance(25) ? O_REALSYSTEM : O_SYSTEM, (int)r.below(5), 0, 0};
    case 9: if (r.chance(50)) return {O_DLOPEN, (int)r.below(5) - 1, 1 + (int)r.below(2), 0}; if (r.chance(70)) return {O_DLCLOSE, r.chance(10) ? -1 : (int)r.below(6), 0, 0}; return {O_REALDLOPEN, (int)r.below(4), 1, 0};
    case 10: return mpi_(); case 11: return {O_BCAST, r.chance(60) ? SIGUSR2 : usersig(), 0, 0};
    case 12: { static const int d[] = {50, 3000, 30000, 250000, 900000}, l[] = {4000000, 7000000, 12000000, 16000000}; bool lp = prof == "C04" || prof == "C05" || prof == "C16"; int us = lp && r.chance(25) ? pick(l) : pick(d); return {O_BLOCKSD, us, r.chance(lp ? 10 : 4) ? 1 : 0, 0}; }
    case 13: return {O_KEYSET, 0, 0, 0};
    case 14: { static const int s[] = {SIGPROF, 37, SIGUSR1, SIGALRM, SIGTERM, 35, SIGCHLD, 0, 32, SIGKILL, 65}; int sg = s[r.below(r.chance(85) ? 7 : 11)]; if (r.chance(20)) { sg = anysig(); if (sg == SIGINT || sg == SIGQUIT) sg = SIGIO; } return {O_CSIGACT, sg, 1 + (int)r.below(6), (int)r.below(2)}; }
    case 15: { Op o = exec_(false); if (r.chance(75)) { static const int bad[] = {6, 7, 8, 12, 4}; o.b = pick(bad); } return o; }
    case 16: if (r.chance(40)) return {O_REALFORK, (int)r.below(100), r.chance(50) ? 1 : 0, 0}; if (r.chance(40)) return {O_REALDLOPEN, (int)r.below(4), 1, 0}; { Op o = exec_(true); static const int bad[] = {6, 7, 8, 12}; o.b = pick(bad); return o; }
    case 17: return {O_ATEXIT, 1 + (int)r.below(30), 0, 0};
    case 18: return r.chance(60) ? Op{O_TESTCANCEL, 0, 0, 0} : Op{O_SETCANCEL, (int)r.below(2), 0, 0};
    case 19: return fork_(i); case 20: return {O_WAIT, 0, 0, 0};
    case 21: { int n = 2 + (int)r.below(14), fl = r.below(8); if (r.chance(12)) n = 40 + r.below(80); if (r.chance(12)) fl |= 8; if (r.chance(25)) fl |= 16; return {O_MANY, n, fl, 0}; }
    case 22: return {O_INITIALIZE, 0, 0, 0}; case 23: return {O_STOPSELF, (int)r.below(3), 0, 0};
    case 24: return {O_QUERY, 0, 0, 0};
    }
    return compute();
  }
  int addprog() { c.progs.push_back(Program()); return c.progs.size() - 1; }
  int depth = 0;
  Op fork_(int) { if (c.progs.size() > 14 || depth > 1) return compute(); int p = addprog(); fill_child(p); return {O_FORK, p, (int)r.below(2), 0}; }
  void end_op(std::vector<Op> &o, bool main, bool side) {
    struct E { int w; int k; }; std::vector<E> v = {{30, 0}, {25, 1}, {20, 2}, {8, 3}, {f.fatal, 4}, {f.exec, 5}, {main ? 12 : 25, 6}, {f.real / 3, 7}, {5, 8}};
    if (side) { v = {{100 - f.sideend, 0}, {f.sideend / 3, 1}, {f.sideend / 3, 2}, {f.sideend / 10, 3}, {f.fatal / 2, 4}, {f.exec / 3, 5}, {25, 6}, {f.real / 8, 7}, {10, 8}}; }
    int tot = 0; for (auto &e : v) tot += std::max(0, e.w); int x = r.below(tot), k = 0; for (auto &e : v) { if (e.w <= 0) continue; if (x < e.w) { k = e.k; break; } x -= e.w; }
    switch (k) {
    case 0: o.push_back({O_RET, st(), 0, 0}); break;
    case 1: o.push_back({O_EXIT, st(), 0, 0}); break;
    case 2: o.push_back({O_UEXIT, st(), 0, 0}); break;
    case 3: o.push_back({O_UUEXIT, st(), 0, 0}); break;
    case 4: { int w = r.below(4); static const int fs[] = {SIGTERM, SIGABRT, SIGUSR1, SIGHUP, SIGFPE, SIGBUS, 50, SIGSEGV, SIGILL}; int s = r.chance(35) ? anysig() : pick(fs);
        if (w == 0) { o.push_back({O_SEGV, 0, 0, 0}); } else { if (r.chance(80) && s != SIGFPE) o.push_back({O_SIGACT, s, 0, 9}); if (w == 1) o.push_back({O_KILLP, 0, s, 1}); else o.push_back({O_RAISE, 0, s, 1}); } if (main) o.push_back({O_RET, st(), 0, 0}); break; }
    case 5: { Op e = exec_(false); static const int ok[] = {0, 1, 2, 3, 5, 9, 10, 11}; e.b = pick(ok); o.push_back(e); if (main) o.push_back({O_EXIT, st(), 0, 0}); break; }
    case 6: if (main) inf_ok = false; o.push_back({O_PEXIT, (int)r.below(100), 0, 0}); break;
    case 7: { int w = r.below(3); if (w == 0) o.push_back({O_REALEXIT, st(), 0, 0}); else if (w == 1) o.push_back({O_REALABORT, 0, 0, 0}); else { Op e = exec_(true); e.b = r.below(2); o.push_back(e); } if (main) o.push_back({O_RET, 5, 0, 0}); break; }
    case 8: break;
    }
  }
  void fill_child(int p) {
    depth++; std::vector<Op> o; int n = r.below(5); bool mk = f.tp > 0 && r.chance(35); std::vector<int> made;
    for (int i = 0; i < n; i++) {
      if (mk && r.chance(40) && c.progs.size() < 15) { int l = addprog(); fill_leaf(l); int fl = 0; if (on(f.ignore / 2)) fl |= r.chance(50) ? 8 : 16; o.push_back({O_CREATE, l, fl, 0}); made.push_back(l); continue; }
      if (r.chance(20) && depth < 3) { Op x = fork_(0); if (x.code == O_FORK) { o.push_back(x); continue; } }
      o.push_back(body(99, true));
    }
    for (int l : made) if (r.chance(50)) o.push_back({O_JOIN, l, 0, 0});
    bool sv = inf_ok; end_op(o, false, false); inf_ok = sv; c.progs[p].ops = o; depth--;
  }
  void fill_leaf(int p) { std::vector<Op> o; int n = r.below(3); for (int i = 0; i < n; i++) { Op b = body(99, true); if (b.code == O_EXEC || b.code == O_SYSTEM || b.code == O_REALSYSTEM || b.code == O_MANY) b = compute(); o.push_back(b); } if (r.chance(15)) o.push_back({O_EXIT, (int)r.below(100), 0, 0}); else if (r.chance(20)) o.push_back({O_PEXIT, 3, 0, 0}); c.progs[p].ops = o; }
  void go(u64 seed) {
    c = Config(); c.seed = seed; c.profile = prof;
    // ---- knobs
    int *k = c.knob; static const int sw[] = {0, 1, 2, 2, 3, 3, 4, 4, 5, 6}; k[K_SWITCH] = pick(sw); if (r.chance(45)) k[K_HOT] = 2 + r.below(20);
    if (on(f.stall)) k[K_STALL] = 1 + r.below(20); if (on(f.asig)) k[K_ASIG] = 2 + r.below(40); if (on(f.cancel)) k[K_ACANCEL] = 2 + r.below(30);
    if (on(f.fault)) k[K_FAULT] = 1 + r.below(3); if (on(f.cbdur)) k[K_CBDUR] = 1 + r.below(f.unresp >= 5 || f.sideend >= 75 || r.chance(8) ? 4 : 3); if (on(f.cbio)) k[K_CBIO] = 1; if (on(f.jump)) k[K_JUMP] = 1;
    if (r.chance(12)) k[K_DEBUG] = 1; if (on(prof == "C08" ? 35 : 10)) k[K_SDENV] = r.below(n_sdenv()); k[K_EARLYFIRST] = r.chance(50); if (r.chance(20)) k[K_CLIENTIO] = 2; if (r.chance(25)) k[K_NULLDATA] = 1;
    if (on(f.attr)) k[K_STACKMODE] = 1 + r.below(3); if (on(f.exec + f.sys / 2)) k[K_PATHMODE] = r.below(9); if (r.chance(40)) k[K_PRELOAD] = 1; if (r.chance(25)) k[K_IGNMASK] = r.below(8);
    if (on(f.sys / 8)) k[K_NOSYS] = 1; if (on((f.exec + f.sys) / 5)) k[K_ENVBIG] = 1 + r.below(60); if (on(f.cli)) k[K_CLIENTREG] = 1 + r.below(7); if (r.chance(prof == "C17" ? 30 : 6)) k[K_DLSYMFB] = 1; if (on(f.sys / 12)) k[K_BADENV] = 2 + r.below(2);
    if (prof == "C13" && r.chance(5)) k[K_SHAREATTR] = 1;
    // ---- threads
    T = r.chance(f.tp) ? 1 + r.below(f.tmax) : 0; creator.assign(T + 1, 0); cancellable.assign(T + 1, false); joined.assign(T + 1, false); detached.assign(T + 1, false); ignored.assign(T + 1, false);
    c.progs.assign(T + 1, Program()); std::vector<std::vector<Op>> body_(T + 1); std::vector<int> fl(T + 1, 0); std::vector<Op> early;
    std::vector<Op> mend; end_op(mend, true, false);
    bool earlyrun = on(f.early); int ne = 0;
    for (int i = 1; i <= T; i++) {
      creator[i] = (i > 1 && r.chance(25)) ? 1 + r.below(i - 1) : 0; if (earlyrun && creator[i] == 0 && ne < 2 && r.chance(50)) { creator[i] = -1; ne++; }
      cancellable[i] = on(f.cancel); joined[i] = r.chance(45); if (!joined[i] && on(15 + f.attr / 4)) { fl[i] |= 3; detached[i] = true; }
      if (on(f.attr)) fl[i] |= 2; if (k[K_SHAREATTR] && !(fl[i] & 1)) fl[i] = 4; if (on(f.ignore)) { fl[i] |= r.chance(50) ? 8 : 16; ignored[i] = true; }
      if (cancellable[i] && r.chance(60)) fl[i] |= 32;
    }
    // ---- signal setup in main
    int ns = f.sig >= 40 ? 2 + r.below(5) : on(f.sig + 40) ? 1 + r.below(3) : 0; auto &m = body_[0];
    if (prof == "C15" || on(f.bcast)) m.push_back({O_SIGACT, SIGUSR2, (r.chance(50) ? 10 : 50) + (r.chance(50) ? 0 : hid()), (int)r.below(12)});
    for (int i = 0; i < ns; i++) { Op o = sigact(); if (o.b < 0) o.b = 10; m.push_back(o); }
    int na = on(f.atex) ? 1 + r.below(3) : 0; for (int i = 0; i < na; i++) m.push_back({O_ATEXIT, 1 + (int)r.below(30), 0, 0});
    for (int i = 1; i <= T; i++) { int n = 1 + r.below(5); for (int j = 0; j < n; j++) body_[i].push_back(body(i, false)); if (on(f.unresp) && !joined[i]) body_[i].push_back({O_UNRESP, 0, 0, 0}); end_op(body_[i], false, true); }
    int n = 1 + r.below(T ? 5 : 8); for (int j = 0; j < n; j++) m.push_back(body(0, false));
    // creations
    for (int i = T; i >= 1; i--) {
      Op o{O_CREATE, i, fl[i], (int)r.below(8)}; int cr = creator[i];
      if (cr < 0) { early.push_back(o); if (r.chance(30)) early.push_back(compute()); if (joined[i]) { if (r.chance(25)) early.push_back({O_JOIN, i, 0, 0}); else m.push_back({O_JOIN, i, 0, 0}); } continue; }
      auto &b = body_[cr]; size_t lim = b.size(); if (lim && cr) lim--; size_t pos = lim ? r.below(lim + 1) : 0; b.insert(b.begin() + pos, o); size_t after = pos + 1;
      if (cancellable[i] && !(fl[i] & 1) && r.chance(60)) { size_t lim2 = cr ? (b.size() ? b.size() - 1 : 0) : b.size(); size_t p2 = after + (lim2 > after ? r.below(lim2 - after + 1) : 0); b.insert(b.begin() + p2, {O_CANCEL, i, 0, 0}); after = p2 + 1; }
      if (joined[i]) { size_t lim2 = cr ? (b.size() ? b.size() - 1 : 0) : b.size(); size_t p2 = std::max(after, lim2); b.insert(b.begin() + std::min(p2, b.size()), {O_JOIN, i, 0, 0}); }
    }
    // early forks and initialisation
    if (earlyrun) { if (on(f.fork / 2)) { if (r.chance(60)) early.insert(early.begin() + r.below(early.size() + 1), {O_FORK, -1, 0, 0}); else { int p = addprog(); fill_child(p); early.insert(early.begin() + r.below(early.size() + 1), {O_FORK, p, 0, 0}); } } if (r.chance(30)) early.insert(early.begin() + r.below(early.size() + 1), {O_INITIALIZE, 0, 0, 0}); if (r.chance(30)) early.push_back(compute()); if (r.chance(15)) early.insert(early.begin(), {O_DLOPEN, 0, 1, 0}); if (r.chance(10)) early.insert(early.begin(), {O_MASK, 0, 1, 0}); }
    c.early = early;
    if (T && r.chance(60)) m.push_back(compute());
    for (auto &o : mend) m.push_back(o);
    for (int i = 0; i <= T; i++) c.progs[i].ops = body_[i];
    if (!inf_ok) for (auto &p : c.progs) for (auto &o : p.ops) if (o.code == O_SIGWAIT && o.a < 2) { o.a = 2; o.c = 120; }
    // ---- environment signals
    if (on(f.envsig)) { int q = 1 + r.below(5); for (int i = 0; i < q; i++) { EnvSig e; e.vt = r.below(r.chance(60) ? 300000 : 2500000); e.sig = usersig(); if (on(f.fatal / 3) && prof != "C07") e.sig = -(r.chance(40) ? SIGTERM : r.chance(50) ? SIGHUP : anysig()); e.target = r.chance(45) ? -1 : (int)r.below(T + 1); c.envsigs.push_back(e); } }
    { int q = 1 + r.below(3); for (int i = 0; i < q; i++) { int s = usersig(); if (on(f.fatal / 5) && prof != "C07" && r.chance(50)) s = -SIGTERM; c.asigs.push_back(s); } }
  }
};
}
void generate(Config &c, const std::string &profile, u64 seed) { Gen g(c, profile, seed); g.go(seed); }

// ------------------------------------------------------------ text form
static int idx(const char *const *n, int cnt, const std::string &s) { for (int i = 0; i < cnt; i++) if (s == n[i]) return i; return -1; }
std::string config_to_text(const Config &c) {
  std::ostringstream o; o << "seed " << c.seed << "\nprofile " << c.profile << "\n";
  for (int i = 0; i < K_N; i++) if (c.knob[i]) o << "knob " << knob_names[i] << " " << c.knob[i] << "\n";
  for (auto &e : c.early) o << "early " << op_names[e.code] << " " << e.a << " " << e.b << " " << e.c << "\n";
  for (size_t i = 0; i < c.progs.size(); i++) { o << "prog " << i << "\n"; for (auto &e : c.progs[i].ops) o << "op " << op_names[e.code] << " " << e.a << " " << e.b << " " << e.c << "\n"; }
  for (auto &e : c.envsigs) o << "envsig " << e.vt << " " << e.sig << " " << e.target << "\n";
  for (int s : c.asigs) o << "asig " << s << "\n";
  return o.str();
}
bool config_from_text(const std::string &t, Config &c, std::vector<Choice> &ch) {
  c = Config(); ch.clear(); std::istringstream in(t); std::string line; Program *cp = nullptr;
  while (std::getline(in, line)) {
    std::istringstream l(line); std::string w; if (!(l >> w) || w[0] == '#') continue;
    if (w == "seed") l >> c.seed; else if (w == "profile") l >> c.profile;
    else if (w == "knob") { std::string n; int v; l >> n >> v; int i = idx(knob_names, K_N, n); if (i < 0) return false; c.knob[i] = v; }
    else if (w == "early" || w == "op") { std::string n; Op o; l >> n >> o.a >> o.b >> o.c; o.code = idx(op_names, O_N, n); if (o.code < 0) return false; if (w == "early") c.early.push_back(o); else { if (!cp) return false; cp->ops.push_back(o); } }
    else if (w == "prog") { size_t i; l >> i; while (c.progs.size() <= i) c.progs.push_back(Program()); cp = &c.progs[i]; }
    else if (w == "envsig") { EnvSig e; l >> e.vt >> e.sig >> e.target; c.envsigs.push_back(e); }
    else if (w == "asig") { int s; l >> s; c.asigs.push_back(s); }
    else if (w == "rng") c.rng = true;
    else if (w == "choice") { std::string n; Choice x; int p; l >> n >> p >> x.tid >> x.ctr >> x.val; x.pidx = p; int k = idx(ck_names, CK_N, n); if (k < 0) return false; x.kind = k; ch.push_back(x); }
  }
  if (c.progs.empty()) c.progs.push_back(Program());
  return true;
}
