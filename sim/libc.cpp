// The C library and operating system as the library under test sees them.
// Every symbol sim_X stands for libc's X; see build.py for the renaming.
#include "sim.h"
#include "klocal.h"
#include "app.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <algorithm>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <unistd.h>
#include <dlfcn.h>
#include <link.h>
#include <setjmp.h>

#define X extern "C"
#define PT point((u64)__builtin_return_address(0), nullptr, true)
struct Api { Thread *t; const char *o; Api(const char *n) : t(cur), o(nullptr) { if (t) { o = t->curapi; t->curapi = n; } } ~Api() { if (t) t->curapi = o; } };

// ------------------------------------------------------------ tsan entry points: preemption points
#define RA ((u64)__builtin_return_address(0))
X void __tsan_init() {}
X void __tsan_func_entry(void *) {}
X void __tsan_func_exit() {}
#define RD(n) X void __tsan_read##n(void *a) { point(RA, a, false); } X void __tsan_write##n(void *a) { point(RA, a, true); } \
  X void __tsan_unaligned_read##n(void *a) { point(RA, a, false); } X void __tsan_unaligned_write##n(void *a) { point(RA, a, true); } \
  X void __tsan_volatile_read##n(void *a) { point(RA, a, false); } X void __tsan_volatile_write##n(void *a) { point(RA, a, true); } \
  X void __tsan_unaligned_volatile_read##n(void *a) { point(RA, a, false); } X void __tsan_unaligned_volatile_write##n(void *a) { point(RA, a, true); } \
  X void __tsan_read_write##n(void *a) { point(RA, a, true); } X void __tsan_unaligned_read_write##n(void *a) { point(RA, a, true); }
RD(1) RD(2) RD(4) RD(8) RD(16)
X void __tsan_read_range(void *a, long) { point(RA, a, false); }
X void __tsan_write_range(void *a, long) { point(RA, a, true); }
X void __tsan_vptr_update(void **, void *) {}
X void __tsan_vptr_read(void **) {}
template <class T> static T ld(volatile void *a, u64 pc) { point(pc, (void *)a, false); return *(volatile T *)a; }
template <class T> static void stv(volatile void *a, T v, u64 pc) { point(pc, (void *)a, true); *(volatile T *)a = v; notify_write((void *)a); }
#define AT(sz, T) \
  X T __tsan_atomic##sz##_load(const volatile T *a, int) { return ld<T>((volatile void *)a, RA); } \
  X void __tsan_atomic##sz##_store(volatile T *a, T v, int) { stv<T>(a, v, RA); } \
  X T __tsan_atomic##sz##_exchange(volatile T *a, T v, int) { point(RA, (void *)a, false); T o = *a; *a = v; if (o != v) notify_write((void *)a); return o; } \
  X T __tsan_atomic##sz##_fetch_add(volatile T *a, T v, int) { point(RA, (void *)a, true); T o = *a; *a = o + v; return o; } \
  X T __tsan_atomic##sz##_fetch_sub(volatile T *a, T v, int) { point(RA, (void *)a, true); T o = *a; *a = o - v; return o; } \
  X T __tsan_atomic##sz##_fetch_and(volatile T *a, T v, int) { point(RA, (void *)a, true); T o = *a; *a = o & v; return o; } \
  X T __tsan_atomic##sz##_fetch_or(volatile T *a, T v, int) { point(RA, (void *)a, true); T o = *a; *a = o | v; return o; } \
  X T __tsan_atomic##sz##_fetch_xor(volatile T *a, T v, int) { point(RA, (void *)a, true); T o = *a; *a = o ^ v; return o; } \
  X T __tsan_atomic##sz##_fetch_nand(volatile T *a, T v, int) { point(RA, (void *)a, true); T o = *a; *a = ~(o & v); return o; } \
  X int __tsan_atomic##sz##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { point(RA, (void *)a, false); if (*a == *e) { *a = v; notify_write((void *)a); return 1; } *e = *a; return 0; } \
  X int __tsan_atomic##sz##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { point(RA, (void *)a, false); if (*a == *e) { *a = v; notify_write((void *)a); return 1; } *e = *a; return 0; } \
  X T __tsan_atomic##sz##_compare_exchange_val(volatile T *a, T e, T v, int, int) { point(RA, (void *)a, false); T o = *a; if (o == e) { *a = v; notify_write((void *)a); } return o; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
X void __tsan_atomic_thread_fence(int) {}
X void __tsan_atomic_signal_fence(int) {}

X void *sim_memset(void *d, int c, size_t n) { PT; memset(d, c, n); notify_write(d); return d; }
int g_create_err = EAGAIN;
X void *sim_memcpy(void *d, const void *s, size_t n) { // a shared structure is copied word by word: another thread may see or change half of it
  if (!cur || n <= 8 || (in_stack(d) && in_stack((void *)s))) { PT; memcpy(d, s, n); return d; }
  for (size_t k = 0; k < n; k += 8) { if (k < 48) point(RA, (char *)(in_stack(d) ? (void *)s : d) + k, !in_stack(d)); memcpy((char *)d + k, (const char *)s + k, std::min<size_t>(8, n - k)); }
  return d;
}
X void *sim_memmove(void *d, const void *s, size_t n) { PT; memmove(d, s, n); return d; }

// ------------------------------------------------------------ environment
std::vector<std::string> g_envstore; std::vector<char *> g_envp; X char **sim_environ = nullptr; X char **sim___environ = nullptr;
void set_environ(const std::vector<std::string> &v) {
  g_envstore = v; g_envp.clear(); for (auto &s : g_envstore) g_envp.push_back((char *)s.c_str()); g_envp.push_back(nullptr); sim_environ = g_envp.data(); sim___environ = sim_environ;
}
X char *sim_getenv(const char *n) { PT; size_t l = strlen(n); for (char **e = sim_environ; *e; e++) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1; return nullptr; }
X char *sim_secure_getenv(const char *n) { return sim_getenv(n); }

// ------------------------------------------------------------ ids, clocks
X pid_t sim_getpid() { return 1000 + PIDX; }
X pid_t sim_getppid() { int p = S->proc[PIDX].parent; return p < 0 ? 1 : 1000 + p; }
X pid_t sim_gettid() { return (1000 + PIDX) * 100 + cur_tid(); }
static const i64 EPOCH = 1700000000LL * 1000000;
X int sim_gettimeofday(struct timeval *tv, void *) { PT; want_jump(); i64 t = EPOCH + (i64)now_us() + wall_off; tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; return 0; }
X int sim_clock_gettime(clockid_t c, struct timespec *ts) { PT; i64 t = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? (want_jump(), EPOCH + (i64)now_us() + wall_off) : (i64)now_us() + 5000000; ts->tv_sec = t / 1000000; ts->tv_nsec = (t % 1000000) * 1000; return 0; }
X time_t sim_time(time_t *p) { PT; want_jump(); time_t t = (EPOCH + (i64)now_us() + wall_off) / 1000000; if (p) *p = t; return t; }
static int do_sleep(u64 us, u64 *left) {
  testcancel(); u64 dl = now_us() + us;
  if (us && fault(FK_SLEEP_EINTR, 0.01)) { if (left) *left = us; errno = EINTR; return -1; }
  int r = block_on({nullptr, nullptr, dl, true, true, true, 0});
  if (r == WR_SIGNAL) { if (left) *left = dl > now_us() ? dl - now_us() : 0; errno = EINTR; return -1; }
  if (left) *left = 0;
  return 0;
}
X int sim_usleep(useconds_t us) { Api a("usleep"); PT; return do_sleep(us, nullptr); }
X unsigned sim_sleep(unsigned s) { Api a("sleep"); PT; u64 left = 0; do_sleep((u64)s * 1000000, &left); return (left + 500000) / 1000000; }
X int sim_nanosleep(const struct timespec *r, struct timespec *rem) { Api a("nanosleep"); PT; u64 left = 0; int x = do_sleep((u64)r->tv_sec * 1000000 + r->tv_nsec / 1000, &left); if (rem && x) { rem->tv_sec = left / 1000000; rem->tv_nsec = (left % 1000000) * 1000; } return x; }
X int sim_clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *rem) {
  Api a("clock_nanosleep"); PT; i64 us = (i64)r->tv_sec * 1000000 + r->tv_nsec / 1000; if (fl) { i64 t = c == CLOCK_REALTIME ? EPOCH + (i64)now_us() + wall_off : (i64)now_us() + 5000000; us = us > t ? us - t : 0; }
  u64 left = 0; int x = do_sleep(us, &left); if (rem && x && !fl) { rem->tv_sec = left / 1000000; rem->tv_nsec = (left % 1000000) * 1000; } return x ? EINTR : 0; }
X int sim_sched_yield() { yield_cpu(); return 0; }
X int sim_pthread_yield() { yield_cpu(); return 0; }
X int sim_poll(void *, unsigned long, int ms) { PT; return do_sleep(ms < 0 ? 1000000000ULL : (u64)ms * 1000, nullptr); }
X int sim_select(int, void *, void *, void *, struct timeval *tv) { PT; return do_sleep(tv ? tv->tv_sec * 1000000ULL + tv->tv_usec : 1000000000ULL, nullptr); }

// ------------------------------------------------------------ output
static char g_scratch[8192];
static void outpt() { PT; if (C.knob[K_CLIENTIO] >= 2 && cur) testcancel(); }
X int sim_vfprintf(FILE *, const char *f, va_list ap) { outpt(); struct SE { int e; ~SE() { errno = (C.knob[K_CLIENTIO] & 2) && !C.knob[K_DEBUG] ? EBADF : e; } } se{errno}; /* a closed stderr */ int r = vsnprintf(g_scratch, sizeof g_scratch, f, ap); if (strstr(g_scratch, "monitor warning")) probe(1); if (getenv("SIM_ECHO")) { fprintf(stderr, "[p%d t%d vt=%llu] %s", PIDX, cur_tid(), (unsigned long long)now_us(), g_scratch); } return r; }
X int sim_fprintf(FILE *fp, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vfprintf(fp, f, ap); va_end(ap); return r; }
X int sim_printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vfprintf(stdout, f, ap); va_end(ap); return r; }
X int sim_dprintf(int, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vfprintf(stdout, f, ap); va_end(ap); return r; }
X size_t sim_fwrite(const void *p, size_t s, size_t n, FILE *) { outpt(); if (getenv("SIM_ECHO")) { fprintf(stderr, "[p%d t%d] ", PIDX, cur_tid()); fwrite(p, s, n, stderr); } return n; }
X int sim_fputs(const char *s, FILE *) { outpt(); return strlen(s); }
X int sim_fputc(int c, FILE *) { outpt(); return c; }
X int sim_putc(int c, FILE *) { outpt(); return c; }
X int sim_puts(const char *s) { outpt(); return strlen(s); }
X int sim_fflush(FILE *) { outpt(); return 0; }
X ssize_t sim_write(int, const void *, size_t n) { outpt(); return n; }
X void sim_perror(const char *) { outpt(); }
X void sim_errx(int st, const char *f, ...) { va_list ap; va_start(ap, f); vsnprintf(g_scratch, sizeof g_scratch, f, ap); va_end(ap); viol("*", "monitor-error-exit", "library gave up: %.120s", g_scratch); libc_exit(st); }
X void sim_err(int st, const char *f, ...) { va_list ap; va_start(ap, f); vsnprintf(g_scratch, sizeof g_scratch, f, ap); va_end(ap); viol("*", "monitor-error-exit", "library gave up: %.120s", g_scratch); libc_exit(st); }
X void sim_warnx(const char *, ...) { outpt(); }
X void sim_warn(const char *, ...) { outpt(); }

// ------------------------------------------------------------ memory
u64 g_lib_malloc = 0;
// every block ends at an inaccessible page, so an overrun crashes the run
struct Blk { size_t n; i64 id; };
static std::map<void *, Blk> g_blocks; static i64 g_blkid = 0;
static void *guarded(size_t n, int fill) { size_t m = (n + 15) & ~15ULL, pg = (m + 4095) & ~4095ULL; if (!pg) pg = 4096; char *b = (char *)mmap(nullptr, pg + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(b + pg, 4096, PROT_NONE); char *p = b + pg - m; memset(p, fill, m); ev(E_MALLOC, n, ++g_blkid); g_lib_malloc++; g_blocks[p] = Blk{n, g_blkid}; return p; }
static void unblock(void *p) { auto it = g_blocks.find(p); if (it == g_blocks.end()) { viol("*", "bad-free", "the library frees a block that is not allocated"); return; } ev(E_MALLOC, -(i64)it->second.n, it->second.id); memset(p, 0xdd, it->second.n); g_blocks.erase(it); }
X void *sim_malloc(size_t n) { PT; return guarded(n, 0xa5); }
X void *sim_calloc(size_t a, size_t b) { PT; return guarded(a * b, 0); }
X void sim_free(void *p) { PT; if (p) unblock(p); }
X void *sim_realloc(void *p, size_t n) { PT; void *q = guarded(n, 0xa5); if (p) { auto it = g_blocks.find(p); if (it != g_blocks.end()) memcpy(q, p, std::min(n, it->second.n)); unblock(p); } return q; }
X void *sim_mmap(void *, size_t n, int pr, int, int, off_t) { PT; size_t pg = (n + 4095) & ~4095ULL; char *b = (char *)mmap(nullptr, pg + 4096, pr, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(b + pg, 4096, PROT_NONE); return b; }
X int sim_munmap(void *a, size_t n) { PT; return munmap(a, n); }

// ------------------------------------------------------------ signals
X int sim_sigaction(int sig, const struct sigaction *act, struct sigaction *old) {
  PT;
  if (sig < 1 || sig > 64 || sig == 32 || sig == 33 || (act && (sig == SIGKILL || sig == SIGSTOP))) { errno = EINVAL; return -1; }
  KAct o = kact[sig];
  if (act) { kact[sig].h = (void *)act->sa_handler; kact[sig].flags = act->sa_flags; kact[sig].mask = from_sigset(&act->sa_mask) & ~(SB(SIGKILL) | SB(SIGSTOP));
    if (kact[sig].h == (void *)SIG_IGN) { for (auto t : threads) for (size_t i = 0; i < t->pend.size();) if (t->pend[i].sig == sig) t->pend.erase(t->pend.begin() + i); else i++; } }
  if (old) { memset(old, 0, sizeof *old); old->sa_handler = (sighandler_t)o.h; old->sa_flags = o.flags; to_sigset(o.mask, &old->sa_mask); }
  return 0;
}
X sighandler_t sim_signal(int sig, sighandler_t h) { struct sigaction a, o; memset(&a, 0, sizeof a); a.sa_handler = h; a.sa_flags = SA_RESTART; if (sim_sigaction(sig, &a, &o)) return SIG_ERR; return o.sa_handler; }
static int do_mask(int how, const sigset_t *set, sigset_t *old) {
  u64 o = cur->mask;
  if (set) {
    u64 m = from_sigset(set) & ~(SB(SIGKILL) | SB(SIGSTOP));
    if (how == SIG_BLOCK) cur->mask |= m; else if (how == SIG_UNBLOCK) cur->mask &= ~m; else if (how == SIG_SETMASK) cur->mask = m; else return EINVAL;
  }
  if (old) to_sigset(o, old);
  check_signals();
  return 0;
}
X int sim_sigprocmask(int how, const sigset_t *s, sigset_t *o) { PT; int r = do_mask(how, s, o); if (r) { errno = r; return -1; } return 0; }
X int sim_pthread_sigmask(int how, const sigset_t *s, sigset_t *o) { PT; return do_mask(how, s, o); }
X int sim_sigpending(sigset_t *s) { u64 m = 0; for (auto &p : cur->pend) m |= SB(p.sig); for (auto &p : ppend) m |= SB(p.sig); to_sigset(m, s); return 0; }
X int sim_sigaltstack(const void *, void *) { return 0; }
X int sim_sigsuspend(const sigset_t *m) { PT; u64 o = cur->mask; cur->mask = from_sigset(m); block_on({nullptr, nullptr, 0, false, true, true, 0}); cur->mask = o; errno = EINTR; return -1; }
X int sim_pause() { PT; block_on({nullptr, nullptr, 0, false, true, true, 0}); errno = EINTR; return -1; }
X unsigned sim_alarm(unsigned) { return 0; }
static Thread *chk(pthread_t p, const char *api) {
  Thread *t = (Thread *)p; bool ok = false; for (auto x : threads) if (x == t) ok = true;
  if (!ok) { viol("*", "bad-pthread_t", "%s on an invalid thread id", api); return nullptr; }
  if (t->freed && t->id == AP.main_tid && PIDX > 0) return nullptr; // forked by an unmonitored thread, which has ended since: the library cannot know
  if (t->freed) { viol("*", "dead-pthread_t", "%s on thread %d whose id is no longer valid", api, t->id); return nullptr; }
  return t;
}
int lib_origin();
X int sim_pthread_kill(pthread_t p, int sig) {
  PT; Thread *t = chk(p, "pthread_kill"); if (!t) return ESRCH;
  if (sig < 0 || sig > 64 || sig == 32 || sig == 33) return EINVAL;
  if (t->st == T_DEAD) return 0;
  if (sig) post_thread_signal(t, sig, next_cookie++, SI_TKILL, lib_origin());
  check_signals();
  return 0;
}
X int sim_raise(int sig) { PT; if (sig < 1 || sig > 64) { errno = EINVAL; return -1; } post_thread_signal(cur, sig, next_cookie++, SI_TKILL, lib_origin()); point((u64)1, nullptr, true); check_signals(); return 0; }
X int sim_kill(pid_t pid, int sig) { PT; if (pid != sim_getpid()) { errno = ESRCH; return -1; } if (sig) post_process_signal(sig, next_cookie++, SI_USER, lib_origin()); point((u64)2, nullptr, true); check_signals(); return 0; }
X int sim_tgkill(int, int, int) { errno = ENOSYS; return -1; }
struct SWArg { Thread *t; u64 set; };
static bool sw_pred(void *a) { SWArg *s = (SWArg *)a; return has_pending(s->t, s->set); }
static int do_sigwait(const sigset_t *set, siginfo_t *info, const struct timespec *to) {
  u64 m = from_sigset(set); Thread *t = cur; PendSig ps;
  if (to && (to->tv_nsec < 0 || to->tv_nsec >= 1000000000 || to->tv_sec < 0)) { errno = EINVAL; return -1; }
  testcancel();
  if (fault(FK_SIGWAIT_EINTR, 0.05)) { errno = EINTR; return -1; }
  SWArg a{t, m}; Wait w{sw_pred, &a, to ? now_us() + to->tv_sec * 1000000ULL + to->tv_nsec / 1000 : 0, to != nullptr, true, true, m};
  // awaited signals are taken by the wait, not by handlers
  u64 saved = t->mask; t->mask |= m; t->in_sigwait = true; t->sw_saved_mask = saved;
  int r = block_on(w);
  t->in_sigwait = false; bool got = false;
  if (r != WR_SIGNAL || has_pending(t, m)) got = take_sigwait(t, m, ps);
  t->mask = saved;
  if (got) {
    ev(E_SWTAKE, ps.sig, 0, ps.cookie);
    if (info) { memset(info, 0, sizeof *info); info->si_signo = ps.sig; info->si_code = ps.code; info->si_pid = 999; info->si_value.sival_ptr = (void *)ps.cookie; }
    check_signals();
    return ps.sig;
  }
  check_signals();
  errno = r == WR_TIMEOUT ? EAGAIN : EINTR; return -1;
}
X int sim_sigwaitinfo(const sigset_t *s, siginfo_t *i) { Api a("sigwaitinfo"); PT; return do_sigwait(s, i, nullptr); }
X int sim_sigtimedwait(const sigset_t *s, siginfo_t *i, const struct timespec *t) { Api a("sigtimedwait"); PT; return do_sigwait(s, i, t); }
X int sim_sigwait(const sigset_t *s, int *sig) { Api a("sigwait"); PT; int r; do { r = do_sigwait(s, nullptr, nullptr); } while (r < 0 && errno == EINTR); if (r < 0) return errno; *sig = r; return 0; }

// ------------------------------------------------------------ pthreads
X pthread_t sim_pthread_self() { PT; return (pthread_t)cur; }
X int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
struct AttrS { u64 magic; size_t stack; int detach; size_t guard; u64 canary; };
static_assert(sizeof(AttrS) <= sizeof(pthread_attr_t), "attr");
#define AMAGIC 0xa77a77a7ULL
X int sim_pthread_attr_init(pthread_attr_t *p) { PT; if (fault(FK_ATTR, 0.05)) return ENOMEM; AttrS *a = (AttrS *)p; a->magic = AMAGIC; a->stack = 8388608; a->detach = 0; a->guard = 4096; a->canary = 77; app_attr_live(+1); return 0; }
X int sim_pthread_attr_destroy(pthread_attr_t *p) { PT; AttrS *a = (AttrS *)p; if (a->magic != AMAGIC) { viol("C13", "attr-destroy-bad", "pthread_attr_destroy on an invalid attribute object"); return EINVAL; } a->magic = 0; app_attr_live(-1); return 0; }
X int sim_pthread_attr_getstacksize(const pthread_attr_t *p, size_t *s) { PT; AttrS *a = (AttrS *)p; if (a->magic != AMAGIC) return EINVAL; if (fault(FK_ATTR, 0.05)) return EINVAL; *s = a->stack; return 0; }
X int sim_pthread_attr_setstacksize(pthread_attr_t *p, size_t s) { PT; AttrS *a = (AttrS *)p; if (a->magic != AMAGIC) return EINVAL; if (s < 16384) return EINVAL; bool restoring = app_attr_restoring(p, s); if (!restoring && fault(FK_ATTR, 0.05)) return EINVAL; a->stack = s; return 0; }
X int sim_pthread_attr_getdetachstate(const pthread_attr_t *p, int *s) { PT; *s = ((AttrS *)p)->detach; return 0; }
X int sim_pthread_attr_setdetachstate(pthread_attr_t *p, int s) { PT; ((AttrS *)p)->detach = s; return 0; }
X int sim_pthread_attr_getguardsize(const pthread_attr_t *p, size_t *s) { *s = ((AttrS *)p)->guard; return 0; }
X int sim_pthread_attr_setguardsize(pthread_attr_t *p, size_t s) { ((AttrS *)p)->guard = s; return 0; }
X int sim_pthread_create(pthread_t *th, const pthread_attr_t *p, void *(*start)(void *), void *arg) {
  Api api("pthread_create"); PT;
  if (p && ((AttrS *)p)->magic != AMAGIC) { viol("C13", "attr-bad", "real pthread_create given an invalid attribute object"); return EINVAL; }
  if (fault(FK_PTHREAD_CREATE, app_createfail() ? 0.45 : 0.06)) { int err = g_create_err = mix64(C.seed + S->faults[FK_PTHREAD_CREATE]) & 1 ? EAGAIN : EPERM; ev(E_REAL_CREATE, -1, err); app_real_create(nullptr, start, arg, p ? ((AttrS *)p)->stack : 8388608, p ? ((AttrS *)p)->detach : 0, p ? ((AttrS *)p)->guard : 4096); return err; }
  Thread *t = new_thread(start, arg); t->detached = p && ((AttrS *)p)->detach; t->stack_attr = p ? ((AttrS *)p)->stack : 8388608;
  app_real_create(t, start, arg, t->stack_attr, t->detached, p ? ((AttrS *)p)->guard : 4096);
  ev(E_REAL_CREATE, t->id, 0); *th = (pthread_t)t;
  PT; return 0;
}
X void sim_pthread_exit(void *v) { Api api("pthread_exit"); Thread *t = cur; if (!t->unwinding) { t->unwinding = true; t->end_kind = 1; } t->retval = v; do_unwind(); }
struct JArg { Thread *t; };
static bool j_pred(void *a) { return ((Thread *)a)->st == T_DEAD; }
X int sim_pthread_join(pthread_t p, void **rv) { Api api("pthread_join"); PT; Thread *t = chk(p, "pthread_join"); if (!t) return ESRCH; testcancel(); block_on({j_pred, t, 0, false, true, false, 0}); if (rv) *rv = t->retval; t->freed = t->joined = true; return 0; }
X int sim_pthread_detach(pthread_t p) { PT; Thread *t = chk(p, "pthread_detach"); if (!t) return ESRCH; t->detached = true; if (t->st == T_DEAD) t->freed = true; return 0; }
X int sim_pthread_cancel(pthread_t p) { PT; Thread *t = chk(p, "pthread_cancel"); if (!t) return ESRCH; if (t->st != T_DEAD) t->cancel_req = true; return 0; }
X int sim_pthread_setcancelstate(int st, int *old) { PT; Thread *t = cur; if (old) *old = t->cancel_on ? PTHREAD_CANCEL_ENABLE : PTHREAD_CANCEL_DISABLE; if (st != PTHREAD_CANCEL_ENABLE && st != PTHREAD_CANCEL_DISABLE) return EINVAL; if (!t->unwinding) t->cancel_on = st == PTHREAD_CANCEL_ENABLE; return 0; }
X int sim_pthread_setcanceltype(int, int *old) { PT; if (old) *old = PTHREAD_CANCEL_DEFERRED; return 0; }
X void sim_pthread_testcancel() { PT; testcancel(); }
X void sim___pthread_register_cancel(void *b) { cur->unw.push_back(b); }
X void sim___pthread_unregister_cancel(void *b) { if (!cur->unw.empty() && cur->unw.back() == b) cur->unw.pop_back(); else if (!cur->unw.empty()) cur->unw.pop_back(); }
X void sim___pthread_unwind_next(void *) { do_unwind(); }
struct Key { bool used; void (*d)(void *); u32 gen; }; static Key keys[1024];
X int sim_pthread_key_create(pthread_key_t *k, void (*d)(void *)) { PT; for (int i = 0; i < 1024; i++) if (!keys[i].used) { keys[i].used = true; keys[i].d = d; keys[i].gen++; *k = i; return 0; } return EAGAIN; }
X int sim_pthread_key_delete(pthread_key_t k) { PT; if (k >= 1024 || !keys[k].used) return EINVAL; keys[k].used = false; for (auto t : threads) for (auto &p : t->tsd) if (p.first == k) p.second = nullptr; return 0; }
X void *sim_pthread_getspecific(pthread_key_t k) { PT; if (k >= 1024 || !keys[k].used) return nullptr; for (auto &p : cur->tsd) if (p.first == k) return p.second; return nullptr; }
X int sim_pthread_setspecific(pthread_key_t k, const void *v) { PT; if (k >= 1024 || !keys[k].used) return EINVAL; for (auto &p : cur->tsd) if (p.first == k) { p.second = (void *)v; return 0; } cur->tsd.push_back({k, (void *)v}); return 0; }
void run_tsd_dtors() {
  for (int r = 0; r < 4; r++) { bool any = false;
    for (size_t i = 0; i < cur->tsd.size(); i++) { pthread_key_t k = cur->tsd[i].first; void *v = cur->tsd[i].second; if (v && keys[k].used && keys[k].d) { cur->tsd[i].second = nullptr; any = true; keys[k].d(v); } }
    if (!any) break; }
}
struct MtxS { int magic; int owner; int cnt; };
static std::map<void *, MtxS> mtx;
struct MArg { void *m; }; static bool m_pred(void *a) { return mtx[a].cnt == 0; }
X int sim_pthread_mutex_init(void *m, void *) { mtx[m] = MtxS(); return 0; }
X int sim_pthread_mutex_destroy(void *m) { mtx.erase(m); return 0; }
X int sim_pthread_mutex_lock(void *m) { Api api("mutex_lock"); PT; while (mtx[m].cnt) block_on({m_pred, m, 0, false, false, false, 0}); mtx[m].cnt = 1; mtx[m].owner = cur_tid(); return 0; }
X int sim_pthread_mutex_trylock(void *m) { PT; if (mtx[m].cnt) return EBUSY; mtx[m].cnt = 1; mtx[m].owner = cur_tid(); return 0; }
X int sim_pthread_mutex_unlock(void *m) { PT; mtx[m].cnt = 0; PT; return 0; }
X int sim_pthread_spin_init(void *m, int) { mtx[m] = MtxS(); return 0; }
X int sim_pthread_spin_lock(void *m) { return sim_pthread_mutex_lock(m); }
X int sim_pthread_spin_trylock(void *m) { return sim_pthread_mutex_trylock(m); }
X int sim_pthread_spin_unlock(void *m) { return sim_pthread_mutex_unlock(m); }
static std::map<void *, int> onces; static bool o_pred(void *a) { return onces[a] == 2; }
X int sim_pthread_once(void *o, void (*f)()) { PT; if (onces[o] == 2) return 0; if (onces[o] == 1) { block_on({o_pred, o, 0, false, false, false, 0}); return 0; } onces[o] = 1; f(); onces[o] = 2; return 0; }
X int sim_pthread_atfork(void (*)(), void (*)(), void (*)()) { return 0; }

// ------------------------------------------------------------ process
X int sim_atexit(void (*f)()) { g_atexit.push_back({(void (*)(int))(void *)f, 0}); return 0; }
int add_app_atexit(void (*f)(int), int id) { g_atexit.push_back({f, id}); return 0; }
X void sim_run_lib_fini();
void libc_exit(int status) {
  Api api("exit");
  PT;
  while (!g_atexit.empty()) { auto x = g_atexit.back(); g_atexit.pop_back(); x.first(x.second); PT; }
  if (sim_is_dynamic && !g_dtor_ran) { g_dtor_ran = true; ev(E_FINIDTOR); sim_run_lib_fini(); }
  PT;
  die(0, status & 255);
}
X void sim_exit(int st) { libc_exit(st); }
X void sim__exit(int st) { PT; die(0, st & 255); }
X void sim__Exit(int st) { PT; die(0, st & 255); }
X void sim_quick_exit(int st) { PT; die(0, st & 255); }
X void sim_abort() { PT; cur->mask &= ~SB(SIGABRT); post_thread_signal(cur, SIGABRT, next_cookie++, SI_TKILL, lib_origin()); check_signals(); kact[SIGABRT].h = (void *)SIG_DFL; post_thread_signal(cur, SIGABRT, next_cookie++, SI_TKILL, lib_origin()); check_signals(); die(1, SIGABRT); }
static void sigchld_ev(i64 pidx, i64) { (void)pidx; post_process_signal(SIGCHLD, next_cookie++, CLD_EXITED, 2); }
struct ChildRec { int pidx; bool reaped; }; static std::vector<ChildRec> children;
X pid_t sim_fork() {
  Api api("fork"); PT;
  if (fault(FK_FORK, 0.08) || S->nproc >= MAX_PROC - 1 || g_depth >= 3) { if (S->nproc >= MAX_PROC - 1 || g_depth >= 3) S->faults[FK_FORK]++; ev(E_REAL_FORK, -1); app_fork_failed(); errno = EAGAIN; return -1; }
  int np = S->nproc++; S->proc[np].used = 1; S->proc[np].parent = PIDX; S->proc[np].depth = g_depth + 1;
  app_at_fork();
  ev(E_REAL_FORK, np);
  int ptid = cur_tid();
  pid_t r = fork();
  if (r < 0) end_run(V_INTERNAL, "os fork failed");
  if (r == 0) { child_after_fork(np); children.clear(); ev(E_PROC_START, S->proc[np].parent, 1); app_child_reset(ptid); return 0; }
  int st; while (waitpid(r, &st, 0) < 0 && errno == EINTR) ;
  if (WIFSIGNALED(st)) end_run(V_CRASH, "child process %d: crashed in library code (real signal %d)", np, WTERMSIG(st));
  if (S->verdict != V_NONE) end_run(S->verdict, "child");
  if (!S->proc[np].ended) end_run(V_INTERNAL, "child did not report its end (code %d)", WEXITSTATUS(st));
  children.push_back({np, false}); app_forked(np); add_timed(S->proc[np].endvt, sigchld_ev, np, 0);
  PT;
  return 1000 + np;
}
X pid_t sim_vfork() { return sim_fork(); }
struct WArg { int pidx; }; static bool w_pred(void *a) { return now_us() >= S->proc[(long)a].endvt; }
X pid_t sim_waitpid(pid_t pid, int *st, int opt) {
  Api api("waitpid"); PT; testcancel(); app_in_waitpid();
  if (fault(FK_WAIT_EINTR, 0.15)) { app_waitpid(pid, -1, EINTR); errno = EINTR; return -1; }
  for (size_t k = 0; k < children.size(); k++) if (!children[k].reaped && (pid == -1 || pid == 1000 + children[k].pidx)) { // indices: the vector grows while we wait
    int ci = children[k].pidx;
    if (fault(FK_WAIT_ECHILD, 0.04)) { children[k].reaped = true; app_waitpid(pid, -1, ECHILD); errno = ECHILD; return -1; }
    if (opt & WNOHANG && !w_pred((void *)(long)ci)) return 0;
    block_on({w_pred, (void *)(long)ci, S->proc[ci].endvt, true, true, false, 0});
    app_in_waitpid(); if (children[k].reaped) continue;
    children[k].reaped = true; ProcInfo &p = S->proc[ci]; int s = p.kind == 1 ? p.status : (p.status << 8); if (st) *st = s; app_waitpid(pid, pid, s); return 1000 + ci;
  }
  app_waitpid(pid, -1, ECHILD); errno = ECHILD; return -1;
}
X pid_t sim_wait(int *st) { return sim_waitpid(-1, st, 0); }
X pid_t sim_wait4(pid_t p, int *st, int o, void *) { return sim_waitpid(p, st, o); }

// files: path -> executable?
static const struct { const char *p; bool x; } files[] = {{"/bin/sh", true}, {"/bin/true", true}, {"/usr/bin/prog", true}, {"/opt/a/tool", true}, {"/opt/a/data", false}, {"/opt/b/data", true}, {"/bin/fallback", true}, {"./here", true}, {"/cwd/here", true}, {"/opt/b/late", true}, {nullptr, false}};
static int file_state(const char *p) { for (auto *f = files; f->p; f++) if (!strcmp(f->p, p)) { if (!strcmp(p, "/bin/sh") && C.knob[K_BADENV] >= 2) return C.knob[K_BADENV] == 3; return f->x ? 2 : 1; } if (!strcmp(p, "here")) return 2; return 0; }
X int sim_access(const char *p, int mode) { PT; if (!p) { errno = EFAULT; return -1; } int s = file_state(p); if (!s) { errno = ENOENT; return -1; } if ((mode & X_OK) && s != 2) { errno = EACCES; return -1; } return 0; }
X int sim_faccessat(int, const char *p, int m, int) { return sim_access(p, m); }
X int sim_eaccess(const char *p, int m) { return sim_access(p, m); }
X int sim_euidaccess(const char *p, int m) { return sim_access(p, m); }
static int image_status(const char *path, char *const argv[], int *kind) {
  *kind = 0;
  if (!strcmp(path, "/bin/sh") && argv[0] && argv[1] && argv[2]) {
    const char *c = argv[2]; if (!strncmp(c, "exit ", 5)) return atoi(c + 5) & 255; if (!strncmp(c, "kill ", 5)) { *kind = 1; return atoi(c + 5); }
    return 0;
  }
  return 7;
}
static int do_exec(const char *api, const char *orig, const char *path, char *const argv[], char *const envp[]) {
  int s = path ? file_state(path) : 0;
  if (s < 2) app_exec_check(api, orig, path, argv, envp, false);
  if (s == 0) { errno = ENOENT; return -1; }
  if (s == 1) { errno = EACCES; return -1; }
  if (fault(FK_EXEC, 0.12)) { app_exec_check(api, orig, path, argv, envp, false); ev(E_EXEC, 0, 0); errno = E2BIG; app_exec_failed(); return -1; }
  app_exec_check(api, orig, path, argv, envp, true);
  ev(E_EXEC, 1, 0);
  int kind; int st = image_status(path, argv, &kind);
  // the new image runs for 20 ms of virtual time
  spend_us(20000);
  ProcInfo &p = S->proc[PIDX]; ev(E_PROC_END, 2, st, kind); p.ended = 1; p.kind = kind == 1 ? 1 : 2; p.status = st; p.endvt = now_us();
  if (PIDX != 0) { if (now_us() > S->maxvt) S->maxvt = now_us(); ::_exit(0); }
  end_run(V_OK, "exec");
}
X int sim_execve(const char *p, char *const a[], char *const e[]) { Api api("execve"); PT; return do_exec("execve", p, p, a, e); }
X int sim_execv(const char *p, char *const a[]) { Api api("execv"); PT; return do_exec("execv", p, p, a, sim_environ); }
static int exec_search(const char *f, char *const a[], char *const e[]) {
  if (!f || !*f) { errno = ENOENT; return -1; }
  if (strchr(f, '/')) return do_exec("execvp", f, f, a, e);
  const char *path = nullptr; for (char **x = sim_environ; *x; x++) if (!strncmp(*x, "PATH=", 5)) path = *x + 5;
  if (!path) path = "/bin:/usr/bin";
  bool eacc = false; const char *q = path;
  for (;;) { const char *c = strchrnul(q, ':'); std::string full(q, c - q); if (full.size() < 4096) { full = full.empty() ? std::string(f) : full + "/" + f; int s = file_state(full.c_str()); if (s == 1) eacc = true; if (s == 2) return do_exec("execvp", f, full.c_str(), a, e); } if (!*c) break; q = c + 1; }
  app_exec_check("execvp", f, f, a, e, false); errno = eacc ? EACCES : ENOENT; return -1;
}
X int sim_execvp(const char *f, char *const a[]) { Api api("execvp"); PT; return exec_search(f, a, sim_environ); }
X int sim_execvpe(const char *f, char *const a[], char *const e[]) { PT; return exec_search(f, a, e); }
// what PATH search would find (for the oracle)
int path_search_state(const char *f) {
  if (!f) return 0; if (strchr(f, '/')) return file_state(f);
  const char *path = nullptr; for (char **x = sim_environ; *x; x++) if (!strncmp(*x, "PATH=", 5)) path = *x + 5;
  if (!path) path = "/bin:/usr/bin"; int best = 0; const char *q = path;
  for (;;) { const char *c = strchrnul(q, ':'); std::string full(q, c - q); if (full.size() < 4096) { full = full.empty() ? std::string(f) : full + "/" + f; int s = file_state(full.c_str()); if (s > best) best = s; } if (!*c) break; q = c + 1; }
  return best;
}
int file_state_pub(const char *p) { return p ? file_state(p) : 0; }
X int sim_system(const char *cmd) { PT; app_real_system(cmd); compute(5000); return 3 << 8; }

// ------------------------------------------------------------ dynamic loading
extern "C" struct SymEnt { const char *n; void *p; } sim_symtab[];
static __thread const char *dl_err_unused; static const char *g_dlerr = nullptr;
static Thread *g_scan = nullptr;
X void *sim_dlopen(const char *p, int fl) { Api api("dlopen"); PT; if (g_scan && g_scan == cur) { probe(20); return (void *)0xd1d1; } return app_real_dlopen(p, fl); }
X int sim_dlclose(void *h) { Api api("dlclose"); PT; if (g_scan == cur && h == (void *)0xd1d1) return 0; return app_real_dlclose(h); }
X void *sim_dlsym(void *h, const char *n) {
  PT;
  if (h == RTLD_NEXT && C.knob[K_DLSYMFB] && (!strncmp(n, "pthread_create", 14) || !strncmp(n, "pthread_key_create", 18) || !strncmp(n,"sigwaitinfo",11) || !strncmp(n, "fork", 4) || !strcmp(n, "MPI_Init"))) { S->faults[FK_DLSYM]++; g_dlerr = "undefined symbol"; return nullptr; }
  for (SymEnt *e = sim_symtab; e->n; e++) if (!strcmp(e->n, n)) return e->p;
  void *r = dlsym(RTLD_DEFAULT, n); if (!r) g_dlerr = "undefined symbol"; return r;
}
X void *sim_dlvsym(void *h, const char *n, const char *) { return sim_dlsym(h, n); }
X char *sim_dlerror() { char *e = (char *)g_dlerr; g_dlerr = nullptr; return e; }
X int sim_dladdr(const void *, Dl_info *i) { PT; memset(i, 0, sizeof *i); i->dli_fname = "libmonitor.so"; i->dli_fbase = (void *)0x7000; return 1; }
X int sim_dl_iterate_phdr(int (*cb)(struct dl_phdr_info *, size_t, void *), void *d) {
  PT; static const struct { const char *n; u64 b; } objs[] = {{"", 0}, {"libmonitor.so", 0x7000}, {"libc.so.6", 0x8000}}; int r = 0; Thread *was = g_scan; g_scan = cur;
  for (auto &o : objs) { struct dl_phdr_info i; memset(&i, 0, sizeof i); i.dlpi_name = o.n; i.dlpi_addr = o.b; r = cb(&i, sizeof i, d); if (r) break; } g_scan = was; return r; }

// ------------------------------------------------------------ MPI
X int sim_MPI_Init(int *a, char ***v) { return app_real_mpi(M_INIT, 0, a, v); }
X int sim_MPI_Init_thread(int *a, char ***v, int rq, int *pr) { if (pr) *pr = rq; return app_real_mpi(M_INITT, 0, a, v); }
X int sim_MPI_Finalize() { return app_real_mpi(M_FINI, 0, nullptr, nullptr); }
X int sim_MPI_Comm_size(void *c, int *s) { return app_real_comm(0, (long)c, s); }
X int sim_MPI_Comm_rank(void *c, int *s) { return app_real_comm(1, (long)c, s); }
X int sim_PMPI_Init(int *a, char ***v) { return app_real_mpi(M_INIT, 4, a, v); }
X int sim_PMPI_Init_thread(int *a, char ***v, int rq, int *pr) { if (pr) *pr = rq; return app_real_mpi(M_INITT, 4, a, v); }
X int sim_PMPI_Finalize() { return app_real_mpi(M_FINI, 4, nullptr, nullptr); }
X int sim_PMPI_Comm_size(void *c, int *s) { return app_real_comm(0, (long)c, s); }
X int sim_PMPI_Comm_rank(void *c, int *s) { return app_real_comm(1, (long)c, s); }
#define FM(pre, v, suf) \
X void sim_##pre##mpi_init##suf(int *e) { *e = app_real_mpi(M_INIT, v, nullptr, nullptr); } \
X void sim_##pre##mpi_init_thread##suf(int *rq, int *pr, int *e) { *pr = *rq; *e = app_real_mpi(M_INITT, v, nullptr, nullptr); } \
X void sim_##pre##mpi_finalize##suf(int *e) { *e = app_real_mpi(M_FINI, v, nullptr, nullptr); } \
X void sim_##pre##mpi_comm_size##suf(int *c, int *s, int *e) { *e = app_real_comm(0, *c, s); } \
X void sim_##pre##mpi_comm_rank##suf(int *c, int *s, int *e) { *e = app_real_comm(1, *c, s); }
FM(, 1, ) FM(, 2, _) FM(, 3, __) FM(p, 5, ) FM(p, 6, _) FM(p, 7, __)

X int sim___libc_start_main(int (*mainf)(int, char **, char **), int argc, char **argv, void (*)(), void (*)(), void (*)(), void *) {
  int r = mainf(argc, argv, sim_environ); libc_exit(r);
}
