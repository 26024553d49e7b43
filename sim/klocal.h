#pragma once
#include "sim.h"
struct TimedEv { u64 vt; u64 seq; void (*fn)(i64, i64); i64 a, b; };
extern std::vector<TimedEv> timed;
extern std::vector<PendSig> ppend;
extern i64 wall_off; extern int g_depth; extern u64 next_cookie; extern bool g_dtor_ran;
extern std::vector<std::pair<void (*)(int), int>> g_atexit;
extern u64 g_step_cap, g_horizon;
void add_timed(u64 vt, void (*fn)(i64, i64), i64 a, i64 b);
[[noreturn]] void die(int kind, int status);
[[noreturn]] void libc_exit(int status);
[[noreturn]] void do_unwind();
void start_cancel();
void run_tsd_dtors();
void notify_write(const void *a);
void yield_cpu();
void spend_us(u64 us);
bool want_jump();
u64 stall_used();
bool take_sigwait(Thread *t, u64 set, PendSig &out);
bool has_pending(Thread *t, u64 set);
void check_signals();
void sync_signal(int sig, i64 cookie, int code);
Thread *new_thread(void *(*start)(void *), void *arg);
void recycle_stack(Thread *t);
void child_after_fork(int newidx);
void run_process();

int env_code(int sig, bool thr);
