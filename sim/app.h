#pragma once
#include "sim.h"
#include "klocal.h"
#include <map>
enum { M_INIT, M_INITT, M_FINI };
void app_attr_live(int d);
bool app_attr_restoring(pthread_attr_t *p, size_t s);
void app_real_create(Thread *t, void *(*start)(void *), void *arg, size_t stack, int detach, size_t guard);
void app_exec_failed();
void app_exec_check(const char *api, const char *orig, const char *path, char *const argv[], char *const envp[], bool succeeds);
void app_real_system(const char *cmd);
void *app_real_dlopen(const char *p, int fl);
int app_real_dlclose(void *h);
int app_real_mpi(int kind, int variant, int *argc, char ***argv);
int app_real_comm(int which, long comm, int *out);
void app_waitpid(int pid, int ret, int status);
void app_unwound();
int lib_origin();
void app_in_waitpid(); void app_at_fork();
void app_fork_failed();
void app_forked(int np);
bool app_asig_ok(int sig);
bool app_createfail();
void app_make_main(Thread *m);
int n_sdenv();
int file_state_pub(const char *p);
int path_search_state(const char *f);
int add_app_atexit(void (*f)(int), int id);
void set_environ(const std::vector<std::string> &v);
extern "C" char **sim_environ;
extern std::vector<std::string> g_envstore;

struct OpFrame { int code; int depth; u32 seq; int a, b, c; bool cs = false; };
struct ExpExec { bool on; std::string path; std::vector<std::string> argv, envp; bool search; bool client; u64 mask; bool system; u32 ver = 0; };
struct CreateCtx { int slot, prog, flags; bool ign_disable, ign_pre, ign_creator; size_t reqstack; int reqdetach; size_t reqguard; size_t chosen; bool have_chosen; i64 pre_tok; bool pre_done; Thread *made; int realret; bool realcalled; void *(*start)(void *); u64 mask; bool attr_failed; int attr_live; bool shared, envcancel; u64 attrfaults; void *sarg; struct AppThread *newat; int incb; };
struct AttrView { u64 magic; size_t stack; int detach; size_t guard; u64 canary; };
struct AppThread {
  int prog = -1, slot = -1; bool ignored = false; bool ismain = false; i64 pre_tok = 0, init_tok = 0; int mtid = -1;
  bool init_begun = false, init_done = false, fini_begun = false, fini_done = false, started = false, ended = false;
  void *(*startfn)(void *) = nullptr; std::vector<OpFrame> ops; CreateCtx *cc = nullptr; ExpExec ex; int sending = 0, senddep = 0, segvh = 0; bool blocked_sd = false, sd_busy = false;
  u64 start_mask = 0; int disable_depth = 0; int lastwait = 0; bool lastwait_eintr = false; bool waited = false; int in_handler_op = 0; int in_cb = 0; i64 forktok = 0; int curslot = -1;
  int mpi_nest = -1; bool mpi_rank_inside = false; u64 create_mask = 0; bool end_set = false; i64 end_val = 0; bool in_dtor = false; bool forkfail = false, createfail = false; int forked = 0; bool nostack = false;
};
struct Slot { int prog = -1; Thread *t = nullptr; bool created = false, joined = false, detached = false, nojoin = false; int ret = 0; };
struct AppProc {
  i64 ptok = 0; bool init_begun = false, init_done = false, main_started = false, nocb = false, exit_begun = false; u64 K0 = 0; int shoot = 0; bool probed = false; u64 Kclient = 0, Kcert = 0; int csigbusy = 0; u64 clientact = 0; int nsystem = 0, nexec = 0, created = 0; bool nsysend = false; KAct sysint, sysquit; u32 sa_intquit = 0, sa_busy = 0; bool sysfork = false; // forked while another thread's system() ignores SIGINT and SIGQUIT: inherited, as without the library
  int main_tid = 0; int attr_live = 0; bool fork_child = false; bool fini_begun = false; bool badfork = false; int mpi_busy = 0;
};
extern AppProc AP;
extern std::vector<Slot> slots;
enum { TK_PRE = 0x10000, TK_INIT = 0x20000, TK_PROC = 0x30000, TK_FORK = 0x40000 };
extern int g_create_err;
u64 maskset(int sel); bool nodefer(int sel);
