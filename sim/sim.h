// Deterministic simulator for libmonitor: shared declarations.
#pragma once
#include <cstdint>
#include <cstddef>
#include <csignal>
#include <vector>
#include <string>
#include <pthread.h>
#include <time.h>

typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;
typedef int64_t i64;

// ---------------------------------------------------------------- choices
// Every nondeterministic decision is one choice, keyed by (kind, process,
// thread, per-thread counter of that kind).  Value 0 is the default.
enum CK : u8 {
  CK_SWITCH, CK_PICK, CK_STALL, CK_ASIG, CK_ACANCEL, CK_FAULT, CK_CBDUR, CK_CBIO,
  CK_SIGTGT, CK_JUMP, CK_CLIENT, CK_MISC, CK_N
};
extern const char *ck_names[CK_N];

enum FaultKind : u8 {
  FK_PTHREAD_CREATE, FK_FORK, FK_EXEC, FK_ATTR, FK_WAIT_EINTR, FK_WAIT_ECHILD,
  FK_SIGWAIT_EINTR, FK_DLOPEN, FK_MPI, FK_SLEEP_EINTR, FK_STALL, FK_ASIG, FK_ACANCEL, FK_CLOCK,
  FK_PREEMPT, FK_ENVSIG, FK_DLSYM, FK_N
};
extern const char *fk_names[FK_N];

// ---------------------------------------------------------------- events
enum EvT : u16 {
  E_NONE,
  // process / thread facts (kernel side)
  E_PROC_START,      // a=parent pidx, b=kind (0 root 1 fork)
  E_PROC_END,        // a=kind(0 exit,1 signal,2 exec) b=status/sig
  E_THR_START,       // a=creator tid, b=1 if start routine is the app's own (ignored)
  E_THR_END,         // thread gone
  E_SIG_SEND,        // a=target tid(-1 process) b=sig c=cookie d=origin (0 app,1 lib,2 env,3 sync)
  E_SIG_DROP,        // ignored by kernel: a=sig c=cookie
  E_FRAME,           // handler frame begin: a=sig c=cookie d=frameid
  E_FRAME_END,       // a=sig d=frameid
  E_STOP, E_CONT,
  E_EXEC,            // a=exec record id
  E_REAL_CREATE,     // a=new tid or -1, b=ret
  E_REAL_FORK,       // a=child pidx or -1
  E_ATEXIT_RUN,      // a=id
  E_CANCELLED,       // thread starts unwinding by cancellation
  E_FINIDTOR,        // dynamic: library destructor begin
  E_MALLOC,          // a=size (library allocations)
  // app facts
  E_MAIN_START, E_MAIN_END, // b=ret
  E_APP_START,       // a=prog b=arg token ok
  E_APP_END,         // a=kind 0 return 1 pexit 2 cancel  b=value
  E_OP, E_OP_END,    // a=op code b,c,d args / result
  E_APP_H,           // app handler entered: a=sig b=hid c=cookie(or -1) d=siginfo form
  E_APP_H_END,
  E_CLI_H,           // client handler: a=sig b=hid c=cookie
  E_CLI_H_END,       // d=ret
  E_TSD_DTOR,        // app TSD destructor
  E_SWTAKE,          // a sigwait call took a signal: a=sig c=cookie
  E_REALMPI,         // real MPI call: a=kind b=variant c=0 begin/1 end d=ret
  E_REALDL,          // real dlopen/dlclose: a=0 open 1 close b=path id|handle c=flags d=handle|ret
  E_SR,              // size/rank sample a,b
  E_WAITPID,         // a=pid b=ret c=status/errno
  E_PROBEMASK,       // a=keep-open set
  E_QMASK,           // mask seen inside an app handler: a=sig b=mask c=mask before d=disposition
  E_DISP0,           // initial disposition a=sig b=disp
  E_REQ_EXIT,        // app requests end: a=kind(0 exit,1 _exit,2 main return,3 pexit main,4 last) b=status
  // client callbacks: begin = E_CB + kind, end = E_CB_END + kind
  E_CB = 100,
  E_CB_END = 140,
  E_VIOL = 180,
  E_MAXT = 200
};
enum CB : u16 {
  CB_INIT_LIBRARY, CB_FINI_LIBRARY, CB_INIT_PROCESS, CB_FINI_PROCESS, CB_START_MAIN, CB_AT_MAIN,
  CB_BEGIN_EXIT, CB_PRE_FORK, CB_POST_FORK, CB_PRE_CREATE, CB_POST_CREATE, CB_THR_SUPPORT,
  CB_INIT_THREAD, CB_FINI_THREAD, CB_RESET_STACK, CB_PRE_DLOPEN, CB_DLOPEN, CB_DLCLOSE, CB_POST_DLCLOSE,
  CB_MPI_PRE_INIT, CB_INIT_MPI, CB_FINI_MPI, CB_MPI_POST_FINI, CB_WRAP_MAIN, CB_N
};
struct Ev { u32 seq; u16 type; u8 pidx; u8 depth; int tid; int pad; u64 vt; i64 a, b, c, d; };

// ---------------------------------------------------------------- run config
struct Op { int code; int a, b, c; };
enum OpCode {
  O_NOP, O_COMPUTE, O_IO, O_YIELD, O_TESTCANCEL, O_CREATE, O_JOIN, O_CANCEL, O_DETACH, O_KILLT, O_RAISE, O_KILLP,
  O_SIGACT, O_SIGNAL, O_MASK, O_SIGWAIT, O_FORK, O_REALFORK, O_WAIT, O_SYSTEM, O_REALSYSTEM, O_EXEC, O_REALEXEC,
  O_EXIT, O_UEXIT, O_UUEXIT, O_PEXIT, O_RET, O_SEGV, O_KEYSET, O_ATEXIT, O_DLOPEN, O_DLCLOSE, O_REALDLOPEN, O_MPI,
  O_SETSR, O_BCAST, O_BLOCKSD, O_IGNCREATE, O_QUERY, O_CSIGACT, O_NEWINFO, O_SETCANCEL, O_REALEXIT, O_REALABORT,
  O_INITIALIZE, O_UNRESP, O_SYSNULL, O_MANY, O_CLEANUPQ, O_QUERYSIG, O_STOPSELF, O_N
};
extern const char *op_names[O_N];

enum Knob {
  K_SWITCH,      // 0..6 switch probability index
  K_HOT,         // 0/1.. number of hot-site buckets
  K_STALL, K_ASIG, K_ACANCEL, K_FAULT, K_CBDUR, K_CBIO, K_JUMP, K_DEBUG, K_SDENV, K_EARLYFIRST,
  K_CLIENTIO, K_NULLDATA, K_STACKMODE, K_PATHMODE, K_PRELOAD, K_IGNMASK, K_NOSYS, K_NOLATEFAULT, K_ENVBIG,
  K_CLIENTREG, K_DLSYMFB, K_BADENV, K_SHAREATTR, K_N
};
extern const char *knob_names[K_N];

struct EnvSig { u64 vt; int sig; int target; };   // target: -1 process, else thread idx
struct Choice { u8 kind; u8 pidx; int tid; u32 ctr; u32 val; };

struct Program { std::vector<Op> ops; };
struct Config {
  u64 seed = 1;
  std::string profile;
  int knob[K_N] = {0};
  std::vector<Program> progs;       // 0 = main
  std::vector<Op> early;            // constructor ops
  std::vector<EnvSig> envsigs;
  std::vector<int> asigs;           // candidates for injected async signals
  bool rng = false;                 // replay by the seed alone: more choices were made than are recorded
};
extern Config C;

// ---------------------------------------------------------------- shared run result
#define MAX_EV 60000
#define MAX_VIOL 32
#define MAX_CHOICE 20000
#define MAX_PROC 24
enum Verdict { V_NONE, V_OK, V_HANG, V_DEADLOCK, V_CRASH, V_STEPCAP, V_LOGFULL, V_INTERNAL };
struct Viol { char prop[4]; char sig[44]; char msg[200]; u32 seq; };
struct ProcInfo { u8 used, ended, kind; int status; u64 endvt; int parent; int depth; };
struct Shared {
  int verdict; char verdict_msg[200];
  u32 nev; u32 nviol; u32 nchoice; u32 nproc;
  u64 schedhash, evhash; u64 points, switches; u64 maxvt; u64 hz; int shoot; // hz: time the callbacks take, on top of the horizon
  u64 faults[FK_N]; u64 evcount[E_MAXT]; u64 opcount[O_N]; u64 probe[64];
  ProcInfo proc[MAX_PROC];
  Viol viol[MAX_VIOL];
  Choice choice[MAX_CHOICE];
  Ev ev[MAX_EV];
};
extern Shared *S;
extern bool g_replay;
void load_replay_choices(const std::vector<Choice> &v);

// ---------------------------------------------------------------- kernel api
struct SigInfoRec { int sig; i64 cookie; int code; int sender; };
struct Wait { bool (*pred)(void *); void *arg; u64 deadline; bool has_deadline; bool cancelpt; bool sigint; u64 sigwaitset; };
struct Thread;
extern Thread *cur;
extern int PIDX;
u64 now_us();
void point(u64 pc, const void *addr, bool write);
void point0();
u32 choose(CK kind, u32 n, double p);      // 0 with prob 1-p, else 1..n
bool fault(FaultKind fk, double p);
void ev(int type, i64 a = 0, i64 b = 0, i64 c = 0, i64 d = 0);
void viol(const char *prop, const char *sig, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
void probe(int n);
[[noreturn]] void end_run(int verdict, const char *fmt, ...);
enum { WR_OK, WR_TIMEOUT, WR_SIGNAL };
int block_on(Wait w);                        // returns W_*
void compute(u64 us);                        // busy for us of virtual time
bool io(u64 us);                             // cancellation point sleeping us
void testcancel();
Thread *thr_by_id(int id);
int cur_tid();
int cur_depth();
u64 cur_mask();
bool in_stack(const void *p);                // p inside the calling thread's stack
bool thr_is_main(Thread *t);
void post_thread_signal(Thread *t, int sig, i64 cookie, int code, int origin);
void post_process_signal(int sig, i64 cookie, int code, int origin);
extern u64 SHOOT_KNOWN;

// thread fields visible to the app layer
struct UCtx { u64 dummy[8]; };
struct Frame { int sig; int id; i64 cookie; u64 oldmask; };
struct PendSig { int sig; i64 cookie; int code; int sender; };
struct TSDVal { pthread_key_t k; void *v; };
struct AttrX { u64 magic; size_t stack; int detach; u64 canary; };
enum TState { T_RUN, T_BLOCK, T_DEAD };
struct AppThread;
struct Thread {
  int id; u64 magic; void *sp; char *stk; size_t stksz; TState st; int err; bool spinning; const void *lastwrite; const void *spinaddr; u64 spinpc; int spincnt;
  Wait w; bool waiting; u64 stall_until; u64 stall_total;
  u64 mask; std::vector<PendSig> pend; std::vector<Frame> frames; u64 sw_saved_mask; bool in_sigwait;
  bool cancel_req, cancel_on, unwinding; bool cancellable_by_env;
  std::vector<void *> unw; void *retval; bool detached, joined, freed; int joiner;
  std::vector<std::pair<pthread_key_t, void *>> tsd;
  void *(*start)(void *); void *arg; void *botjb; int creator;
  u32 ctr[CK_N]; u64 run_len; size_t stack_attr; int end_kind;
  AppThread *app; bool ismain; const char *curapi; bool in_end; u64 asig_budget; int lastreq;
};
extern std::vector<Thread *> threads;
struct KAct { void *h; int flags; u64 mask; };
extern KAct kact[65];
extern int nlive();

// app/client/oracle
void app_setup();                 // before coroutine start
void app_main_thread();           // body of the initial thread
void app_child_reset(int parent_tid);
void oracle();
void generate(Config &c, const std::string &profile, u64 seed);
std::string config_to_text(const Config &c);
bool config_from_text(const std::string &t, Config &c, std::vector<Choice> &ch);
extern "C" int sim_is_dynamic;
extern "C" int sim_tn_array;
extern "C" const int sim_client_list[];
inline u64 mix64(u64 x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; x ^= x >> 31; return x; }
struct Rng { u64 s; u64 next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); } u32 below(u32 n) { return n ? (u32)(next() % n) : 0; }
  bool chance(int pct) { return below(100) < (u32)pct; } };
#define SB(sig) (1ULL << ((sig)-1))
u64 from_sigset(const sigset_t *s);
void to_sigset(u64 m, sigset_t *s);
// execs
struct ExecRec { int pidx, tid; std::string api, path; std::vector<std::string> argv, envp; bool argnull; u64 mask; KAct acts[65]; };
extern int g_nexec;
