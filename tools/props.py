import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
p("C01","Process start callbacks: exactly once, first, in order",
 "In every monitored process the client's library-init callback runs once and then its process-init callback runs exactly once, before any other process, thread or exit callback and before the application's main starts, whichever entry comes first (main, a pre-main thread creation, a fork, or the client's own initialise call). A process created by fork gets exactly one process-init of its own, with the data its pre-fork callback returned. The start-main and at-main callbacks run once each around the start of main, at-main after process-init, and process-init sees the program's argc and argv when it is entered through main.",
 ["schedules","programs","histories","configurations"],"all orders of first entry (constructor threads, constructor forks, main), static and preload builds, any interleaving of early threads, any fork history",
 "the tests enter through main or one constructor thread on one machine schedule; they never combine early threads, early forks and both link modes",
 ["src/main.c","src/fork.c","src/pthread.c"],[("run-once guards and process-init compare-and-swap","src/main.c monitor_begin_process_fcn"),("library constructor","src/main.c monitor_library_init_constructor")],
 observe=["client callbacks"])
p("C02","One process-exit sequence per process, everybody else waits",
 "However a monitored process ends (return from main, exit, _exit, pthread_exit from main, last thread returning, a fatal signal, a successful exec) and however many threads start ending it at once, the client gets exactly one begin-process-exit callback and then exactly one process-fini callback, both with the reason of the call that started the exit, and process-fini gets the data that process-init returned. The process does not terminate, exec or run its exit handlers before process-fini has returned, and a thread that loses the race to end the process is held until then. In the preload build library-fini runs at most once per process and only after process-fini has returned, and does run when the exit sequence of the process's only exit request completes. (A further exit call or fatal signal in the exiting thread itself, inside its own exit sequence, ends the process at once.)",
 ["schedules","programs","fault_sequences"],"all interleavings of concurrent exit, _exit, fatal signals, exec and main returning, from main, side or ignored threads and signal handlers, static and preload",
 "side-exit.c and exit.c run a few exits each under whatever order the OS picks; the losing interleavings are windows of a few instructions",
 ["src/main.c","src/signal.c","src/fork.c","src/pthread.c"],[("end-process cookie (compare and swap) and fini-done flag","src/main.c monitor_end_process_fcn"),("exit overrides","src/main.c exit/_exit; src/pthread.c pthread_exit; src/signal.c monitor_signal_handler; src/fork.c exec*")],
 observe=["client callbacks","process end"])
p("C03","Thread callbacks pair up exactly once with the right data and tid",
 "For every thread the application creates that is not ignored: thread-pre-create runs in the creator, thread-init then runs once in the new thread before the application's start routine with the pre-create data and a positive tid never used before in that process, is not cut short by a cancellation, and post-create runs once in the creator with the pre-create data even if the creation failed. Thread-fini runs at most once, in the thread itself, after its thread-init has returned and with the data thread-init returned; it runs exactly once if the thread ends by return, pthread_exit or cancellation before process exit starts. Thread-support-init runs once before the first pre-create in a process and its forked descendants together (a forked child inherits it).",
 ["schedules","programs","fault_sequences"],"all interleavings of thread creation, completion, cancellation, signals and process exit, and any failing pthread_create",
 "cancel.c and shootdown.c check a handful of threads on natural schedules; racing completion against exit, cancellation inside callbacks and failed creations never occur",
 ["src/pthread.c"],[("thread node flags and cleanup handler","src/pthread.c monitor_begin_thread, monitor_pthread_cleanup_routine"),("tid counter under the thread lock","src/pthread.c monitor_link_thread_node"),("shootdown handler guard","src/pthread.c monitor_shootdown_handler")],
 state=[dict(name="tn_appl_started/tn_fini_started/tn_fini_done",meaning="thread callback progress",where="src/pthread_h.h")],observe=["client callbacks"])
p("C04","At exit every running thread gets its thread-fini before process-fini",
 "When process exit starts, every monitored thread that is running application code and can take the shootdown signal gets its thread-fini callback, in its own thread, completed before process-fini begins (a thread can take it if, before some ten seconds pass without another thread-fini starting, it has the signal open for about a second); when a side thread ends the process the main thread gets one too, with the process data, and the exiting thread gets its own last. No thread-fini overlaps or follows the start of process-fini, unless a process-ending signal strikes the exiting thread inside its own exit sequence; no thread gets a thread-init after process-fini has begun.",
 ["schedules","programs","fault_sequences"],"any number of threads in any state (computing, blocked, in sigwait, in a handler, finishing, starting, themselves exiting) when exit starts, slow threads, clock jumps",
 "shootdown.c has identical spinning threads; threads inside handlers, in sigwait, finishing or racing into exit are not sampled",
 ["src/pthread.c","src/main.c"],[("shootdown signal loop","src/pthread.c monitor_thread_shootdown"),("shootdown handler and sigwait path","src/pthread.c monitor_shootdown_handler, monitor_sigwait_helper")],observe=["client callbacks"])
p("C05","Monitoring never hangs the program and exit is bounded",
 "Once a thread starts ending the process, it ends within a bounded time: the time the client callbacks and handlers themselves take, plus about ten seconds without progress if some thread cannot take the shootdown signal. No intercepted call and no client support call blocks forever or deadlocks, whatever signals, cancellations, forks or other calls arrive while it runs, provided the real call would not; and each call leaves the calling thread's cancelability as it found it.",
 ["schedules","programs","fault_sequences"],"all interleavings, signals and cancellations at every instruction of the library, stalled threads, forks while other threads are inside the library, clock steps",
 "a hang needs a signal, cancel or fork inside a critical section a few instructions long",
 ["src/pthread.c","src/main.c","src/signal.c","src/fork.c"],[("shootdown time-out and poll loop","src/pthread.c monitor_thread_shootdown"),("thread spin lock","src/spinlock.h; src/pthread.c"),("fork child reset","src/pthread.c monitor_reset_thread_list")],observe=["process end","call returns"])
p("C06","A monitored process ends with the status the program asked for",
 "The parent of a monitored process sees the same end as without monitoring: the exit code passed to exit, _exit or returned from main (one of them if several threads raced), death by the fatal signal that was sent or raised, or the exec'd image. Signals whose default is to ignore or stop do that and nothing more, and exit handlers run exactly when they would have.",
 ["schedules","programs","fault_sequences"],"all end causes from all threads and handlers, sent and synchronous signals, races between them, fork children",
 "tests look at output, not at wait status under signals and races",
 ["src/main.c","src/signal.c"],[("re-raise with default disposition","src/signal.c monitor_signal_handler"),("real exit calls","src/main.c exit, _exit")],observe=["wait status","atexit handlers"])
p("C07","Signal handling looks to the application as if unmonitored",
 "sigaction and signal return the disposition the application itself last installed, and a delivered signal is handled as the application's current disposition says: ignored, default action, or exactly one call of the installed handler with the same signal number and info in the form it was installed with. A client handler gets the signal first, and the application sees it only if the client declines it (except that a signal the application ignores may pass the client by while an exec call is in progress, because ignored signals stay ignored across exec). Invalid and uncatchable signal numbers are refused as the system would.",
 ["schedules","programs","inputs"],"all interleavings of disposition changes, deliveries to any thread, client registrations and nesting of handlers",
 "no test installs application handlers under monitoring",
 ["src/signal.c"],[("per-signal table and single kernel handler","src/signal.c monitor_signal_handler, monitor_appl_sigaction, monitor_sigaction")],observe=["handler calls","oldact"])
p("C08","Client and shootdown signals stay open; all other mask requests are exact",
 "sigprocmask and pthread_sigmask change and report the calling thread's mask exactly as requested, except that the shootdown signal and the client's signals keep the state they had, so the application can neither block nor unblock them, also through a handler's mask; the client's own mask calls are exact for every signal. The shootdown signal is the one named by the environment if that is usable, otherwise one that the client does not hold. Inside any handler the shootdown signal is blocked, so no thread-fini runs nested in a handler that is not itself ending the process.",
 ["inputs","programs","schedules","configurations"],"all sets, operations, threads and nesting; all values of the environment variable and client signal lists",
 "the tests never mask signals",
 ["src/signal.c","src/pthread.c"],[("keep-open filter","src/signal.c monitor_remove_client_signals"),("mask adjustment","src/signal.c monitor_adjust_samask"),("shootdown choice","src/signal.c monitor_choose_shootdown_early")],observe=["kernel mask","pthread_sigmask result"])
p("C09","sigwait, sigwaitinfo and sigtimedwait lose, invent and leak nothing",
 "The sigwait family returns to the application only signals from its set that were sent to it, each once and with its info, and never a shootdown signal sent by the library or a signal the client's handler accepted. Interruptions restart the wait; other errors and the time-out are reported as the system would, and a timed wait never ends early and never lasts longer than its time-out because of interruptions. A waiting thread still receives thread-fini at exit.",
 ["schedules","inputs","fault_sequences"],"all arrivals of signals in and out of the set, EINTR faults, client accept or decline, exit during the wait, null info pointers",
 "no test calls sigwait",
 ["src/pthread.c","src/signal.c"],[("restart loop and helper","src/pthread.c monitor_sigwait_helper"),("client first refusal","src/signal.c monitor_sigwait_handler")],observe=["return values"])
p("C10","Fork: bracketed in the parent, a fresh monitored process in the child",
 "Each fork or vfork call gives the parent one pre-fork callback before and one post-fork callback after, with the pre-fork data and the value fork returns (also when it fails), and gives the child one process-init. In the child the forking thread is the main thread with tid 0 and no other threads, and every other guarantee (callbacks, exit sequence, bounded exit, queries, new threads) holds afresh, whatever other threads of the parent were doing at the moment of the fork.",
 ["schedules","programs","fault_sequences"],"forks from main, side and ignored threads at every point of other threads' progress including process exit, failing forks, nested forks, threads in the child",
 "thread_fork.c forks from quiescent threads",
 ["src/fork.c","src/main.c","src/pthread.c"],[("fork override","src/fork.c monitor_fork"),("child reset","src/main.c monitor_begin_process_fcn; src/pthread.c monitor_reset_thread_list")],observe=["client callbacks in parent and child"])
p("C11","Exec: process-fini before an exec that succeeds, arguments intact",
 "All six exec calls pass path, every argument in order and the right environment to the real exec, whatever their number, and return its error if it fails. If the image is replaced, the exit sequence with the exec reason completed first; an exec whose target does not exist or has no execute permission leaves the process running with no exit callbacks. The client's own exec calls reach the real exec with their arguments, give no callbacks and remove only the preload setting.",
 ["inputs","programs","fault_sequences","schedules"],"all argument counts, PATH shapes (unset, empty, long components), present and absent targets, exec failing after the check, exec racing other exits",
 "no test execs",
 ["src/fork.c"],[("exec overrides","src/fork.c monitor_execv, monitor_execvp, monitor_execve, monitor_copy_va_args"),("executability probe","src/fork.c monitor_is_executable"),("environment copy","src/fork.c monitor_copy_environ")],observe=["exec arguments","client callbacks"])
p("C12","system() behaves like the C library's and is bracketed by fork callbacks",
 "system runs the command in a shell, returns its wait status (or -1 if fork failed, or shell availability for a null command), retries interrupted waits, ignores SIGINT and SIGQUIT and blocks SIGCHLD in the caller meanwhile, from before the child exists, and leaves dispositions and mask as they were (also when the caller is cancelled meanwhile); the command starts with the caller's original dispositions, mask and environment. The application's system gives one pre-fork and one post-fork callback with the child's id; the client's gives none and runs the command without the preload setting.",
 ["schedules","fault_sequences","programs"],"all interleavings with signals and other threads' system calls, failing fork, exec and wait",
 "no test calls system",
 ["src/fork.c"],[("reimplemented system","src/fork.c monitor_system")],observe=["status","dispositions","callbacks"])
p("C13","pthread_create is transparent to the application",
 "pthread_create returns what the real call returns, stores the new thread's id, runs the start routine exactly once with its argument, and the thread's result (return value, pthread_exit value or cancellation) reaches join unchanged. The caller's attribute object is unchanged afterwards and the new thread gets its attributes, except a stack size the client chose when asked at each such creation. Threads the client ignores run the same way without any callbacks.",
 ["schedules","inputs","fault_sequences"],"all attribute settings, client stack sizes, failures of attribute calls and thread creation, cancellations, ignored threads",
 "the tests use default or one attribute setting and no failures",
 ["src/pthread.c"],[("create override and stack size adjust/restore","src/pthread.c pthread_create, monitor_adjust_stack_size"),("begin-thread trampoline","src/pthread.c monitor_begin_thread")],observe=["return values","start routine","join value","attributes"])
p("C14","Identity and stack queries answer for the calling thread",
 "From application code, callbacks and signal handlers the queries for user data, thread number, start address, main address, stack bottom and the start-function address tests answer for the calling thread and never with another thread's identity, also while the thread is ending and after fork. New-thread info is available exactly while the caller is inside pthread_create and describes that call. Threads that are not monitored get no identity. A process counts as threaded once it has a running thread, and not before its first thread creation (afresh in a forked child).",
 ["schedules","programs","histories"],"queries at every point of a thread's life from handlers and destructors, with other threads starting and ending, in fork children and ignored threads",
 "no test compares the answers across threads and lifetimes",
 ["src/pthread.c","src/main.c"],[("thread-specific node","src/pthread.c monitor_get_tn"),("fence labels","src/main.c monitor_main; src/pthread.c monitor_begin_thread")],observe=["query results"])
p("C15","Broadcast signals every other running thread once, or nothing",
 "A broadcast that returns success has sent the signal exactly once to every other monitored thread that was running application code throughout the call, including main, never to the caller, an ignored or a finished thread; one that returns failure has sent nothing, and it fails only if another thread is inside the library at that moment. It may be called from a signal handler at any point and always returns.",
 ["schedules","programs"],"broadcasts from any thread or handler racing creation, completion, other broadcasts and exit",
 "no test broadcasts",
 ["src/pthread.c"],[("try-lock and list walk","src/pthread.c monitor_broadcast_signal")],observe=["signals sent"])
p("C16","A thread that blocks shootdown gets no thread-fini until it unblocks",
 "Between the client's block-shootdown and unblock-shootdown calls in a thread no thread-fini callback starts in that thread; the block call reports whether exit shootdown had already begun, a thread that has already had its thread-fini at exit is never told that exit has not begun, and after unblocking the thread still gets its thread-fini before process-fini if exit is waiting.",
 ["schedules"],"all placements of block and unblock against the shootdown signal, in normal code, handlers and sigwait",
 "no test blocks shootdown",
 ["src/pthread.c"],[("per-thread block flag","src/pthread.c monitor_block_shootdown, monitor_shootdown_handler")],observe=["client callbacks","return value"])
p("C17","dlopen and dlclose are bracketed once and pass through unchanged",
 "Each application dlopen gives one pre callback, the real call with the same path and flags, and one post callback with the handle that is returned, in that order; dlclose likewise with its handle and result, also when the real call fails. The client's own dlopen and dlclose, and the library's internal symbol lookups, give no callbacks.",
 ["schedules","inputs","fault_sequences"],"nested and concurrent calls from many threads, failing loads, late symbol lookups in the preload build",
 "hidden.c loads one library and does not look at callbacks",
 ["src/dlopen.c","src/common.c"],[("overrides","src/dlopen.c"),("symbol lookup fallback","src/common.c monitor_dlsym")],observe=["client callbacks","return values"])
p("C18","MPI init and finalize callbacks once per outermost call; size and rank stable",
 "However the C, Fortran and profiling entry points nest, the client gets one pre-init, init, fini and post-fini callback per outermost application call, around the real call, whose arguments and result pass through. The reported size and rank are unset until an application's first rank query after init has finished (or the client sets them), then are one consistent pair from a single call and never change.",
 ["schedules","programs","configurations"],"all nestings of entry points, rank queries inside init, concurrent rank queries and client settings, failing MPI calls",
 "no MPI test runs here",
 ["src/mpi.c","src/mpi_*.c","src/pmpi.c"],[("nesting counts and first-wins","src/mpi.c")],observe=["client callbacks","size and rank"])
p("C19","Bookkeeping stays bounded and works for any number of threads",
 "Any number of threads can be created over a process's life and at one time, each with its own distinct bookkeeping, and memory for it grows only with the largest number of threads that existed at once, not with the number ever created, failed or ignored.",
 ["histories","schedules","fault_sequences"],"arbitrarily long create/join/fail/cancel histories and more live threads than the preallocated table",
 "the tests create a few threads; the table holds 600",
 ["src/pthread.c"],[("free list, table, growth","src/pthread.c monitor_make_thread_node, monitor_unlink_thread_node")],observe=["allocations","callbacks"],hook="table size override for simulation")
p("C20","monitor-run and monitor-link set up preloading and wrapping correctly",
 "The monitor-run script starts the command with the library and client preloaded and keeps its arguments, and the monitor-link script links with every override wrapped.",
 ["inputs","configurations"],"all command lines",
 "tests use two fixed command lines",
 ["src/monitor-run.in","src/monitor-link.in"],[("shell scripts","src/monitor-run.in, src/monitor-link.in")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
