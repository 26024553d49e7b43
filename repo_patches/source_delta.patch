From 93b85d6d410272becb7df9335b11670be77dd4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:00 +0000
Subject: [PATCH 01/44] Hook: allow a small thread node array for simulation
 (MONITOR_SIM_TN_ARRAY_SIZE)

---
 src/pthread.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pthread.c b/src/pthread.c
index 41a8a72..5860d71 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -83,7 +83,11 @@
  *----------------------------------------------------------------------
  */
 
+#ifdef MONITOR_SIM_TN_ARRAY_SIZE
+#define MONITOR_TN_ARRAY_SIZE  MONITOR_SIM_TN_ARRAY_SIZE
+#else
 #define MONITOR_TN_ARRAY_SIZE  600
+#endif
 #define MONITOR_SHOOTDOWN_TIMEOUT  10
 
 /*
-- 
2.43.0


From ca36c6266118a4424d07f519cfcd0eb00460bd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:55 +0000
Subject: [PATCH 02/44] fix: block signals while holding the thread list lock

A handler running on the thread that holds the lock could begin process
exit and spin forever on the same lock.
---
 src/pthread.c | 53 +++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 49 insertions(+), 4 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index 5860d71..3a6d33a 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -177,14 +177,18 @@ static malloc_fcn_t  *real_malloc = NULL;
  *  related state variables.  The values inside a single node don't
  *  really need a mutex.
  *
+ *  Note: a signal handler in the thread that holds the lock could
+ *  begin process exit and then wait forever on the same lock, so we
+ *  hold the lock with all signals blocked.
+ *
  *  Note: After monitor begins exit cleanup, then we don't insert or
  *  delete any new thread nodes into the list.  Instead, we set the
  *  tn_* variables to indicate the thread status and when it has
  *  finished.
  */
-#define MONITOR_THREAD_LOCK     spinlock_lock(&monitor_thread_lock)
-#define MONITOR_THREAD_TRYLOCK  spinlock_trylock(&monitor_thread_lock)
-#define MONITOR_THREAD_UNLOCK   spinlock_unlock(&monitor_thread_lock)
+#define MONITOR_THREAD_LOCK     monitor_thread_lock_acquire(&lock_set)
+#define MONITOR_THREAD_TRYLOCK  monitor_thread_lock_try(&lock_set)
+#define MONITOR_THREAD_UNLOCK   monitor_thread_lock_release(&lock_set)
 
 static spinlock_t monitor_thread_lock = SPINLOCK_UNLOCKED;
 
@@ -218,6 +222,41 @@ extern char monitor_thread_fence4;
  *----------------------------------------------------------------------
  */
 
+/*
+ *  Acquire, try and release the thread lock with all signals blocked
+ *  while holding it.  The thread's signal mask is saved in set.
+ */
+static inline void
+monitor_thread_lock_acquire(sigset_t *set)
+{
+    sigset_t full_set;
+
+    sigfillset(&full_set);
+    (*real_pthread_sigmask)(SIG_SETMASK, &full_set, set);
+    spinlock_lock(&monitor_thread_lock);
+}
+
+static inline int
+monitor_thread_lock_try(sigset_t *set)
+{
+    sigset_t full_set;
+
+    sigfillset(&full_set);
+    (*real_pthread_sigmask)(SIG_SETMASK, &full_set, set);
+    if (spinlock_trylock(&monitor_thread_lock) != 0) {
+	(*real_pthread_sigmask)(SIG_SETMASK, set, NULL);
+	return (-1);
+    }
+    return (0);
+}
+
+static inline void
+monitor_thread_lock_release(sigset_t *set)
+{
+    spinlock_unlock(&monitor_thread_lock);
+    (*real_pthread_sigmask)(SIG_SETMASK, set, NULL);
+}
+
 /*
  *  Note: there is a tiny window where a thread exists but its thread-
  *  specific data is not yet set, so it's not really an error for
@@ -370,6 +409,7 @@ static struct monitor_thread_node *
 monitor_make_thread_node(void)
 {
     struct monitor_thread_node *tn;
+    sigset_t lock_set;
 
     MONITOR_THREAD_LOCK;
 
@@ -410,6 +450,8 @@ monitor_make_thread_node(void)
 static int
 monitor_link_thread_node(struct monitor_thread_node *tn)
 {
+    sigset_t lock_set;
+
     MONITOR_THREAD_LOCK;
 
     if (monitor_in_exit_cleanup) {
@@ -426,6 +468,8 @@ monitor_link_thread_node(struct monitor_thread_node *tn)
 static void
 monitor_unlink_thread_node(struct monitor_thread_node *tn)
 {
+    sigset_t lock_set;
+
     MONITOR_THREAD_LOCK;
     /*
      * Don't delete the thread node if in exit cleanup, just mark the
@@ -518,7 +562,7 @@ monitor_thread_shootdown(void)
     struct timeval last, now;
     struct monitor_thread_node *tn, *my_tn, *main_tn;
     struct sigaction my_action;
-    sigset_t empty_set;
+    sigset_t empty_set, lock_set;
     pthread_t self;
     int num_started, num_unstarted, last_started;
     int num_finished, num_unfinished, old_state;
@@ -769,6 +813,7 @@ int
 monitor_broadcast_signal(int sig)
 {
     struct monitor_thread_node *tn;
+    sigset_t lock_set;
     pthread_t self;
 
     if (! monitor_has_used_threads)
-- 
2.43.0


From dea3a50108a56e272dc0a7d7b9b30a92f2cdff3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:41 +0000
Subject: [PATCH 03/44] fix: claim the fini-thread callback atomically and
 always unlink an ended thread

The cleanup routine, the shootdown handler and sigwait tested and set
tn_fini_started separately, so a thread could get two fini-thread
callbacks.  A thread that ended without a callback stayed on the thread
list, and process exit then signalled a dead pthread_t.
---
 src/pthread.c | 65 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 21 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index 3a6d33a..acd5f41 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -486,6 +486,32 @@ monitor_unlink_thread_node(struct monitor_thread_node *tn)
     MONITOR_THREAD_UNLOCK;
 }
 
+/*
+ *  A thread's fini-thread callback can be launched from the cleanup
+ *  routine, the shootdown handler (even from inside the cleanup
+ *  routine) or sigwait(), so the test and set must be atomic.  The
+ *  thread lock also orders this with the end of thread shootdown.
+ *
+ *  Returns: 1 if the caller should run the fini-thread callback.
+ */
+static int
+monitor_claim_fini_thread(struct monitor_thread_node *tn)
+{
+    sigset_t lock_set;
+    int ret = 0;
+
+    MONITOR_THREAD_LOCK;
+    if (tn->tn_appl_started && !tn->tn_fini_started
+	&& !tn->tn_block_shootdown && !monitor_fini_thread_done)
+    {
+	tn->tn_fini_started = 1;
+	ret = 1;
+    }
+    MONITOR_THREAD_UNLOCK;
+
+    return (ret);
+}
+
 static void
 monitor_shootdown_handler(int sig)
 {
@@ -514,11 +540,12 @@ monitor_shootdown_handler(int sig)
     }
 
     (*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
-    tn->tn_fini_started = 1;
-    MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
-		  tn->tn_user_data, tn->tn_tid);
-    monitor_fini_thread(tn->tn_user_data);
-    tn->tn_fini_done = 1;
+    if (monitor_claim_fini_thread(tn)) {
+	MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
+		      tn->tn_user_data, tn->tn_tid);
+	monitor_fini_thread(tn->tn_user_data);
+	tn->tn_fini_done = 1;
+    }
     (*real_pthread_setcancelstate)(old_state, NULL);
 }
 
@@ -964,22 +991,22 @@ monitor_pthread_cleanup_routine(void *arg)
 		      "bad magic in thread node\n");
 	return;
     }
-    if (!tn->tn_appl_started || tn->tn_fini_started || tn->tn_block_shootdown) {
-	/* fini-thread has already run, or else we don't want it to run. */
-	return;
+    if (monitor_claim_fini_thread(tn)) {
+	MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
+		      tn->tn_user_data, tn->tn_tid);
+	monitor_fini_thread(tn->tn_user_data);
+	tn->tn_fini_done = 1;
     }
-    if (monitor_fini_thread_done) {
+    else if (tn->tn_appl_started && !tn->tn_fini_started
+	     && !tn->tn_block_shootdown) {
 	MONITOR_WARN("unable to deliver monitor_fini_thread callback (tid %d): "
 		     "monitor_fini_process() has begun\n", tn->tn_tid);
-	return;
     }
 
-    tn->tn_fini_started = 1;
-    MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
-		  tn->tn_user_data, tn->tn_tid);
-    monitor_fini_thread(tn->tn_user_data);
-    tn->tn_fini_done = 1;
-
+    /*
+     * The thread is about to end, so always take it off the thread
+     * list, even if there was no callback.
+     */
     monitor_unlink_thread_node(tn);
 }
 
@@ -1304,14 +1331,10 @@ monitor_sigwait_helper(const sigset_t *set, int sig, int sigwait_errno,
     tn = monitor_get_tn();
     if (sig == shootdown_signal
 	&& monitor_in_exit_cleanup
-	&& !monitor_fini_thread_done
 	&& tn != NULL
-	&& tn->tn_appl_started
-	&& !tn->tn_fini_started
-	&& !tn->tn_block_shootdown)
+	&& monitor_claim_fini_thread(tn))
     {
 	(*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
-	tn->tn_fini_started = 1;
 	MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
 		      tn->tn_user_data, tn->tn_tid);
 	monitor_fini_thread(tn->tn_user_data);
-- 
2.43.0


From 4782b0dc1d853efbbfc60027c015de032b9cff34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:42 +0000
Subject: [PATCH 04/44] fix: walk the thread list under the lock during thread
 shootdown

Threads that end during the walk could be signalled after they were gone,
a thread could start its fini-thread callback after fini-process had
begun, the timeout followed the wall clock and could cut off a callback
in progress, and a thread that exits the process from its init-thread
callback got fini-thread without having started.
---
 src/pthread.c | 47 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index acd5f41..30feeef 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -56,7 +56,6 @@
  */
 
 #include "config.h"
-#include <sys/time.h>
 #include <sys/types.h>
 #include <alloca.h>
 #ifdef MONITOR_DYNAMIC
@@ -68,6 +67,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <time.h>
 #include <ucontext.h>
 #include <unistd.h>
 
@@ -586,13 +586,13 @@ monitor_thread_release(void)
 void
 monitor_thread_shootdown(void)
 {
-    struct timeval last, now;
+    struct timespec last, now;
     struct monitor_thread_node *tn, *my_tn, *main_tn;
     struct sigaction my_action;
     sigset_t empty_set, lock_set;
     pthread_t self;
     int num_started, num_unstarted, last_started;
-    int num_finished, num_unfinished, old_state;
+    int num_finished, num_unfinished, timeout, old_state;
 
     if (! monitor_has_used_threads) {
 	MONITOR_DEBUG1("(no threads)\n");
@@ -601,9 +601,6 @@ monitor_thread_shootdown(void)
 
     (*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
 
-    MONITOR_THREAD_LOCK;
-    monitor_in_exit_cleanup = 1;
-    MONITOR_THREAD_UNLOCK;
     MONITOR_DEBUG1("(threads)\n");
 
     /*
@@ -627,12 +624,15 @@ monitor_thread_shootdown(void)
      */
     self = (*real_pthread_self)();
     main_tn = monitor_get_main_tn();
+    MONITOR_THREAD_LOCK;
+    monitor_in_exit_cleanup = 1;
     if (! PTHREAD_EQUAL(self, main_tn->tn_self)) {
 	main_tn->tn_appl_started = 1;
 	main_tn->tn_fini_started = 0;
 	main_tn->tn_fini_done = 0;
 	LIST_INSERT_HEAD(&monitor_thread_list, main_tn, tn_links);
     }
+    MONITOR_THREAD_UNLOCK;
 
     /*
      * Walk through the list of unfinished threads, send a signal to
@@ -643,11 +643,17 @@ monitor_thread_shootdown(void)
      * seconds, then give up.  Progress means receiving the signal in
      * the other thread, the fini thread callback can take as long as
      * it likes.
+     *
+     * A thread on the list that has not started its callback can't
+     * end while we hold the lock, so it's safe to signal it.  And the
+     * decision to stop must be atomic with turning off any further
+     * fini-thread callbacks.
      */
     my_tn = NULL;
-    gettimeofday(&last, NULL);
+    clock_gettime(CLOCK_MONOTONIC, &last);
     last_started = 0;
     for (;;) {
+	MONITOR_THREAD_LOCK;
 	num_started = 0;
 	num_unstarted = 0;
 	num_finished = 0;
@@ -673,30 +679,37 @@ monitor_thread_shootdown(void)
 		    num_unfinished++;
 	    }
 	}
-	MONITOR_DEBUG("started: %d, unstarted: %d, finished: %d, unfinished: %d\n",
-		      num_started, num_unstarted, num_finished, num_unfinished);
-	if (num_unfinished == 0)
-	    break;
-
-	gettimeofday(&now, NULL);
+	clock_gettime(CLOCK_MONOTONIC, &now);
+	timeout = 0;
 	if (num_started > last_started) {
 	    last = now;
 	    last_started = num_started;
 	} else if (now.tv_sec > last.tv_sec + MONITOR_SHOOTDOWN_TIMEOUT
-		   && num_unstarted > 0) {
+		   && num_unstarted > 0 && num_finished == num_started) {
+	    timeout = 1;
+	}
+	if (num_unfinished == 0 || timeout) {
+	    monitor_fini_thread_done = 1;
+	}
+	MONITOR_THREAD_UNLOCK;
+
+	MONITOR_DEBUG("started: %d, unstarted: %d, finished: %d, unfinished: %d\n",
+		      num_started, num_unstarted, num_finished, num_unfinished);
+	if (timeout) {
 	    MONITOR_WARN("timeout exceeded (%d): unable to deliver "
 			 "monitor_fini_thread() to %d threads\n",
 			 MONITOR_SHOOTDOWN_TIMEOUT, num_unstarted);
-	    break;
 	}
+	if (monitor_fini_thread_done)
+	    break;
+
 	usleep(MONITOR_POLL_USLEEP_TIME);
     }
-    monitor_fini_thread_done = 1;
 
     /*
      * See if we need to run fini_thread from this thread.
      */
-    if (my_tn != NULL && !my_tn->tn_fini_started) {
+    if (my_tn != NULL && my_tn->tn_appl_started && !my_tn->tn_fini_started) {
 	my_tn->tn_fini_started = 1;
 	MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
 		      my_tn->tn_user_data, my_tn->tn_tid);
-- 
2.43.0


From 6ea33a556b82133aa5d6753238671d469cf060db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:26 +0000
Subject: [PATCH 05/44] fix: disable thread cancellation around the thread and
 exit callbacks

A pending cancel acted on at a cancellation point inside the init-thread,
fini-thread, begin-exit or fini-process callbacks unwound the thread in
the middle of the callback, and could stop process exit half way.
---
 src/common.h  |  2 ++
 src/main.c    | 16 ++++++++++++++++
 src/pthread.c | 45 +++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 63 insertions(+)

diff --git a/src/common.h b/src/common.h
index 2ad0573..f0cc369 100644
--- a/src/common.h
+++ b/src/common.h
@@ -172,6 +172,8 @@ void monitor_begin_process_fcn(void *, int);
 void monitor_end_process_fcn(int);
 void monitor_end_library_fcn(void);
 void monitor_thread_shootdown(void);
+int  monitor_thread_disable_cancel(void);
+void monitor_thread_restore_cancel(int);
 int  monitor_shootdown_signal(void);
 int  monitor_sigwait_handler(int, siginfo_t *, void *);
 void monitor_remove_client_signals(sigset_t *, int);
diff --git a/src/main.c b/src/main.c
index 34f6708..b5cbc4f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -302,6 +302,9 @@ monitor_end_process_fcn(int how)
 {
     struct monitor_thread_node *tn = monitor_get_tn();
     long prev;
+    int old_state;
+
+    old_state = monitor_thread_disable_cancel();
 
     prev = compare_and_swap(&monitor_end_process_cookie, 0, 1);
     if (prev == 0) {
@@ -340,6 +343,7 @@ monitor_end_process_fcn(int how)
     }
 
     monitor_fini_process_done = 1;
+    monitor_thread_restore_cancel(old_state);
     MONITOR_DEBUG1("resume system exit\n");
 }
 
@@ -775,6 +779,18 @@ monitor_thread_release(void)
 }
 #endif
 
+int __attribute__ ((weak))
+monitor_thread_disable_cancel(void)
+{
+    return (-1);
+}
+
+void __attribute__ ((weak))
+monitor_thread_restore_cancel(int state)
+{
+    return;
+}
+
 void __attribute__ ((weak))
 monitor_thread_shootdown(void)
 {
diff --git a/src/pthread.c b/src/pthread.c
index 30feeef..31a467d 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -579,6 +579,35 @@ monitor_thread_release(void)
 }
 #endif
 
+/*
+ *  Called from main.c at the beginning and end of process exit, so
+ *  that the application can't cancel the thread in the middle of the
+ *  exit callbacks.
+ *
+ *  Returns: the thread's previous cancel state, or -1 if unchanged.
+ */
+int
+monitor_thread_disable_cancel(void)
+{
+    int old_state;
+
+    if (! monitor_has_used_threads)
+	return (-1);
+
+    if ((*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state) != 0)
+	return (-1);
+
+    return (old_state);
+}
+
+void
+monitor_thread_restore_cancel(int state)
+{
+    if (state >= 0) {
+	(*real_pthread_setcancelstate)(state, NULL);
+    }
+}
+
 /*
  *  Called from main.c at end process time for possible thread cleanup.
  *  Note: main doesn't know if application is threaded or not.
@@ -993,6 +1022,7 @@ static void
 monitor_pthread_cleanup_routine(void *arg)
 {
     struct monitor_thread_node *tn = arg;
+    int old_state;
 
     if (tn == NULL) {
 	MONITOR_WARN1("unable to deliver monitor_fini_thread callback: "
@@ -1004,6 +1034,12 @@ monitor_pthread_cleanup_routine(void *arg)
 		      "bad magic in thread node\n");
 	return;
     }
+
+    /*
+     * Don't let a pending cancel interrupt the fini-thread callback.
+     */
+    (*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
+
     if (monitor_claim_fini_thread(tn)) {
 	MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
 		      tn->tn_user_data, tn->tn_tid);
@@ -1021,6 +1057,7 @@ monitor_pthread_cleanup_routine(void *arg)
      * list, even if there was no callback.
      */
     monitor_unlink_thread_node(tn);
+    (*real_pthread_setcancelstate)(old_state, NULL);
 }
 
 /*
@@ -1032,10 +1069,17 @@ monitor_begin_thread(void *arg)
 {
     struct monitor_thread_node *tn = arg;
     void *ret;
+    int old_state;
 
     MONITOR_ASM_LABEL(monitor_thread_fence1);
     MONITOR_DEBUG1("\n");
 
+    /*
+     * Don't let the application cancel the thread until it's on the
+     * thread list and after the init-thread callback.
+     */
+    (*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
+
 #if 0
     /*
      * Wait for monitor_init_thread_support() to finish in the main
@@ -1076,6 +1120,7 @@ monitor_begin_thread(void *arg)
     tn->tn_user_data = monitor_init_thread(tn->tn_tid, tn->tn_user_data);
 
     tn->tn_appl_started = 1;
+    (*real_pthread_setcancelstate)(old_state, NULL);
     MONITOR_ASM_LABEL(monitor_thread_fence2);
     ret = (tn->tn_start_routine)(tn->tn_arg);
     MONITOR_ASM_LABEL(monitor_thread_fence3);
-- 
2.43.0


From fac56e6bad001731f249971b861604337bcbeae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:44 +0000
Subject: [PATCH 06/44] fix: reset the exit state and thread lock in the child
 after fork

A child forked while the parent was exiting, or while another thread held
the thread list lock, hung in its own exit or in pthread_create.  A child
forked from a thread unknown to monitor kept the parent's main thread
node, including its stack bottom.
---
 src/main.c    | 18 ++++++++++++++++--
 src/pthread.c | 23 +++++++++++++++++------
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/main.c b/src/main.c
index b5cbc4f..0e501f0 100644
--- a/src/main.c
+++ b/src/main.c
@@ -248,6 +248,20 @@ monitor_end_library_fcn(void)
     monitor_fini_library_called = 1;
 }
 
+/*
+ *  Reset the thread and process exit state in the child after fork().
+ *  The child gets its own exit sequence, even if the parent was in
+ *  the middle of process exit.
+ */
+static void
+monitor_reset_process(void)
+{
+    monitor_reset_thread_list(&monitor_main_tn);
+    monitor_main_tn.tn_exit_win = 0;
+    monitor_end_process_cookie = 0;
+    monitor_fini_process_done = 0;
+}
+
 /*
  *  Run the init process callback function on first entry to main(),
  *  fork(), pthread_create() or client entry.
@@ -265,7 +279,7 @@ monitor_begin_process_fcn(void *user_data, int is_fork)
     if (is_fork) {
 	/* Fork() always runs the init process callback.
 	 */
-	monitor_reset_thread_list(&monitor_main_tn);
+	monitor_reset_process();
 	monitor_main_tn.tn_user_data = user_data;
     }
     else if (val) {
@@ -473,7 +487,7 @@ monitor_real_fork(void)
     pid_t ret = (*real_fork)();
     if (ret == 0) {
 	/* child process */
-	monitor_reset_thread_list(&monitor_main_tn);
+	monitor_reset_process();
     }
     return ret;
 #else
diff --git a/src/pthread.c b/src/pthread.c
index 31a467d..d1f40eb 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -376,17 +376,28 @@ monitor_reset_thread_list(struct monitor_thread_node *main_tn)
      * The thread that fork()ed is now the main thread.
      */
     tn = monitor_get_tn();
-    if (tn == NULL) {
-	MONITOR_WARN1("tn should not be NULL here\n");
-    }
-    else if (tn != main_tn) {
+    if (tn != main_tn) {
 	memset(main_tn, 0, sizeof(struct monitor_thread_node));
 	main_tn->tn_magic = MONITOR_TN_MAGIC;
 	main_tn->tn_tid = 0;
-	main_tn->tn_user_data = tn->tn_user_data;
-	main_tn->tn_stack_bottom = tn->tn_stack_bottom;
 	main_tn->tn_is_main = 1;
+	if (tn != NULL) {
+	    main_tn->tn_user_data = tn->tn_user_data;
+	    main_tn->tn_stack_bottom = tn->tn_stack_bottom;
+	    main_tn->tn_ignore_threads = tn->tn_ignore_threads;
+	    main_tn->tn_block_shootdown = tn->tn_block_shootdown;
+	}
     }
+    /*
+     * The parent may have been in the middle of process exit, or
+     * another thread may have held the lock.
+     */
+    main_tn->tn_appl_started = 0;
+    main_tn->tn_fini_started = 0;
+    main_tn->tn_fini_done = 0;
+    monitor_in_exit_cleanup = 0;
+    monitor_fini_thread_done = 0;
+    spinlock_unlock(&monitor_thread_lock);
     /*
      * Free the thread list and the pthread key.  Technically, this
      * could leak memory, but only if the process spawns more than 150
-- 
2.43.0


From aa62deeb825b09db18bb77a69028d5e4f1e37da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:45 +0000
Subject: [PATCH 07/44] fix: end the process when a forked child's thread
 function ends

In the child of a fork from a non-main thread, the thread's cleanup
routine delivered fini-thread on the parent's stale thread node and the
child process ended without fini-process.
---
 src/pthread.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pthread.c b/src/pthread.c
index d1f40eb..eb6fd71 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -1032,9 +1032,20 @@ monitor_get_new_thread_info(struct monitor_thread_info *mti)
 static void
 monitor_pthread_cleanup_routine(void *arg)
 {
-    struct monitor_thread_node *tn = arg;
+    struct monitor_thread_node *tn;
     int old_state;
 
+    /*
+     * If this thread has forked, then it's the main thread in the
+     * child process and the end of main is the end of the process.
+     */
+    tn = monitor_get_tn();
+    if (tn != NULL && tn->tn_is_main) {
+	monitor_end_process_fcn(MONITOR_EXIT_NORMAL);
+	return;
+    }
+
+    tn = arg;
     if (tn == NULL) {
 	MONITOR_WARN1("unable to deliver monitor_fini_thread callback: "
 		      "missing cleanup handler argument\n");
-- 
2.43.0


From 023f541a38c9b11530d268fc801b7733fc6f83e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:46 +0000
Subject: [PATCH 08/44] fix: end the thread info lifetime on every return from
 pthread_create

After creating an ignored thread, monitor_get_new_thread_info() returned
stack garbage outside pthread_create.
---
 src/pthread.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pthread.c b/src/pthread.c
index eb6fd71..fcaee84 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -1216,6 +1216,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
 {
     struct monitor_thread_node *tn, *my_tn;
     struct monitor_thread_info mti;
+    void *old_thread_info = NULL;
     pthread_attr_t default_attr;
     int ret, restore, destroy;
     size_t old_size;
@@ -1244,6 +1245,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
 
     my_tn = monitor_get_tn();
     if (my_tn != NULL) {
+	old_thread_info = my_tn->tn_thread_info;
 	my_tn->tn_thread_info = &mti;
     }
 
@@ -1260,6 +1262,9 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
      */
     if (my_tn == NULL || my_tn->tn_ignore_threads) {
 	MONITOR_DEBUG("launching ignored thread: start = %p\n", start_routine);
+	if (my_tn != NULL) {
+	    my_tn->tn_thread_info = old_thread_info;
+	}
 	return (*real_pthread_create)(thread, attr, start_routine, arg);
     }
 
@@ -1287,6 +1292,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
      */
     if (user_data == MONITOR_IGNORE_NEW_THREAD) {
 	MONITOR_DEBUG("launching ignored thread: start = %p\n", start_routine);
+	my_tn->tn_thread_info = old_thread_info;
 	return (*real_pthread_create)(thread, attr, start_routine, arg);
     }
 
@@ -1326,7 +1332,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
 
     /* The thread info struct's lifetime ends here. */
     if (my_tn != NULL) {
-        my_tn->tn_thread_info = NULL;
+        my_tn->tn_thread_info = old_thread_info;
     }
 
     return (ret);
-- 
2.43.0


From 20e328c40d49d66cc1c10a569a9e303437222d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:47 +0000
Subject: [PATCH 09/44] fix: pass the pre-create data to
 monitor_thread_post_create

The new thread may already have replaced tn_user_data with its
init-thread data, or ended and freed its thread node.
---
 src/pthread.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pthread.c b/src/pthread.c
index fcaee84..bf48725 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -1328,7 +1328,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
 
     MONITOR_DEBUG("calling monitor_thread_post_create(start_routine = %p) ...\n",
 		  start_routine);
-    monitor_thread_post_create(tn->tn_user_data);
+    monitor_thread_post_create(user_data);
 
     /* The thread info struct's lifetime ends here. */
     if (my_tn != NULL) {
-- 
2.43.0


From ba4871361eb258f4c1871d0f7ffe967305f5c96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:48 +0000
Subject: [PATCH 10/44] fix: free the thread node when pthread_create fails

---
 src/pthread.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pthread.c b/src/pthread.c
index bf48725..2fb4889 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -454,6 +454,20 @@ monitor_make_thread_node(void)
     return (tn);
 }
 
+/*
+ *  Return an unused thread node to the free list.
+ */
+static void
+monitor_free_thread_node(struct monitor_thread_node *tn)
+{
+    sigset_t lock_set;
+
+    MONITOR_THREAD_LOCK;
+    memset(tn, 0, sizeof(struct monitor_thread_node));
+    LIST_INSERT_HEAD(&monitor_free_list, tn, tn_links);
+    MONITOR_THREAD_UNLOCK;
+}
+
 /*
  *  Returns: 0 on success, or 1 if at exit cleanup and thus we don't
  *  allow any new threads.
@@ -1324,6 +1338,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
     if (ret != 0) {
 	MONITOR_DEBUG("real_pthread_create failed: start_routine = %p, ret = %d\n",
 		      start_routine, ret);
+	monitor_free_thread_node(tn);
     }
 
     MONITOR_DEBUG("calling monitor_thread_post_create(start_routine = %p) ...\n",
-- 
2.43.0


From 0d5d65acdd81b9ef3300041fc5f35e64fb0f929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:49 +0000
Subject: [PATCH 11/44] fix: detach an ended thread from its thread node before
 freeing it

Thread-specific data destructors run after monitor's cleanup routine, and
could see the number, data and stack of the next thread to use the node.
---
 src/pthread.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pthread.c b/src/pthread.c
index 2fb4889..c95f5e1 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -504,6 +504,11 @@ monitor_unlink_thread_node(struct monitor_thread_node *tn)
 	tn->tn_fini_started = 1;
 	tn->tn_fini_done = 1;
     } else {
+	/*
+	 * The thread may still run thread-specific data destructors
+	 * and must not find the node after it's reused.
+	 */
+	(*real_pthread_setspecific)(monitor_pthread_key, NULL);
 	LIST_REMOVE(tn, tn_links);
 	memset(tn, 0, sizeof(struct monitor_thread_node));
 	LIST_INSERT_HEAD(&monitor_free_list, tn, tn_links);
-- 
2.43.0


From 73aa352e64ec313eb544f01217a7bbe5e770a539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:23 +0000
Subject: [PATCH 12/44] fix: let process exit shoot down a thread that waits
 inside a signal handler

A thread that takes a fatal signal while another thread ends the process
waits with the shootdown signal blocked, so it lost its fini-thread
callback after a 10 second timeout; if the signal interrupted its
fini-thread callback, then both threads waited forever.
---
 src/common.h  |  1 +
 src/main.c    |  7 +++++++
 src/pthread.c | 24 ++++++++++++++++++++++++
 3 files changed, 32 insertions(+)

diff --git a/src/common.h b/src/common.h
index f0cc369..a0d78f1 100644
--- a/src/common.h
+++ b/src/common.h
@@ -172,6 +172,7 @@ void monitor_begin_process_fcn(void *, int);
 void monitor_end_process_fcn(int);
 void monitor_end_library_fcn(void);
 void monitor_thread_shootdown(void);
+void monitor_thread_exit_loser(void);
 int  monitor_thread_disable_cancel(void);
 void monitor_thread_restore_cancel(int);
 int  monitor_shootdown_signal(void);
diff --git a/src/main.c b/src/main.c
index 0e501f0..ed54a8f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -350,6 +350,7 @@ monitor_end_process_fcn(int how)
 	 * finished.
 	 */
 	MONITOR_DEBUG("delay second thread trying to exit (how = %d)\n", how);
+	monitor_thread_exit_loser();
 	while (! monitor_fini_process_done) {
 	    usleep(MONITOR_POLL_USLEEP_TIME);
 	}
@@ -799,6 +800,12 @@ monitor_thread_disable_cancel(void)
     return (-1);
 }
 
+void __attribute__ ((weak))
+monitor_thread_exit_loser(void)
+{
+    return;
+}
+
 void __attribute__ ((weak))
 monitor_thread_restore_cancel(int state)
 {
diff --git a/src/pthread.c b/src/pthread.c
index c95f5e1..c3ebb30 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -638,6 +638,30 @@ monitor_thread_restore_cancel(int state)
     }
 }
 
+/*
+ *  Called from main.c in a thread that has lost the race to end the
+ *  process, before it waits for the winner.  The thread may be inside
+ *  a signal handler with the shootdown signal blocked, and it won't
+ *  return to its own fini-thread callback, if that was interrupted.
+ */
+void
+monitor_thread_exit_loser(void)
+{
+    struct monitor_thread_node *tn;
+    sigset_t set;
+
+    if (! monitor_has_used_threads)
+	return;
+
+    tn = monitor_get_tn();
+    if (tn != NULL && tn->tn_fini_started) {
+	tn->tn_fini_done = 1;
+    }
+    sigemptyset(&set);
+    sigaddset(&set, monitor_shootdown_signal());
+    (*real_pthread_sigmask)(SIG_UNBLOCK, &set, NULL);
+}
+
 /*
  *  Called from main.c at end process time for possible thread cleanup.
  *  Note: main doesn't know if application is threaded or not.
-- 
2.43.0


From 42189e51fa40254ace4c7c4068b5266548adcd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:24 +0000
Subject: [PATCH 13/44] fix: don't return a repeated shootdown signal from
 sigwait

Thread shootdown sends the signal until the thread has started its
callback, and the extra signals were returned to the application.
---
 src/pthread.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index c3ebb30..f04bddf 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -1459,18 +1459,17 @@ monitor_sigwait_helper(const sigset_t *set, int sig, int sigwait_errno,
      * End of process shootdown signal.
      */
     tn = monitor_get_tn();
-    if (sig == shootdown_signal
-	&& monitor_in_exit_cleanup
-	&& tn != NULL
-	&& monitor_claim_fini_thread(tn))
-    {
+    if (sig == shootdown_signal && monitor_in_exit_cleanup && tn != NULL) {
 	(*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
-	MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
-		      tn->tn_user_data, tn->tn_tid);
-	monitor_fini_thread(tn->tn_user_data);
-	tn->tn_fini_done = 1;
+	if (monitor_claim_fini_thread(tn)) {
+	    MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
+			  tn->tn_user_data, tn->tn_tid);
+	    monitor_fini_thread(tn->tn_user_data);
+	    tn->tn_fini_done = 1;
+	}
 	(*real_pthread_setcancelstate)(old_state, NULL);
 
+	/* Shootdown may send the signal more than once. */
 	return 1;
     }
 
-- 
2.43.0


From f3d5bd30c17e32352fbd7a737c576da4eee4b2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:25 +0000
Subject: [PATCH 14/44] fix: subtract the elapsed time when restarting
 sigtimedwait

A stream of client signals could extend the timeout forever.
---
 src/pthread.c | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index f04bddf..8744b59 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -1556,6 +1556,7 @@ MONITOR_WRAP_NAME(sigtimedwait)(const sigset_t *set, siginfo_t *info,
 {
     char buf[MONITOR_SIG_BUF_SIZE];
     siginfo_t my_info, *info_ptr;
+    struct timespec start, now, remain;
     ucontext_t context;
     int ret, save_errno;
 
@@ -1565,17 +1566,37 @@ MONITOR_WRAP_NAME(sigtimedwait)(const sigset_t *set, siginfo_t *info,
 	MONITOR_DEBUG("waiting on:%s\n", buf);
     }
 
-    /*
-     * FIXME: if we restart sigtimedwait(), then we should subtract
-     * the elapsed time from the timeout.
-     */
     getcontext(&context);
     info_ptr = (info != NULL) ? info : &my_info;
-    do {
-	ret = real_sigtimedwait(set, info_ptr, timeout);
+    clock_gettime(CLOCK_MONOTONIC, &start);
+    ret = real_sigtimedwait(set, info_ptr, timeout);
+    save_errno = errno;
+
+    while (monitor_sigwait_helper(set, ret, save_errno, info_ptr, &context)) {
+	/*
+	 * If we restart sigtimedwait(), then subtract the elapsed
+	 * time from the timeout.
+	 */
+	if (timeout != NULL) {
+	    clock_gettime(CLOCK_MONOTONIC, &now);
+	    remain.tv_sec = timeout->tv_sec - (now.tv_sec - start.tv_sec);
+	    remain.tv_nsec = timeout->tv_nsec - (now.tv_nsec - start.tv_nsec);
+	    if (remain.tv_nsec < 0) {
+		remain.tv_sec -= 1;
+		remain.tv_nsec += 1000000000L;
+	    } else if (remain.tv_nsec >= 1000000000L) {
+		remain.tv_sec += 1;
+		remain.tv_nsec -= 1000000000L;
+	    }
+	    if (remain.tv_sec < 0) {
+		remain.tv_sec = 0;
+		remain.tv_nsec = 0;
+	    }
+	}
+	ret = real_sigtimedwait(set, info_ptr,
+				(timeout != NULL) ? &remain : NULL);
 	save_errno = errno;
     }
-    while (monitor_sigwait_helper(set, ret, save_errno, info_ptr, &context));
 
     errno = save_errno;
     return ret;
-- 
2.43.0


From d6fc63aab002f637d1629cb16dca0635580d441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:27 +0000
Subject: [PATCH 15/44] fix: don't broadcast a signal to the main thread twice

---
 src/pthread.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pthread.c b/src/pthread.c
index 8744b59..8c696ac 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -950,7 +950,8 @@ monitor_broadcast_signal(int sig)
 	 tn != NULL;
 	 tn = LIST_NEXT(tn, tn_links)) {
 
-	if (!PTHREAD_EQUAL(self, tn->tn_self) &&
+	/* Main may be on the list at process exit, but is sent below. */
+	if (!PTHREAD_EQUAL(self, tn->tn_self) && !tn->tn_is_main &&
 	    tn->tn_appl_started && !tn->tn_fini_started) {
 	    (*real_pthread_kill)(tn->tn_self, sig);
 	}
-- 
2.43.0


From 9c9e17e3565150784275a5ae647e0f5017a972f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:01 +0000
Subject: [PATCH 16/44] fix: search PATH the same way as the real execvp

An unset PATH crashed the program, a long path element overran the
buffer, and an empty element was not taken as the current directory.
---
 src/fork.c | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/fork.c b/src/fork.c
index a8a7260..d5ba2ee 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -251,11 +251,13 @@ monitor_copy_va_args(char ***argv, char ***envp,
  */
 #define COLON  ":"
 #define SLASH  '/'
+#define DEFAULT_PATH  "/bin:/usr/bin"
 static int
 monitor_is_executable(const char *file)
 {
-    char buf[PATH_MAX], *path;
-    int  file_len, path_len;
+    char buf[PATH_MAX];
+    const char *path;
+    int  file_len, path_len, pos;
 
     if (file == NULL) {
 	MONITOR_DEBUG1("attempt to exec NULL path\n");
@@ -268,23 +270,38 @@ monitor_is_executable(const char *file)
     if (strchr(file, SLASH) != NULL)
 	return (access(file, X_OK) == 0);
 
+    /*
+     * An empty path element means the current directory, same as the
+     * real execvp().
+     */
     file_len = strlen(file);
+    if (file_len == 0)
+	return (0);
     path = getenv("PATH");
-    path += strspn(path, COLON);
-    while (*path != 0) {
+    if (path == NULL)
+	path = DEFAULT_PATH;
+    for (;;) {
 	path_len = strcspn(path, COLON);
 	if (path_len + file_len + 2 > PATH_MAX) {
 	    MONITOR_DEBUG("path length %d exceeds PATH_MAX %d\n",
 			  path_len + file_len + 2, PATH_MAX);
 	}
-	memcpy(buf, path, path_len);
-	buf[path_len] = SLASH;
-	memcpy(&buf[path_len + 1], file, file_len);
-	buf[path_len + 1 + file_len] = 0;
-	if (access(buf, X_OK) == 0)
-	    return (1);
+	else {
+	    pos = 0;
+	    if (path_len > 0) {
+		memcpy(buf, path, path_len);
+		buf[path_len] = SLASH;
+		pos = path_len + 1;
+	    }
+	    memcpy(&buf[pos], file, file_len);
+	    buf[pos + file_len] = 0;
+	    if (access(buf, X_OK) == 0)
+		return (1);
+	}
 	path += path_len;
-	path += strspn(path, COLON);
+	if (*path == 0)
+	    break;
+	path++;
     }
 
     return (0);
-- 
2.43.0


From 51740d532b231896cc1c49cd3963aa70c61025cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:02 +0000
Subject: [PATCH 17/44] fix: only omit the LD_PRELOAD variable from the copied
 environment

Every variable that had LD_PRELOAD anywhere in its name or value was
dropped.
---
 src/fork.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fork.c b/src/fork.c
index d5ba2ee..ca24be1 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -74,6 +74,7 @@ extern char **environ;
  */
 
 #define NO_SYSTEM_OVERRIDE  "MONITOR_NO_SYSTEM_OVERRIDE"
+#define LD_PRELOAD  "LD_PRELOAD="
 
 #define MONITOR_INIT_ARGV_SIZE  64
 #define MONITOR_INIT_ENVIRON_SIZE  250
@@ -188,7 +189,7 @@ monitor_copy_environ(char *const oldenv[])
     /* Copy old environ and omit LD_PRELOAD. */
     n = 0;
     for (k = 0; oldenv[k] != NULL; k++) {
-	if (strstr(oldenv[k], "LD_PRELOAD") == NULL) {
+	if (strncmp(oldenv[k], LD_PRELOAD, strlen(LD_PRELOAD)) != 0) {
 	    newenv[n] = oldenv[k];
 	    n++;
 	}
-- 
2.43.0


From 30ac4cea8819b963ea555a3761d3aa84d2859621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:03 +0000
Subject: [PATCH 18/44] fix: restore SIGINT and SIGQUIT after overlapping calls
 to system

With two threads in system(), the second saved the first one's ignore
action, so the signals stayed ignored afterwards and were ignored in the
command.
---
 src/fork.c | 64 ++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 55 insertions(+), 9 deletions(-)

diff --git a/src/fork.c b/src/fork.c
index ca24be1..a830ce8 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -64,6 +64,7 @@
 
 #include "common.h"
 #include "monitor.h"
+#include "spinlock.h"
 
 extern char **environ;
 
@@ -113,6 +114,16 @@ static char *newenv_array[MONITOR_INIT_ENVIRON_SIZE];
 
 static int override_system = 1;
 
+/*
+ *  Several threads may be inside system() at the same time, so the
+ *  first one in saves the SIGINT and SIGQUIT actions and the last one
+ *  out restores them.  Hold the lock with signals blocked.
+ */
+static spinlock_t system_lock = SPINLOCK_UNLOCKED;
+static int system_count = 0;
+static struct sigaction system_old_int;
+static struct sigaction system_old_quit;
+
 /*
  *----------------------------------------------------------------------
  *  INTERNAL HELPER FUNCTIONS
@@ -344,6 +355,8 @@ monitor_fork(void)
     else {
 	/* Child process. */
 	MONITOR_DEBUG("application forked, parent = %d\n", (int)getppid());
+	system_count = 0;
+	spinlock_unlock(&system_lock);
 	monitor_begin_process_fcn(user_data, TRUE);
     }
 
@@ -537,11 +550,48 @@ MONITOR_WRAP_NAME(execve)(const char *path, char *const argv[],
  *  or not the child process.  Note: the libc system() does a direct
  *  syscall for fork, thus bypassing our override.
  */
+static void
+monitor_system_ignore_signals(void)
+{
+    struct sigaction ign_act;
+    sigset_t full_set, old_set;
+
+    memset(&ign_act, 0, sizeof(struct sigaction));
+    ign_act.sa_handler = SIG_IGN;
+    sigfillset(&full_set);
+
+    (*real_sigprocmask)(SIG_SETMASK, &full_set, &old_set);
+    spinlock_lock(&system_lock);
+    if (system_count == 0) {
+	(*real_sigaction)(SIGINT, &ign_act, &system_old_int);
+	(*real_sigaction)(SIGQUIT, &ign_act, &system_old_quit);
+    }
+    system_count++;
+    spinlock_unlock(&system_lock);
+    (*real_sigprocmask)(SIG_SETMASK, &old_set, NULL);
+}
+
+static void
+monitor_system_restore_signals(void)
+{
+    sigset_t full_set, old_set;
+
+    sigfillset(&full_set);
+    (*real_sigprocmask)(SIG_SETMASK, &full_set, &old_set);
+    spinlock_lock(&system_lock);
+    system_count--;
+    if (system_count == 0) {
+	(*real_sigaction)(SIGINT, &system_old_int, NULL);
+	(*real_sigaction)(SIGQUIT, &system_old_quit, NULL);
+    }
+    spinlock_unlock(&system_lock);
+    (*real_sigprocmask)(SIG_SETMASK, &old_set, NULL);
+}
+
 #define SHELL  "/bin/sh"
 static int
 monitor_system(const char *command, int callback)
 {
-    struct sigaction ign_act, old_int, old_quit;
     sigset_t sigchld_set, old_set;
     void *user_data = NULL;
     char *arglist[4];
@@ -564,8 +614,6 @@ monitor_system(const char *command, int callback)
     /*
      * Ignore SIGINT and SIGQUIT, and block SIGCHLD.
      */
-    memset(&ign_act, 0, sizeof(struct sigaction));
-    ign_act.sa_handler = SIG_IGN;
     sigemptyset(&sigchld_set);
     sigaddset(&sigchld_set, SIGCHLD);
 
@@ -573,8 +621,7 @@ monitor_system(const char *command, int callback)
 	MONITOR_DEBUG("(%s) calling monitor_pre_fork() ...\n", who);
 	user_data = monitor_pre_fork();
     }
-    (*real_sigaction)(SIGINT, &ign_act, &old_int);
-    (*real_sigaction)(SIGQUIT, &ign_act, &old_quit);
+    monitor_system_ignore_signals();
     (*real_sigprocmask)(SIG_BLOCK, &sigchld_set, &old_set);
 
     pid = (*real_fork)();
@@ -587,8 +634,8 @@ monitor_system(const char *command, int callback)
 	/* Child process. */
 	MONITOR_DEBUG("(%s) child process about to exec, parent = %d\n",
 		      who, getppid());
-	(*real_sigaction)(SIGINT, &old_int, NULL);
-	(*real_sigaction)(SIGQUIT, &old_quit, NULL);
+	(*real_sigaction)(SIGINT, &system_old_int, NULL);
+	(*real_sigaction)(SIGQUIT, &system_old_quit, NULL);
 	(*real_sigprocmask)(SIG_SETMASK, &old_set, NULL);
 	arglist[0] = SHELL;
 	arglist[1] = "-c";
@@ -607,8 +654,7 @@ monitor_system(const char *command, int callback)
 	    }
 	}
     }
-    (*real_sigaction)(SIGINT, &old_int, NULL);
-    (*real_sigaction)(SIGQUIT, &old_quit, NULL);
+    monitor_system_restore_signals();
     (*real_sigprocmask)(SIG_SETMASK, &old_set, NULL);
 
     if (callback) {
-- 
2.43.0


From 7ac17dfb25f27c39e933fcd7621bdecd0dc0c81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:33 +0000
Subject: [PATCH 19/44] fix: end the process for a segv signal sent with kill

Returning from the handler only repeats the signal if the kernel raised
it for a fault; a SIGSEGV, SIGBUS or SIGILL from kill() or raise() was
swallowed after the exit callbacks and the program kept running.
---
 src/signal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/signal.c b/src/signal.c
index cfebacd..afa170b 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -257,8 +257,8 @@ monitor_signal_handler(int sig, siginfo_t *info, void *context)
 	sigemptyset(&action.sa_mask);
 	(*real_sigaction)(sig, &action, NULL);
 	(*real_sigprocmask)(SIG_SETMASK, &action.sa_mask, NULL);
-	if (mse->mse_noraise) {
-	    /* For segv, etc, we just return. */
+	if (mse->mse_noraise && info->si_code > 0) {
+	    /* For segv, etc, from the kernel, we just return. */
 	    return;
 	}
 	raise(sig);
-- 
2.43.0


From 0032c1d1a7a368ef9c1e0935c591d271870a7ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:34 +0000
Subject: [PATCH 20/44] fix: reject a shootdown signal that libc reserves for
 itself

MONITOR_SHOOTDOWN_SIGNAL=32 was accepted and then process exit ended with
an internal error.
---
 src/signal.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/signal.c b/src/signal.c
index afa170b..af72cd9 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -439,6 +439,7 @@ static void
 monitor_choose_shootdown_early(void)
 {
     struct monitor_signal_entry *mse;
+    struct sigaction cur_act;
     char *shootdown_str;
     int i, k, sig;
 
@@ -480,13 +481,16 @@ monitor_choose_shootdown_early(void)
     /*
      * Allow MONITOR_SHOOTDOWN_SIGNAL to set the shootdown signal.
      * If set, this always has first priority.
+     *
+     * Note: mse_invalid is not yet set here, so ask the system if the
+     * signal is valid (libc reserves some signals for itself).
      */
     shootdown_str = getenv("MONITOR_SHOOTDOWN_SIGNAL");
     if (shootdown_str != NULL) {
 	if (sscanf(shootdown_str, "%d", &sig) == 1
 	    && sig > 0 && sig < MONITOR_NSIG
 	    && !monitor_signal_array[sig].mse_avoid
-	    && !monitor_signal_array[sig].mse_invalid
+	    && (*real_sigaction)(sig, NULL, &cur_act) == 0
 	    && !monitor_signal_array[sig].mse_stop)
 	{
 	    shootdown_signal = sig;
@@ -501,7 +505,7 @@ monitor_choose_shootdown_early(void)
     sig = MONITOR_CONFIG_SHOOTDOWN_SIGNAL;
     if (sig > 0 && sig < MONITOR_NSIG
 	&& !monitor_signal_array[sig].mse_avoid
-	&& !monitor_signal_array[sig].mse_invalid
+	&& (*real_sigaction)(sig, NULL, &cur_act) == 0
 	&& !monitor_signal_array[sig].mse_stop)
     {
 	shootdown_signal = sig;
-- 
2.43.0


From 017646b7fd3adfd57342bf1337fadbbf7c707dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:17 +0000
Subject: [PATCH 21/44] fix: change and read a signal's action atomically

The handler could see a new handler with the old flags (and call it with
the wrong arguments), and two threads in sigaction() could leave the
kernel with one thread's flags and the application with the other's.
---
 src/common.h |  1 +
 src/main.c   |  7 +++++
 src/signal.c | 75 +++++++++++++++++++++++++++++++++++++++++++---------
 3 files changed, 70 insertions(+), 13 deletions(-)

diff --git a/src/common.h b/src/common.h
index a0d78f1..2c323b5 100644
--- a/src/common.h
+++ b/src/common.h
@@ -168,6 +168,7 @@ extern int monitor_debug;
 void monitor_early_init(void);
 void monitor_fork_init(void);
 void monitor_signal_init(void);
+void monitor_reset_signal_lock(void);
 void monitor_begin_process_fcn(void *, int);
 void monitor_end_process_fcn(int);
 void monitor_end_library_fcn(void);
diff --git a/src/main.c b/src/main.c
index ed54a8f..696c7ee 100644
--- a/src/main.c
+++ b/src/main.c
@@ -257,6 +257,7 @@ static void
 monitor_reset_process(void)
 {
     monitor_reset_thread_list(&monitor_main_tn);
+    monitor_reset_signal_lock();
     monitor_main_tn.tn_exit_win = 0;
     monitor_end_process_cookie = 0;
     monitor_fini_process_done = 0;
@@ -772,6 +773,12 @@ monitor_unwind_thread_bottom_frame(void *addr)
 /*
  *  Internal monitor functions.
  */
+void __attribute__ ((weak))
+monitor_reset_signal_lock(void)
+{
+    return;
+}
+
 struct monitor_thread_node * __attribute__ ((weak))
 monitor_get_tn(void)
 {
diff --git a/src/signal.c b/src/signal.c
index af72cd9..f8430c0 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -141,10 +141,12 @@ static int monitor_extra_list[] = {
     SIGUSR2, SIGUSR1, SIGPWR, SIGURG, SIGPIPE, -1
 };
 
-/*  Locks for the monitor_signal_array[].
+/*  Locks for the actions in monitor_signal_array[].  We also take the
+ *  lock in the signal handler, so we always hold it with all signals
+ *  blocked.
  */
-#define MONITOR_SIGNAL_LOCK    spinlock_lock(&monitor_signal_lock)
-#define MONITOR_SIGNAL_UNLOCK  spinlock_unlock(&monitor_signal_lock)
+#define MONITOR_SIGNAL_LOCK    monitor_signal_lock_acquire(&lock_set)
+#define MONITOR_SIGNAL_UNLOCK  monitor_signal_lock_release(&lock_set)
 
 static spinlock_t monitor_signal_lock = SPINLOCK_UNLOCKED;
 
@@ -160,6 +162,33 @@ static inline int monitor_adjust_samask(sigset_t *);
  *----------------------------------------------------------------------
  */
 
+static inline void
+monitor_signal_lock_acquire(sigset_t *set)
+{
+    sigset_t full_set;
+
+    sigfillset(&full_set);
+    (*real_sigprocmask)(SIG_SETMASK, &full_set, set);
+    spinlock_lock(&monitor_signal_lock);
+}
+
+static inline void
+monitor_signal_lock_release(sigset_t *set)
+{
+    spinlock_unlock(&monitor_signal_lock);
+    (*real_sigprocmask)(SIG_SETMASK, set, NULL);
+}
+
+/*
+ *  Reset the lock in the child after fork(), in case another thread
+ *  in the parent held it.
+ */
+void
+monitor_reset_signal_lock(void)
+{
+    spinlock_unlock(&monitor_signal_lock);
+}
+
 /*
  *  Offer a synchronous signal from sigwait() to the client.
  *
@@ -197,7 +226,8 @@ static void
 monitor_signal_handler(int sig, siginfo_t *info, void *context)
 {
     struct monitor_signal_entry *mse;
-    struct sigaction action, *sa;
+    struct sigaction action, appl_act, *sa;
+    sigset_t lock_set;
     int ret;
 
     if (sig <= 0 || sig >= MONITOR_NSIG ||
@@ -223,9 +253,14 @@ monitor_signal_handler(int sig, siginfo_t *info, void *context)
 
     /*
      * Apply the applicaton's action: ignore, default or handler.
+     * Another thread may be changing the action.
      */
-    sa = &mse->mse_appl_act;
-    if (sa == NULL || sa->sa_handler == SIG_IGN) {
+    MONITOR_SIGNAL_LOCK;
+    appl_act = mse->mse_appl_act;
+    MONITOR_SIGNAL_UNLOCK;
+
+    sa = &appl_act;
+    if (sa->sa_handler == SIG_IGN) {
 	/*
 	 * Ignore the signal.
 	 */
@@ -752,6 +787,8 @@ monitor_sigaction(int sig, monitor_sighandler_t *handler,
 		  int flags, struct sigaction *act)
 {
     struct monitor_signal_entry *mse;
+    struct sigaction new_act;
+    sigset_t lock_set;
 
     monitor_signal_init();
     if (sig <= 0 || sig >= MONITOR_NSIG ||
@@ -767,10 +804,13 @@ monitor_sigaction(int sig, monitor_sighandler_t *handler,
     mse->mse_client_handler = handler;
     mse->mse_client_flags = flags;
     if (act != NULL) {
-	mse->mse_kern_act.sa_flags = monitor_adjust_saflags(act->sa_flags);
-	mse->mse_kern_act.sa_mask = act->sa_mask;
+	new_act = *act;
+	MONITOR_SIGNAL_LOCK;
+	mse->mse_kern_act.sa_flags = monitor_adjust_saflags(new_act.sa_flags);
+	mse->mse_kern_act.sa_mask = new_act.sa_mask;
 	monitor_adjust_samask(&mse->mse_kern_act.sa_mask);
 	(*real_sigaction)(sig, &mse->mse_kern_act, NULL);
+	MONITOR_SIGNAL_UNLOCK;
     }
 
     return (0);
@@ -815,6 +855,8 @@ monitor_appl_sigaction(int sig, const struct sigaction *act,
 		       struct sigaction *oldact)
 {
     struct monitor_signal_entry *mse;
+    struct sigaction new_act, prev_act;
+    sigset_t lock_set;
     char *action;
 
     monitor_signal_init();
@@ -846,21 +888,28 @@ monitor_appl_sigaction(int sig, const struct sigaction *act,
     }
     MONITOR_DEBUG("application sigaction: %d (%s)\n", sig, action);
 
-    if (oldact != NULL) {
-	*oldact = mse->mse_appl_act;
+    if (act != NULL) {
+	new_act = *act;
     }
+    MONITOR_SIGNAL_LOCK;
+    prev_act = mse->mse_appl_act;
     if (act != NULL) {
 	/*
 	 * Use the application's flags and mask, adjusted for
 	 * monitor's needs.
 	 */
-	mse->mse_appl_act = *act;
-	mse->mse_kern_act.sa_flags = monitor_adjust_saflags(act->sa_flags);
-	mse->mse_kern_act.sa_mask = act->sa_mask;
+	mse->mse_appl_act = new_act;
+	mse->mse_kern_act.sa_flags = monitor_adjust_saflags(new_act.sa_flags);
+	mse->mse_kern_act.sa_mask = new_act.sa_mask;
 	monitor_remove_client_signals(&mse->mse_kern_act.sa_mask, SIG_BLOCK);
 	monitor_adjust_samask(&mse->mse_kern_act.sa_mask);
 	(*real_sigaction)(sig, &mse->mse_kern_act, NULL);
     }
+    MONITOR_SIGNAL_UNLOCK;
+
+    if (oldact != NULL) {
+	*oldact = prev_act;
+    }
 
     return (0);
 }
-- 
2.43.0


From 1180318b06ccf51cb61661f8d03411023bd8109a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:57 +0000
Subject: [PATCH 22/44] fix: keep the application's ignored signals across exec

Monitor catches every signal, so the kernel reset the signals that the
application ignores to their default action in the new program (nohup
had no effect when monitored).
---
 src/common.h |  2 ++
 src/fork.c   | 30 ++++++++++++++++++++++++++----
 src/main.c   | 12 ++++++++++++
 src/signal.c | 49 +++++++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 89 insertions(+), 4 deletions(-)

diff --git a/src/common.h b/src/common.h
index 2c323b5..dc4ac34 100644
--- a/src/common.h
+++ b/src/common.h
@@ -168,6 +168,8 @@ extern int monitor_debug;
 void monitor_early_init(void);
 void monitor_fork_init(void);
 void monitor_signal_init(void);
+void monitor_signal_pre_exec(void);
+void monitor_signal_post_exec(void);
 void monitor_reset_signal_lock(void);
 void monitor_begin_process_fcn(void *, int);
 void monitor_end_process_fcn(int);
diff --git a/src/fork.c b/src/fork.c
index a830ce8..dc8c9c5 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -386,7 +386,7 @@ MONITOR_WRAP_NAME(vfork)(void)
 static int
 monitor_execv(const char *path, char *const argv[])
 {
-    int ret, is_exec;
+    int ret, is_exec, save_errno;
 
     monitor_fork_init();
     is_exec = access(path, X_OK) == 0;
@@ -398,13 +398,17 @@ monitor_execv(const char *path, char *const argv[])
 #ifdef MONITOR_DYNAMIC
 	monitor_end_library_fcn();
 #endif
+	monitor_signal_pre_exec();
     }
     ret = (*real_execv)(path, argv);
 
     /* We only get here if real_execv fails. */
     if (is_exec) {
+	save_errno = errno;
+	monitor_signal_post_exec();
 	MONITOR_WARN("unexpected execv failure on pid: %d\n",
 		     (int)getpid());
+	errno = save_errno;
     }
     return (ret);
 }
@@ -415,7 +419,7 @@ monitor_execv(const char *path, char *const argv[])
 static int
 monitor_execvp(const char *file, char *const argv[])
 {
-    int ret, is_exec;
+    int ret, is_exec, save_errno;
 
     monitor_fork_init();
     is_exec = monitor_is_executable(file);
@@ -427,13 +431,17 @@ monitor_execvp(const char *file, char *const argv[])
 #ifdef MONITOR_DYNAMIC
 	monitor_end_library_fcn();
 #endif
+	monitor_signal_pre_exec();
     }
     ret = (*real_execvp)(file, argv);
 
     /* We only get here if real_execvp fails. */
     if (is_exec) {
+	save_errno = errno;
+	monitor_signal_post_exec();
 	MONITOR_WARN("unexpected execvp failure on pid: %d\n",
 		     (int)getpid());
+	errno = save_errno;
     }
     return (ret);
 }
@@ -444,7 +452,7 @@ monitor_execvp(const char *file, char *const argv[])
 static int
 monitor_execve(const char *path, char *const argv[], char *const envp[])
 {
-    int ret, is_exec;
+    int ret, is_exec, save_errno;
 
     monitor_fork_init();
     is_exec = access(path, X_OK) == 0;
@@ -456,13 +464,17 @@ monitor_execve(const char *path, char *const argv[], char *const envp[])
 #ifdef MONITOR_DYNAMIC
 	monitor_end_library_fcn();
 #endif
+	monitor_signal_pre_exec();
     }
     ret = (*real_execve)(path, argv, envp);
 
     /* We only get here if real_execve fails. */
     if (is_exec) {
+	save_errno = errno;
+	monitor_signal_post_exec();
 	MONITOR_WARN("unexpected execve failure on pid: %d\n",
 		     (int)getpid());
+	errno = save_errno;
     }
     return (ret);
 }
@@ -636,6 +648,8 @@ monitor_system(const char *command, int callback)
 		      who, getppid());
 	(*real_sigaction)(SIGINT, &system_old_int, NULL);
 	(*real_sigaction)(SIGQUIT, &system_old_quit, NULL);
+	monitor_reset_signal_lock();
+	monitor_signal_pre_exec();
 	(*real_sigprocmask)(SIG_SETMASK, &old_set, NULL);
 	arglist[0] = SHELL;
 	arglist[1] = "-c";
@@ -697,6 +711,8 @@ MONITOR_WRAP_NAME(system)(const char *command)
 int
 monitor_real_execve(const char *path, char *const argv[], char *const envp[])
 {
+    int ret, save_errno;
+
     monitor_fork_init();
     MONITOR_DEBUG("command = %s\n", path);
 
@@ -707,7 +723,13 @@ monitor_real_execve(const char *path, char *const argv[], char *const envp[])
 	return -1;
     }
 
-    return (*real_execve)(path, argv, monitor_copy_environ(envp));
+    monitor_signal_pre_exec();
+    ret = (*real_execve)(path, argv, monitor_copy_environ(envp));
+
+    save_errno = errno;
+    monitor_signal_post_exec();
+    errno = save_errno;
+    return ret;
 }
 
 /*
diff --git a/src/main.c b/src/main.c
index 696c7ee..2cbed0f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -773,6 +773,18 @@ monitor_unwind_thread_bottom_frame(void *addr)
 /*
  *  Internal monitor functions.
  */
+void __attribute__ ((weak))
+monitor_signal_pre_exec(void)
+{
+    return;
+}
+
+void __attribute__ ((weak))
+monitor_signal_post_exec(void)
+{
+    return;
+}
+
 void __attribute__ ((weak))
 monitor_reset_signal_lock(void)
 {
diff --git a/src/signal.c b/src/signal.c
index f8430c0..57cf462 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -391,6 +391,55 @@ monitor_signal_init(void)
     }
 }
 
+/*
+ *  The kernel keeps ignored signals across exec(), but resets caught
+ *  signals (including our handler) to the default action.  So, before
+ *  exec, tell the kernel about the signals that the application
+ *  ignores, and put back our handler if exec fails.
+ */
+void
+monitor_signal_pre_exec(void)
+{
+    struct monitor_signal_entry *mse;
+    struct sigaction ign_act;
+    sigset_t lock_set;
+    int sig;
+
+    monitor_signal_init();
+    memset(&ign_act, 0, sizeof(struct sigaction));
+    ign_act.sa_handler = SIG_IGN;
+
+    MONITOR_SIGNAL_LOCK;
+    for (sig = 1; sig < MONITOR_NSIG; sig++) {
+	mse = &monitor_signal_array[sig];
+	if (!mse->mse_avoid && !mse->mse_invalid
+	    && mse->mse_appl_act.sa_handler == SIG_IGN)
+	{
+	    (*real_sigaction)(sig, &ign_act, NULL);
+	}
+    }
+    MONITOR_SIGNAL_UNLOCK;
+}
+
+void
+monitor_signal_post_exec(void)
+{
+    struct monitor_signal_entry *mse;
+    sigset_t lock_set;
+    int sig;
+
+    MONITOR_SIGNAL_LOCK;
+    for (sig = 1; sig < MONITOR_NSIG; sig++) {
+	mse = &monitor_signal_array[sig];
+	if (!mse->mse_avoid && !mse->mse_invalid
+	    && mse->mse_appl_act.sa_handler == SIG_IGN)
+	{
+	    (*real_sigaction)(sig, &mse->mse_kern_act, NULL);
+	}
+    }
+    MONITOR_SIGNAL_UNLOCK;
+}
+
 /*
  *----------------------------------------------------------------------
  *  SHOOTDOWN SIGNAL and helper functions
-- 
2.43.0


From cc6829add510c08bf67f472f9d293e1414a9087f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:58 +0000
Subject: [PATCH 23/44] fix: call monitor_fini_library only once

Two threads in _exit(), or a fatal signal inside the callback, could both
run it.
---
 src/main.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index 2cbed0f..887cd82 100644
--- a/src/main.c
+++ b/src/main.c
@@ -143,7 +143,7 @@ static char **monitor_argv = NULL;
 static char **monitor_envp = NULL;
 
 volatile static char monitor_init_library_called = 0;
-volatile static char monitor_fini_library_called = 0;
+volatile static long monitor_fini_library_called = 0;
 volatile static char monitor_fini_process_done = 0;
 volatile static long monitor_end_process_cookie = 0;
 
@@ -240,12 +240,11 @@ monitor_begin_library_fcn(void)
 void
 monitor_end_library_fcn(void)
 {
-    if (monitor_fini_library_called)
+    if (compare_and_swap(&monitor_fini_library_called, 0, 1) != 0)
 	return;
 
     MONITOR_DEBUG1("calling monitor_fini_library() ...\n");
     monitor_fini_library();
-    monitor_fini_library_called = 1;
 }
 
 /*
-- 
2.43.0


From 01e7fc4181f7f1b942276396561e3dbb84461261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:59 +0000
Subject: [PATCH 24/44] fix: let only the first caller set the MPI size and
 rank

Two threads could mix the size of one call with the rank of the other,
or change the answer after it was first given.
---
 src/mpi.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 0888f6c..112b29e 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -40,6 +40,7 @@
  */
 
 #include "config.h"
+#include "atomic.h"
 #include "common.h"
 #include "monitor.h"
 
@@ -88,13 +89,12 @@ monitor_mpi_fini_count(int inc)
 void
 monitor_set_size_rank(int size, int rank)
 {
-    static int first = 1;
+    static volatile long first = 1;
 
-    if (first) {
+    if (compare_and_swap(&first, 1, 0) == 1) {
 	MONITOR_DEBUG("setting size = %d, rank = %d\n", size, rank);
 	mpi_size = size;
 	mpi_rank = rank;
-	first = 0;
     }
 }
 
@@ -110,11 +110,8 @@ monitor_set_size_rank(int size, int rank)
 void
 monitor_set_mpi_size_rank(int size, int rank)
 {
-    static int first = 1;
-
-    if (first && mpi_init_count == 0 && max_init_count > 0) {
+    if (mpi_init_count == 0 && max_init_count > 0) {
 	monitor_set_size_rank(size, rank);
-	first = 0;
     }
 }
 
-- 
2.43.0


From ffd37e65ce55bfc15c10e7701f37d2f391c6fc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:27 +0000
Subject: [PATCH 25/44] fix: don't record the MPI size and rank from a failed
 call

A failed MPI_Comm_rank or MPI_Comm_size left an undefined value as the
process's size and rank for good.
---
 src/mpi_comm_c.c  |  8 +++++---
 src/mpi_comm_f0.c |  8 +++++---
 src/mpi_comm_f1.c |  8 +++++---
 src/mpi_comm_f2.c |  8 +++++---
 src/pmpi.c        | 16 ++++++++++------
 5 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/mpi_comm_c.c b/src/mpi_comm_c.c
index f49b57c..906314c 100644
--- a/src/mpi_comm_c.c
+++ b/src/mpi_comm_c.c
@@ -27,14 +27,16 @@ static mpi_comm_fcn_t  *real_mpi_comm_rank = NULL;
 int
 MONITOR_WRAP_NAME(MPI_Comm_rank)(void *comm, int *rank)
 {
-    int size = -1, ret;
+    int size = -1, size_ret, ret;
 
     MONITOR_DEBUG("comm = %p\n", comm);
     MONITOR_GET_REAL_NAME(real_mpi_comm_size, MPI_Comm_size);
     MONITOR_GET_REAL_NAME_WRAP(real_mpi_comm_rank, MPI_Comm_rank);
-    ret = (*real_mpi_comm_size)(comm, &size);
+    size_ret = (*real_mpi_comm_size)(comm, &size);
     ret = (*real_mpi_comm_rank)(comm, rank);
-    monitor_set_mpi_size_rank(size, *rank);
+    if (size_ret == 0 && ret == 0) {
+	monitor_set_mpi_size_rank(size, *rank);
+    }
 
     return (ret);
 }
diff --git a/src/mpi_comm_f0.c b/src/mpi_comm_f0.c
index 4ac1e7e..18edefc 100644
--- a/src/mpi_comm_f0.c
+++ b/src/mpi_comm_f0.c
@@ -26,12 +26,14 @@ static mpi_comm_fcn_t  *real_mpi_comm_rank = NULL;
 void
 MONITOR_WRAP_NAME(mpi_comm_rank)(int *comm, int *rank, int *ierror)
 {
-    int size = -1;
+    int size = -1, size_err = 0;
 
     MONITOR_DEBUG("comm = %d\n", *comm);
     MONITOR_GET_REAL_NAME(real_mpi_comm_size, mpi_comm_size);
     MONITOR_GET_REAL_NAME_WRAP(real_mpi_comm_rank, mpi_comm_rank);
-    (*real_mpi_comm_size)(comm, &size, ierror);
+    (*real_mpi_comm_size)(comm, &size, &size_err);
     (*real_mpi_comm_rank)(comm, rank, ierror);
-    monitor_set_mpi_size_rank(size, *rank);
+    if (size_err == 0 && *ierror == 0) {
+	monitor_set_mpi_size_rank(size, *rank);
+    }
 }
diff --git a/src/mpi_comm_f1.c b/src/mpi_comm_f1.c
index 0f72a20..81af905 100644
--- a/src/mpi_comm_f1.c
+++ b/src/mpi_comm_f1.c
@@ -26,12 +26,14 @@ static mpi_comm_fcn_t  *real_mpi_comm_rank = NULL;
 void
 MONITOR_WRAP_NAME(mpi_comm_rank_)(int *comm, int *rank, int *ierror)
 {
-    int size = -1;
+    int size = -1, size_err = 0;
 
     MONITOR_DEBUG("comm = %d\n", *comm);
     MONITOR_GET_REAL_NAME(real_mpi_comm_size, mpi_comm_size_);
     MONITOR_GET_REAL_NAME_WRAP(real_mpi_comm_rank, mpi_comm_rank_);
-    (*real_mpi_comm_size)(comm, &size, ierror);
+    (*real_mpi_comm_size)(comm, &size, &size_err);
     (*real_mpi_comm_rank)(comm, rank, ierror);
-    monitor_set_mpi_size_rank(size, *rank);
+    if (size_err == 0 && *ierror == 0) {
+	monitor_set_mpi_size_rank(size, *rank);
+    }
 }
diff --git a/src/mpi_comm_f2.c b/src/mpi_comm_f2.c
index e47cffe..37a701c 100644
--- a/src/mpi_comm_f2.c
+++ b/src/mpi_comm_f2.c
@@ -26,12 +26,14 @@ static mpi_comm_fcn_t  *real_mpi_comm_rank = NULL;
 void
 MONITOR_WRAP_NAME(mpi_comm_rank__)(int *comm, int *rank, int *ierror)
 {
-    int size = -1;
+    int size = -1, size_err = 0;
 
     MONITOR_DEBUG("comm = %d\n", *comm);
     MONITOR_GET_REAL_NAME(real_mpi_comm_size, mpi_comm_size__);
     MONITOR_GET_REAL_NAME_WRAP(real_mpi_comm_rank, mpi_comm_rank__);
-    (*real_mpi_comm_size)(comm, &size, ierror);
+    (*real_mpi_comm_size)(comm, &size, &size_err);
     (*real_mpi_comm_rank)(comm, rank, ierror);
-    monitor_set_mpi_size_rank(size, *rank);
+    if (size_err == 0 && *ierror == 0) {
+	monitor_set_mpi_size_rank(size, *rank);
+    }
 }
diff --git a/src/pmpi.c b/src/pmpi.c
index a2f3625..529c9ca 100644
--- a/src/pmpi.c
+++ b/src/pmpi.c
@@ -289,26 +289,30 @@ MONITOR_WRAP_NAME(pmpi_finalize__)(int *ierror)
 int
 MONITOR_WRAP_NAME(PMPI_Comm_rank)(void *comm, int *rank)
 {
-    int size = -1, ret;
+    int size = -1, size_ret, ret;
 
     MONITOR_DEBUG("comm = %p\n", comm);
     MONITOR_GET_REAL_NAME(real_pmpi_comm_size, PMPI_Comm_size);
     MONITOR_GET_REAL_NAME_WRAP(real_pmpi_comm_rank, PMPI_Comm_rank);
-    ret = (*real_pmpi_comm_size)(comm, &size);
+    size_ret = (*real_pmpi_comm_size)(comm, &size);
     ret = (*real_pmpi_comm_rank)(comm, rank);
-    monitor_set_mpi_size_rank(size, *rank);
+    if (size_ret == 0 && ret == 0) {
+	monitor_set_mpi_size_rank(size, *rank);
+    }
 
     return (ret);
 }
 
 #define FORTRAN_COMM_RANK_BODY(size_var, size_fcn, rank_var, rank_fcn)  \
-    int size = -1;					\
+    int size = -1, size_err = 0;			\
     MONITOR_DEBUG("comm = %d\n", *comm);		\
     MONITOR_GET_REAL_NAME(size_var, size_fcn);		\
     MONITOR_GET_REAL_NAME_WRAP(rank_var, rank_fcn);	\
-    (*size_var)(comm, &size, ierror);			\
+    (*size_var)(comm, &size, &size_err);		\
     (*rank_var)(comm, rank, ierror);			\
-    monitor_set_mpi_size_rank(size, *rank);
+    if (size_err == 0 && *ierror == 0) {		\
+	monitor_set_mpi_size_rank(size, *rank);		\
+    }
 
 /*
  * In Fortran, MPI_Comm is always int.
-- 
2.43.0


From 64400bfa04abaf388d1515ae9709876c63dfecc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:27 +0000
Subject: [PATCH 26/44] fix: don't give dlopen callbacks for monitor's own
 symbol search

---
 src/common.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/common.c b/src/common.c
index 43f2ace..cfabc71 100644
--- a/src/common.c
+++ b/src/common.c
@@ -43,8 +43,13 @@
 #include <link.h>
 #include <stdbool.h>
 
+typedef void *dlopen_fcn_t(const char *, int);
+typedef int dlclose_fcn_t(void *);
+
 struct callback_data {
     const char* symbol;
+    dlopen_fcn_t *real_dlopen;
+    dlclose_fcn_t *real_dlclose;
     bool skip;
     void *skip_until_base;
     void *result;
@@ -62,7 +67,7 @@ static int phdr_callback(struct dl_phdr_info *info, size_t sz, void *data_v) {
     }
 
     // Call dlopen to stabilize a handle for our use
-    void *this = dlopen(info->dlpi_name, RTLD_LAZY | RTLD_NOLOAD | RTLD_LOCAL);
+    void *this = (*data->real_dlopen)(info->dlpi_name, RTLD_LAZY | RTLD_NOLOAD | RTLD_LOCAL);
     if (this == NULL) {
         MONITOR_DEBUG("dlopen failed on object: %s\n", info->dlpi_name);
         return 0;
@@ -71,7 +76,7 @@ static int phdr_callback(struct dl_phdr_info *info, size_t sz, void *data_v) {
     // Poke it and see if we can find the symbol we want. Stop if we found it,
     // otherwise continue the scan.
     data->result = dlsym(this, data->symbol);
-    dlclose(this);
+    (*data->real_dlclose)(this);
     return data->result == NULL ? 0 : 1;
 }
 
@@ -87,11 +92,23 @@ void *monitor_dlsym(const char *symbol) {
 
         struct callback_data cb_data = {
             .symbol = symbol,
+            .real_dlopen = &dlopen,
+            .real_dlclose = &dlclose,
             .skip = true,
             .skip_until_base = NULL,
             .result = NULL,
         };
 
+        // Bypass our own overrides, this is not an application dlopen
+        void *sym = dlsym(RTLD_NEXT, "dlopen");
+        if (sym != NULL) {
+            cb_data.real_dlopen = sym;
+        }
+        sym = dlsym(RTLD_NEXT, "dlclose");
+        if (sym != NULL) {
+            cb_data.real_dlclose = sym;
+        }
+
         // Identify ourselves, using our base address
         Dl_info dli;
         if (dladdr(&monitor_dlsym, &dli) == 0) {
-- 
2.43.0


From 85275a8b4d6bbca5ce842f94db026de266806650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:06 +0000
Subject: [PATCH 27/44] fix: recognize an ignored thread that restarts process
 exit

If an unmonitored thread ends the process and catches a fatal signal
during the exit callbacks, then it waited forever for itself.
---
 src/common.h  |  2 ++
 src/main.c    | 16 +++++++++++++++-
 src/pthread.c | 24 ++++++++++++++++++++++++
 3 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/common.h b/src/common.h
index dc4ac34..2070ca3 100644
--- a/src/common.h
+++ b/src/common.h
@@ -176,6 +176,8 @@ void monitor_end_process_fcn(int);
 void monitor_end_library_fcn(void);
 void monitor_thread_shootdown(void);
 void monitor_thread_exit_loser(void);
+void monitor_thread_set_exit_winner(void);
+int monitor_thread_is_exit_winner(void);
 int  monitor_thread_disable_cancel(void);
 void monitor_thread_restore_cancel(int);
 int  monitor_shootdown_signal(void);
diff --git a/src/main.c b/src/main.c
index 887cd82..9f491ba 100644
--- a/src/main.c
+++ b/src/main.c
@@ -328,6 +328,8 @@ monitor_end_process_fcn(int how)
 	 */
 	if (tn != NULL) {
 	    tn->tn_exit_win = 1;
+	} else {
+	    monitor_thread_set_exit_winner();
 	}
 	MONITOR_DEBUG("calling monitor_begin_process_exit (how = %d) ...\n", how);
 	monitor_begin_process_exit(how);
@@ -337,7 +339,7 @@ monitor_end_process_fcn(int how)
 	MONITOR_DEBUG("calling monitor_fini_process (how = %d) ...\n", how);
 	monitor_fini_process(how, monitor_main_tn.tn_user_data);
     }
-    else if (tn != NULL && tn->tn_exit_win) {
+    else if (tn != NULL ? tn->tn_exit_win : monitor_thread_is_exit_winner()) {
 	/*
 	 * Repeat winner: somehow this thread has started process exit
 	 * again.  Assume the callbacks have had their chance.
@@ -818,6 +820,18 @@ monitor_thread_disable_cancel(void)
     return (-1);
 }
 
+void __attribute__ ((weak))
+monitor_thread_set_exit_winner(void)
+{
+    return;
+}
+
+int __attribute__ ((weak))
+monitor_thread_is_exit_winner(void)
+{
+    return (0);
+}
+
 void __attribute__ ((weak))
 monitor_thread_exit_loser(void)
 {
diff --git a/src/pthread.c b/src/pthread.c
index 8c696ac..e39f342 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -207,6 +207,8 @@ volatile static char monitor_in_exit_cleanup = 0;
 static pthread_key_t monitor_pthread_key;
 
 volatile static char monitor_has_used_threads = 0;
+volatile static char monitor_has_exit_winner = 0;
+static pthread_t monitor_exit_winner;
 volatile static char monitor_thread_support_done = 0;
 volatile static char monitor_fini_thread_done = 0;
 static int shootdown_signal = 0;
@@ -397,6 +399,7 @@ monitor_reset_thread_list(struct monitor_thread_node *main_tn)
     main_tn->tn_fini_done = 0;
     monitor_in_exit_cleanup = 0;
     monitor_fini_thread_done = 0;
+    monitor_has_exit_winner = 0;
     spinlock_unlock(&monitor_thread_lock);
     /*
      * Free the thread list and the pthread key.  Technically, this
@@ -638,6 +641,27 @@ monitor_thread_restore_cancel(int state)
     }
 }
 
+/*
+ *  Called from main.c to identify an ignored thread (no thread node)
+ *  that ends the process, in case it starts process exit again from a
+ *  signal handler.
+ */
+void
+monitor_thread_set_exit_winner(void)
+{
+    if (monitor_has_used_threads) {
+	monitor_exit_winner = (*real_pthread_self)();
+	monitor_has_exit_winner = 1;
+    }
+}
+
+int
+monitor_thread_is_exit_winner(void)
+{
+    return (monitor_has_exit_winner
+	    && PTHREAD_EQUAL(monitor_exit_winner, (*real_pthread_self)()));
+}
+
 /*
  *  Called from main.c in a thread that has lost the race to end the
  *  process, before it waits for the winner.  The thread may be inside
-- 
2.43.0


From 96721c7a1fc73852c1da95fa312a6495c444354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:31 +0000
Subject: [PATCH 28/44] fix: disable cancellation during exit in a forked child

The child's only thread may have been canceled before the fork.
---
 src/pthread.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pthread.c b/src/pthread.c
index e39f342..7b12d0e 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -624,7 +624,11 @@ monitor_thread_disable_cancel(void)
 {
     int old_state;
 
-    if (! monitor_has_used_threads)
+    /*
+     * Note: a forked child has not used threads, but it may inherit a
+     * cancel request.
+     */
+    if (real_pthread_setcancelstate == NULL)
 	return (-1);
 
     if ((*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state) != 0)
-- 
2.43.0


From 157eef79ce862e7aede4428f5e7e2ea458bbe5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:03 +0000
Subject: [PATCH 29/44] fix: failed exec leaves SIGINT and SIGQUIT to a
 concurrent system()

Putting back the signal actions after a failed exec raced with system()
in another thread: SIGINT could be open while system() waits, and system()
could restore SIG_IGN over our handler.
---
 src/common.h |  3 ++-
 src/fork.c   | 26 ++++++++++++++++++++++----
 src/main.c   |  8 +++++++-
 src/signal.c | 27 +++++++++++++++++++++++++--
 4 files changed, 56 insertions(+), 8 deletions(-)

diff --git a/src/common.h b/src/common.h
index 2070ca3..843311e 100644
--- a/src/common.h
+++ b/src/common.h
@@ -169,7 +169,8 @@ void monitor_early_init(void);
 void monitor_fork_init(void);
 void monitor_signal_init(void);
 void monitor_signal_pre_exec(void);
-void monitor_signal_post_exec(void);
+void monitor_signal_post_exec(int);
+void monitor_signal_kernel_action(int, struct sigaction *);
 void monitor_reset_signal_lock(void);
 void monitor_begin_process_fcn(void *, int);
 void monitor_end_process_fcn(int);
diff --git a/src/fork.c b/src/fork.c
index dc8c9c5..12101a7 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -375,6 +375,22 @@ MONITOR_WRAP_NAME(vfork)(void)
     return monitor_fork();
 }
 
+/*
+ *  Undo monitor_signal_pre_exec() after exec() fails.
+ */
+static void
+monitor_exec_failed(void)
+{
+    sigset_t full_set, old_set;
+
+    sigfillset(&full_set);
+    (*real_sigprocmask)(SIG_SETMASK, &full_set, &old_set);
+    spinlock_lock(&system_lock);
+    monitor_signal_post_exec(system_count > 0);
+    spinlock_unlock(&system_lock);
+    (*real_sigprocmask)(SIG_SETMASK, &old_set, NULL);
+}
+
 /*
  *  Override execl() and execv().
  *
@@ -405,7 +421,7 @@ monitor_execv(const char *path, char *const argv[])
     /* We only get here if real_execv fails. */
     if (is_exec) {
 	save_errno = errno;
-	monitor_signal_post_exec();
+	monitor_exec_failed();
 	MONITOR_WARN("unexpected execv failure on pid: %d\n",
 		     (int)getpid());
 	errno = save_errno;
@@ -438,7 +454,7 @@ monitor_execvp(const char *file, char *const argv[])
     /* We only get here if real_execvp fails. */
     if (is_exec) {
 	save_errno = errno;
-	monitor_signal_post_exec();
+	monitor_exec_failed();
 	MONITOR_WARN("unexpected execvp failure on pid: %d\n",
 		     (int)getpid());
 	errno = save_errno;
@@ -471,7 +487,7 @@ monitor_execve(const char *path, char *const argv[], char *const envp[])
     /* We only get here if real_execve fails. */
     if (is_exec) {
 	save_errno = errno;
-	monitor_signal_post_exec();
+	monitor_exec_failed();
 	MONITOR_WARN("unexpected execve failure on pid: %d\n",
 		     (int)getpid());
 	errno = save_errno;
@@ -577,6 +593,8 @@ monitor_system_ignore_signals(void)
     if (system_count == 0) {
 	(*real_sigaction)(SIGINT, &ign_act, &system_old_int);
 	(*real_sigaction)(SIGQUIT, &ign_act, &system_old_quit);
+	monitor_signal_kernel_action(SIGINT, &system_old_int);
+	monitor_signal_kernel_action(SIGQUIT, &system_old_quit);
     }
     system_count++;
     spinlock_unlock(&system_lock);
@@ -727,7 +745,7 @@ monitor_real_execve(const char *path, char *const argv[], char *const envp[])
     ret = (*real_execve)(path, argv, monitor_copy_environ(envp));
 
     save_errno = errno;
-    monitor_signal_post_exec();
+    monitor_exec_failed();
     errno = save_errno;
     return ret;
 }
diff --git a/src/main.c b/src/main.c
index 9f491ba..48886d3 100644
--- a/src/main.c
+++ b/src/main.c
@@ -781,7 +781,13 @@ monitor_signal_pre_exec(void)
 }
 
 void __attribute__ ((weak))
-monitor_signal_post_exec(void)
+monitor_signal_post_exec(int in_system)
+{
+    return;
+}
+
+void __attribute__ ((weak))
+monitor_signal_kernel_action(int sig, struct sigaction *act)
 {
     return;
 }
diff --git a/src/signal.c b/src/signal.c
index 57cf462..e1ff6bc 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -421,8 +421,12 @@ monitor_signal_pre_exec(void)
     MONITOR_SIGNAL_UNLOCK;
 }
 
+/*
+ *  If another thread is inside system(), then leave SIGINT and SIGQUIT
+ *  ignored, system() puts them back.
+ */
 void
-monitor_signal_post_exec(void)
+monitor_signal_post_exec(int in_system)
 {
     struct monitor_signal_entry *mse;
     sigset_t lock_set;
@@ -432,7 +436,8 @@ monitor_signal_post_exec(void)
     for (sig = 1; sig < MONITOR_NSIG; sig++) {
 	mse = &monitor_signal_array[sig];
 	if (!mse->mse_avoid && !mse->mse_invalid
-	    && mse->mse_appl_act.sa_handler == SIG_IGN)
+	    && mse->mse_appl_act.sa_handler == SIG_IGN
+	    && !(in_system && (sig == SIGINT || sig == SIGQUIT)))
 	{
 	    (*real_sigaction)(sig, &mse->mse_kern_act, NULL);
 	}
@@ -440,6 +445,24 @@ monitor_signal_post_exec(void)
     MONITOR_SIGNAL_UNLOCK;
 }
 
+/*
+ *  The action that monitor installs for sig.  It differs from what the
+ *  kernel reports when another thread is between pre and post exec.
+ */
+void
+monitor_signal_kernel_action(int sig, struct sigaction *act)
+{
+    struct monitor_signal_entry *mse = &monitor_signal_array[sig];
+    sigset_t lock_set;
+
+    monitor_signal_init();
+    MONITOR_SIGNAL_LOCK;
+    if (!mse->mse_avoid && !mse->mse_invalid) {
+	*act = mse->mse_kern_act;
+    }
+    MONITOR_SIGNAL_UNLOCK;
+}
+
 /*
  *----------------------------------------------------------------------
  *  SHOOTDOWN SIGNAL and helper functions
-- 
2.43.0


From 7986f768f6846922ee4c63aef83963f444ee562d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:43 +0000
Subject: [PATCH 30/44] fix: undo another thread's pre-exec signal actions in a
 forked child

---
 src/fork.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fork.c b/src/fork.c
index 12101a7..0be5151 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -355,6 +355,8 @@ monitor_fork(void)
     else {
 	/* Child process. */
 	MONITOR_DEBUG("application forked, parent = %d\n", (int)getppid());
+	monitor_reset_signal_lock();
+	monitor_signal_post_exec(system_count > 0);
 	system_count = 0;
 	spinlock_unlock(&system_lock);
 	monitor_begin_process_fcn(user_data, TRUE);
-- 
2.43.0


From 8c42afe8065d049f21a142c404b3277cb0fabb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:32 +0000
Subject: [PATCH 31/44] fix: system() and a failed exec in another thread
 restore the right actions

---
 src/signal.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/signal.c b/src/signal.c
index e1ff6bc..ea6059c 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -90,6 +90,7 @@ struct monitor_signal_entry {
     char  mse_blocked;
     char  mse_appl_hand;
     char  mse_keep_open;
+    char  mse_exec_ign;
 };
 
 static struct monitor_signal_entry
@@ -416,6 +417,7 @@ monitor_signal_pre_exec(void)
 	    && mse->mse_appl_act.sa_handler == SIG_IGN)
 	{
 	    (*real_sigaction)(sig, &ign_act, NULL);
+	    mse->mse_exec_ign = 1;
 	}
     }
     MONITOR_SIGNAL_UNLOCK;
@@ -432,14 +434,18 @@ monitor_signal_post_exec(int in_system)
     sigset_t lock_set;
     int sig;
 
+    if (real_sigprocmask == NULL) {
+	/* Signals are not initialized yet. */
+	return;
+    }
     MONITOR_SIGNAL_LOCK;
     for (sig = 1; sig < MONITOR_NSIG; sig++) {
 	mse = &monitor_signal_array[sig];
-	if (!mse->mse_avoid && !mse->mse_invalid
-	    && mse->mse_appl_act.sa_handler == SIG_IGN
-	    && !(in_system && (sig == SIGINT || sig == SIGQUIT)))
-	{
-	    (*real_sigaction)(sig, &mse->mse_kern_act, NULL);
+	if (mse->mse_exec_ign) {
+	    mse->mse_exec_ign = 0;
+	    if (!(in_system && (sig == SIGINT || sig == SIGQUIT))) {
+		(*real_sigaction)(sig, &mse->mse_kern_act, NULL);
+	    }
 	}
     }
     MONITOR_SIGNAL_UNLOCK;
@@ -455,9 +461,12 @@ monitor_signal_kernel_action(int sig, struct sigaction *act)
     struct monitor_signal_entry *mse = &monitor_signal_array[sig];
     sigset_t lock_set;
 
-    monitor_signal_init();
+    if (real_sigprocmask == NULL) {
+	/* Signals are not initialized yet. */
+	return;
+    }
     MONITOR_SIGNAL_LOCK;
-    if (!mse->mse_avoid && !mse->mse_invalid) {
+    if (mse->mse_exec_ign) {
 	*act = mse->mse_kern_act;
     }
     MONITOR_SIGNAL_UNLOCK;
-- 
2.43.0


From b081d0b9a5f70595fc1a4537c88ded2add7390e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:24 +0000
Subject: [PATCH 32/44] fix: don't hold the signal lock at a cancellation point

Debug output in sigaction() is a cancellation point, so a cancelled thread
left the signal lock locked and the next signal hung its thread.
---
 src/signal.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/signal.c b/src/signal.c
index ea6059c..d534fcd 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -937,7 +937,7 @@ monitor_appl_sigaction(int sig, const struct sigaction *act,
 {
     struct monitor_signal_entry *mse;
     struct sigaction new_act, prev_act;
-    sigset_t lock_set;
+    sigset_t kern_mask, lock_set;
     char *action;
 
     monitor_signal_init();
@@ -969,21 +969,23 @@ monitor_appl_sigaction(int sig, const struct sigaction *act,
     }
     MONITOR_DEBUG("application sigaction: %d (%s)\n", sig, action);
 
+    /*
+     * Use the application's flags and mask, adjusted for monitor's
+     * needs.  Note: debug output is a cancellation point, so adjust
+     * the mask before taking the lock.
+     */
     if (act != NULL) {
 	new_act = *act;
+	kern_mask = new_act.sa_mask;
+	monitor_remove_client_signals(&kern_mask, SIG_BLOCK);
+	monitor_adjust_samask(&kern_mask);
     }
     MONITOR_SIGNAL_LOCK;
     prev_act = mse->mse_appl_act;
     if (act != NULL) {
-	/*
-	 * Use the application's flags and mask, adjusted for
-	 * monitor's needs.
-	 */
 	mse->mse_appl_act = new_act;
 	mse->mse_kern_act.sa_flags = monitor_adjust_saflags(new_act.sa_flags);
-	mse->mse_kern_act.sa_mask = new_act.sa_mask;
-	monitor_remove_client_signals(&mse->mse_kern_act.sa_mask, SIG_BLOCK);
-	monitor_adjust_samask(&mse->mse_kern_act.sa_mask);
+	mse->mse_kern_act.sa_mask = kern_mask;
 	(*real_sigaction)(sig, &mse->mse_kern_act, NULL);
     }
     MONITOR_SIGNAL_UNLOCK;
-- 
2.43.0


From f00b9e5a25ebf420acd882476c310ae60b53b1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:48 +0000
Subject: [PATCH 33/44] fix: identify the exiting thread in the same step that
 claims process exit

A fatal signal between the two steps made the winner wait for itself
forever.
---
 src/common.h    |  3 +--
 src/main.c      | 29 +++++++++++------------------
 src/pthread.c   | 19 +++----------------
 src/pthread_h.h |  1 -
 4 files changed, 15 insertions(+), 37 deletions(-)

diff --git a/src/common.h b/src/common.h
index 843311e..01d187a 100644
--- a/src/common.h
+++ b/src/common.h
@@ -177,8 +177,7 @@ void monitor_end_process_fcn(int);
 void monitor_end_library_fcn(void);
 void monitor_thread_shootdown(void);
 void monitor_thread_exit_loser(void);
-void monitor_thread_set_exit_winner(void);
-int monitor_thread_is_exit_winner(void);
+long monitor_thread_self_id(void);
 int  monitor_thread_disable_cancel(void);
 void monitor_thread_restore_cancel(int);
 int  monitor_shootdown_signal(void);
diff --git a/src/main.c b/src/main.c
index 48886d3..2ddec5d 100644
--- a/src/main.c
+++ b/src/main.c
@@ -257,7 +257,6 @@ monitor_reset_process(void)
 {
     monitor_reset_thread_list(&monitor_main_tn);
     monitor_reset_signal_lock();
-    monitor_main_tn.tn_exit_win = 0;
     monitor_end_process_cookie = 0;
     monitor_fini_process_done = 0;
 }
@@ -315,22 +314,22 @@ void
 monitor_end_process_fcn(int how)
 {
     struct monitor_thread_node *tn = monitor_get_tn();
-    long prev;
+    long prev, self;
     int old_state;
 
     old_state = monitor_thread_disable_cancel();
 
-    prev = compare_and_swap(&monitor_end_process_cookie, 0, 1);
+    /*
+     * The cookie is the winner's identity, so there is no window where
+     * the winner could be hit by a fatal signal and not know itself.
+     */
+    self = (tn != NULL) ? (long) tn : monitor_thread_self_id();
+    prev = compare_and_swap(&monitor_end_process_cookie, 0, self);
     if (prev == 0) {
 	/*
 	 * Race winner: use the first thread that starts process exit
 	 * to launch the fini-thread and fini-process callbacks.
 	 */
-	if (tn != NULL) {
-	    tn->tn_exit_win = 1;
-	} else {
-	    monitor_thread_set_exit_winner();
-	}
 	MONITOR_DEBUG("calling monitor_begin_process_exit (how = %d) ...\n", how);
 	monitor_begin_process_exit(how);
 
@@ -339,7 +338,7 @@ monitor_end_process_fcn(int how)
 	MONITOR_DEBUG("calling monitor_fini_process (how = %d) ...\n", how);
 	monitor_fini_process(how, monitor_main_tn.tn_user_data);
     }
-    else if (tn != NULL ? tn->tn_exit_win : monitor_thread_is_exit_winner()) {
+    else if (prev == self) {
 	/*
 	 * Repeat winner: somehow this thread has started process exit
 	 * again.  Assume the callbacks have had their chance.
@@ -826,16 +825,10 @@ monitor_thread_disable_cancel(void)
     return (-1);
 }
 
-void __attribute__ ((weak))
-monitor_thread_set_exit_winner(void)
-{
-    return;
-}
-
-int __attribute__ ((weak))
-monitor_thread_is_exit_winner(void)
+long __attribute__ ((weak))
+monitor_thread_self_id(void)
 {
-    return (0);
+    return (1);
 }
 
 void __attribute__ ((weak))
diff --git a/src/pthread.c b/src/pthread.c
index 7b12d0e..8223583 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -207,8 +207,6 @@ volatile static char monitor_in_exit_cleanup = 0;
 static pthread_key_t monitor_pthread_key;
 
 volatile static char monitor_has_used_threads = 0;
-volatile static char monitor_has_exit_winner = 0;
-static pthread_t monitor_exit_winner;
 volatile static char monitor_thread_support_done = 0;
 volatile static char monitor_fini_thread_done = 0;
 static int shootdown_signal = 0;
@@ -399,7 +397,6 @@ monitor_reset_thread_list(struct monitor_thread_node *main_tn)
     main_tn->tn_fini_done = 0;
     monitor_in_exit_cleanup = 0;
     monitor_fini_thread_done = 0;
-    monitor_has_exit_winner = 0;
     spinlock_unlock(&monitor_thread_lock);
     /*
      * Free the thread list and the pthread key.  Technically, this
@@ -650,20 +647,10 @@ monitor_thread_restore_cancel(int state)
  *  that ends the process, in case it starts process exit again from a
  *  signal handler.
  */
-void
-monitor_thread_set_exit_winner(void)
-{
-    if (monitor_has_used_threads) {
-	monitor_exit_winner = (*real_pthread_self)();
-	monitor_has_exit_winner = 1;
-    }
-}
-
-int
-monitor_thread_is_exit_winner(void)
+long
+monitor_thread_self_id(void)
 {
-    return (monitor_has_exit_winner
-	    && PTHREAD_EQUAL(monitor_exit_winner, (*real_pthread_self)()));
+    return (long) (*real_pthread_self)();
 }
 
 /*
diff --git a/src/pthread_h.h b/src/pthread_h.h
index c749593..e1e3a6d 100644
--- a/src/pthread_h.h
+++ b/src/pthread_h.h
@@ -68,7 +68,6 @@ struct monitor_thread_node {
     volatile char  tn_appl_started;
     volatile char  tn_fini_started;
     volatile char  tn_fini_done;
-    volatile char  tn_exit_win;
     volatile char  tn_block_shootdown;
 };
 
-- 
2.43.0


From aed2df33939e14f0fb49061d9b2f7f8e6777ed53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:19 +0000
Subject: [PATCH 34/44] fix: release the system() lock in a child of
 monitor_real_fork()

---
 src/common.h |  1 +
 src/fork.c   | 16 ++++++++++++----
 src/main.c   |  7 +++++++
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/common.h b/src/common.h
index 01d187a..8c5967f 100644
--- a/src/common.h
+++ b/src/common.h
@@ -172,6 +172,7 @@ void monitor_signal_pre_exec(void);
 void monitor_signal_post_exec(int);
 void monitor_signal_kernel_action(int, struct sigaction *);
 void monitor_reset_signal_lock(void);
+void monitor_reset_system(void);
 void monitor_begin_process_fcn(void *, int);
 void monitor_end_process_fcn(int);
 void monitor_end_library_fcn(void);
diff --git a/src/fork.c b/src/fork.c
index 0be5151..0d5f4a7 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -325,6 +325,18 @@ monitor_is_executable(const char *file)
  *----------------------------------------------------------------------
  */
 
+/*
+ *  Called in a forked child.  Another thread of the parent may have
+ *  been inside system() or exec() at the time of the fork.
+ */
+void
+monitor_reset_system(void)
+{
+    monitor_signal_post_exec(system_count > 0);
+    system_count = 0;
+    spinlock_unlock(&system_lock);
+}
+
 /*
  *  Override fork() and vfork().
  *
@@ -355,10 +367,6 @@ monitor_fork(void)
     else {
 	/* Child process. */
 	MONITOR_DEBUG("application forked, parent = %d\n", (int)getppid());
-	monitor_reset_signal_lock();
-	monitor_signal_post_exec(system_count > 0);
-	system_count = 0;
-	spinlock_unlock(&system_lock);
 	monitor_begin_process_fcn(user_data, TRUE);
     }
 
diff --git a/src/main.c b/src/main.c
index 2ddec5d..08db405 100644
--- a/src/main.c
+++ b/src/main.c
@@ -257,6 +257,7 @@ monitor_reset_process(void)
 {
     monitor_reset_thread_list(&monitor_main_tn);
     monitor_reset_signal_lock();
+    monitor_reset_system();
     monitor_end_process_cookie = 0;
     monitor_fini_process_done = 0;
 }
@@ -791,6 +792,12 @@ monitor_signal_kernel_action(int sig, struct sigaction *act)
     return;
 }
 
+void __attribute__ ((weak))
+monitor_reset_system(void)
+{
+    return;
+}
+
 void __attribute__ ((weak))
 monitor_reset_signal_lock(void)
 {
-- 
2.43.0


From 6fcde095cf624a7db088081eacad8c29fcfb1227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:14 +0000
Subject: [PATCH 35/44] fix: don't cancel a forked child before its init
 process callback

---
 src/fork.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fork.c b/src/fork.c
index 0d5f4a7..cb891bb 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -348,9 +348,15 @@ static pid_t
 monitor_fork(void)
 {
     void *user_data;
+    int old_state;
     pid_t ret;
 
     monitor_fork_init();
+    /*
+     * The child inherits a pending cancel, don't act on it before the
+     * init process callback.
+     */
+    old_state = monitor_thread_disable_cancel();
     MONITOR_DEBUG1("calling monitor_pre_fork() ...\n");
     user_data = monitor_pre_fork();
 
@@ -369,6 +375,7 @@ monitor_fork(void)
 	MONITOR_DEBUG("application forked, parent = %d\n", (int)getppid());
 	monitor_begin_process_fcn(user_data, TRUE);
     }
+    monitor_thread_restore_cancel(old_state);
 
     return (ret);
 }
-- 
2.43.0


From 491ef39ce38f5b4b850863c1a0659b0ed88c98ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:16 +0000
Subject: [PATCH 36/44] fix: no cancellation point between a fatal signal's
 callbacks and its default action

---
 src/main.c   | 2 +-
 src/signal.c | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 08db405..dc5e9ac 100644
--- a/src/main.c
+++ b/src/main.c
@@ -360,8 +360,8 @@ monitor_end_process_fcn(int how)
     }
 
     monitor_fini_process_done = 1;
-    monitor_thread_restore_cancel(old_state);
     MONITOR_DEBUG1("resume system exit\n");
+    monitor_thread_restore_cancel(old_state);
 }
 
 /*
diff --git a/src/signal.c b/src/signal.c
index d534fcd..27faa24 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -284,6 +284,8 @@ monitor_signal_handler(int sig, siginfo_t *info, void *context)
 	    return;
 	}
 
+	/* There is no way back, not even by a pending cancel. */
+	monitor_thread_disable_cancel();
 	monitor_end_process_fcn(MONITOR_EXIT_SIGNAL);
 #ifdef MONITOR_DYNAMIC
 	monitor_end_library_fcn();
-- 
2.43.0


From 056951ff33317ed0deaadbbda87566038e7d0c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:11 +0000
Subject: [PATCH 37/44] fix: run a thread's cleanup routine even if a signal
 handler is canceled at its end

---
 src/pthread.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pthread.c b/src/pthread.c
index 8223583..c0242f7 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -1206,7 +1206,13 @@ monitor_begin_thread(void *arg)
     ret = (tn->tn_start_routine)(tn->tn_arg);
     MONITOR_ASM_LABEL(monitor_thread_fence3);
 
+    /*
+     * Don't let a cancel in a signal handler get between popping the
+     * cleanup routine and running it.
+     */
+    (*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
     PTHREAD_CLEANUP_POP(1);
+    (*real_pthread_setcancelstate)(old_state, NULL);
 
     MONITOR_ASM_LABEL(monitor_thread_fence4);
     return (ret);
-- 
2.43.0


From 59bd963808805d8a9ae9e3383045cc58089886bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:11 +0000
Subject: [PATCH 38/44] fix: a failed exec undid the ignored signals of another
 thread's exec

---
 src/common.h |  2 +-
 src/fork.c   |  4 ++--
 src/main.c   |  2 +-
 src/signal.c | 14 +++++++++++---
 4 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/common.h b/src/common.h
index 8c5967f..1ad0ef8 100644
--- a/src/common.h
+++ b/src/common.h
@@ -169,7 +169,7 @@ void monitor_early_init(void);
 void monitor_fork_init(void);
 void monitor_signal_init(void);
 void monitor_signal_pre_exec(void);
-void monitor_signal_post_exec(int);
+void monitor_signal_post_exec(int, int);
 void monitor_signal_kernel_action(int, struct sigaction *);
 void monitor_reset_signal_lock(void);
 void monitor_reset_system(void);
diff --git a/src/fork.c b/src/fork.c
index cb891bb..613e98c 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -332,7 +332,7 @@ monitor_is_executable(const char *file)
 void
 monitor_reset_system(void)
 {
-    monitor_signal_post_exec(system_count > 0);
+    monitor_signal_post_exec(system_count > 0, TRUE);
     system_count = 0;
     spinlock_unlock(&system_lock);
 }
@@ -403,7 +403,7 @@ monitor_exec_failed(void)
     sigfillset(&full_set);
     (*real_sigprocmask)(SIG_SETMASK, &full_set, &old_set);
     spinlock_lock(&system_lock);
-    monitor_signal_post_exec(system_count > 0);
+    monitor_signal_post_exec(system_count > 0, FALSE);
     spinlock_unlock(&system_lock);
     (*real_sigprocmask)(SIG_SETMASK, &old_set, NULL);
 }
diff --git a/src/main.c b/src/main.c
index dc5e9ac..a948de7 100644
--- a/src/main.c
+++ b/src/main.c
@@ -781,7 +781,7 @@ monitor_signal_pre_exec(void)
 }
 
 void __attribute__ ((weak))
-monitor_signal_post_exec(int in_system)
+monitor_signal_post_exec(int in_system, int reset)
 {
     return;
 }
diff --git a/src/signal.c b/src/signal.c
index 27faa24..50117fe 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -96,6 +96,10 @@ struct monitor_signal_entry {
 static struct monitor_signal_entry
 monitor_signal_array[MONITOR_NSIG];
 
+/*  Number of threads between pre and post exec.
+ */
+static int monitor_exec_count = 0;
+
 /*  Signals that monitor treats as totally hands-off.
  */
 static int monitor_signal_avoid_list[] = {
@@ -413,6 +417,7 @@ monitor_signal_pre_exec(void)
     ign_act.sa_handler = SIG_IGN;
 
     MONITOR_SIGNAL_LOCK;
+    monitor_exec_count++;
     for (sig = 1; sig < MONITOR_NSIG; sig++) {
 	mse = &monitor_signal_array[sig];
 	if (!mse->mse_avoid && !mse->mse_invalid
@@ -427,10 +432,12 @@ monitor_signal_pre_exec(void)
 
 /*
  *  If another thread is inside system(), then leave SIGINT and SIGQUIT
- *  ignored, system() puts them back.
+ *  ignored, system() puts them back.  And if another thread is also
+ *  inside exec, then it still needs the signals to be ignored, but not
+ *  in a forked child (reset).
  */
 void
-monitor_signal_post_exec(int in_system)
+monitor_signal_post_exec(int in_system, int reset)
 {
     struct monitor_signal_entry *mse;
     sigset_t lock_set;
@@ -441,7 +448,8 @@ monitor_signal_post_exec(int in_system)
 	return;
     }
     MONITOR_SIGNAL_LOCK;
-    for (sig = 1; sig < MONITOR_NSIG; sig++) {
+    monitor_exec_count = reset ? 0 : monitor_exec_count - 1;
+    for (sig = 1; sig < MONITOR_NSIG && monitor_exec_count == 0; sig++) {
 	mse = &monitor_signal_array[sig];
 	if (mse->mse_exec_ign) {
 	    mse->mse_exec_ign = 0;
-- 
2.43.0


From 997e3512f0b2bcd3b3d8676fda13269dea23b1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:12 +0000
Subject: [PATCH 39/44] fix: debug output under the thread lock is a
 cancellation point

---
 src/pthread.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pthread.c b/src/pthread.c
index c0242f7..40951e2 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -304,6 +304,7 @@ monitor_thread_name_init(void)
     MONITOR_GET_REAL_NAME(real_pthread_cleanup_pop,  pthread_cleanup_pop);
 #endif
     MONITOR_GET_REAL_NAME(real_pthread_setcancelstate, pthread_setcancelstate);
+    MONITOR_GET_REAL_NAME(real_malloc, malloc);
 #ifdef MONITOR_USE_SIGNALS
     MONITOR_GET_REAL_NAME_WRAP(real_sigaction, sigaction);
     MONITOR_GET_REAL_NAME_WRAP(real_pthread_sigmask, pthread_sigmask);
@@ -436,7 +437,6 @@ monitor_make_thread_node(void)
     }
     else {
 	/* Malloc a new tn array. */
-	MONITOR_GET_REAL_NAME(real_malloc, malloc);
 	monitor_tn_array =
 	    (*real_malloc)(MONITOR_TN_ARRAY_SIZE * sizeof(struct monitor_thread_node));
 	if (monitor_tn_array == NULL) {
-- 
2.43.0


From dfb2f301407f5f77f32c9e68f593c5160fd9a260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:13 +0000
Subject: [PATCH 40/44] fix: concurrent execs shared one environment array

---
 src/fork.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/fork.c b/src/fork.c
index 613e98c..701a70e 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -110,8 +110,6 @@ static sigprocmask_fcn_t  *real_sigprocmask = NULL;
 static system_fcn_t  *real_system = NULL;
 static malloc_fcn_t  *real_malloc = NULL;
 
-static char *newenv_array[MONITOR_INIT_ENVIRON_SIZE];
-
 static int override_system = 1;
 
 /*
@@ -161,11 +159,13 @@ monitor_fork_init(void)
  *  bash, unsetenv() doesn't seem to change environ (why!?).  Also,
  *  copying environ is safer than modifying it in place if environ is
  *  somehow read-only.
+ *
+ *  Note: the caller passes an initial newenv array, not static in case
+ *  of exec in two threads, and we mmap() a larger one if needed.
  */
 static char **
-monitor_copy_environ(char *const oldenv[])
+monitor_copy_environ(char *const oldenv[], char **newenv)
 {
-    char **newenv = &newenv_array[0];
     size_t pagesize = MONITOR_DEFAULT_PAGESIZE;
     size_t size;
     int k, n, prot, flags;
@@ -641,6 +641,7 @@ monitor_system(const char *command, int callback)
 {
     sigset_t sigchld_set, old_set;
     void *user_data = NULL;
+    char *newenv[MONITOR_INIT_ENVIRON_SIZE];
     char *arglist[4];
     char *who;
     pid_t pid;
@@ -691,7 +692,7 @@ monitor_system(const char *command, int callback)
 	arglist[2] = (char *)command;
 	arglist[3] = NULL;
 	(*real_execve)(SHELL, arglist,
-		       callback ? environ : monitor_copy_environ(environ));
+		       callback ? environ : monitor_copy_environ(environ, newenv));
 	monitor_real_exit(127);
     }
     else {
@@ -746,6 +747,7 @@ MONITOR_WRAP_NAME(system)(const char *command)
 int
 monitor_real_execve(const char *path, char *const argv[], char *const envp[])
 {
+    char *newenv[MONITOR_INIT_ENVIRON_SIZE];
     int ret, save_errno;
 
     monitor_fork_init();
@@ -759,7 +761,7 @@ monitor_real_execve(const char *path, char *const argv[], char *const envp[])
     }
 
     monitor_signal_pre_exec();
-    ret = (*real_execve)(path, argv, monitor_copy_environ(envp));
+    ret = (*real_execve)(path, argv, monitor_copy_environ(envp, newenv));
 
     save_errno = errno;
     monitor_exec_failed();
-- 
2.43.0


From ade907691a3019fa009bb5d7364de666a2f47856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:04 +0000
Subject: [PATCH 41/44] fix: a thread that lost the race to end the process by
 exec keeps its signal mask

---
 src/main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.c b/src/main.c
index a948de7..8fae971 100644
--- a/src/main.c
+++ b/src/main.c
@@ -315,6 +315,7 @@ void
 monitor_end_process_fcn(int how)
 {
     struct monitor_thread_node *tn = monitor_get_tn();
+    sigset_t old_set;
     long prev, self;
     int old_state;
 
@@ -352,11 +353,15 @@ monitor_end_process_fcn(int how)
 	 * finished.
 	 */
 	MONITOR_DEBUG("delay second thread trying to exit (how = %d)\n", how);
+	(*real_sigprocmask)(SIG_BLOCK, NULL, &old_set);
 	monitor_thread_exit_loser();
 	while (! monitor_fini_process_done) {
 	    usleep(MONITOR_POLL_USLEEP_TIME);
 	}
 	sleep(2);
+
+	/* If this is exec, then the mask survives. */
+	(*real_sigprocmask)(SIG_SETMASK, &old_set, NULL);
     }
 
     monitor_fini_process_done = 1;
-- 
2.43.0


From 973c301bba619545a088a57b526732c60daea670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:34 +0000
Subject: [PATCH 42/44] fix: a thread cancelled inside system() left SIGINT and
 SIGQUIT ignored and the fork callbacks unmatched

---
 src/fork.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fork.c b/src/fork.c
index 701a70e..bb26c1c 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -645,7 +645,7 @@ monitor_system(const char *command, int callback)
     char *arglist[4];
     char *who;
     pid_t pid;
-    int status;
+    int status, old_state;
 
     monitor_fork_init();
     who = (callback ? "appl" : "client");
@@ -659,6 +659,11 @@ monitor_system(const char *command, int callback)
 	MONITOR_DEBUG("(%s) status = %d\n", who, status);
 	return (status);
     }
+    /*
+     * Don't let a cancel in waitpid() leave the signals ignored and
+     * the fork callbacks unmatched.
+     */
+    old_state = monitor_thread_disable_cancel();
     /*
      * Ignore SIGINT and SIGQUIT, and block SIGCHLD.
      */
@@ -711,6 +716,7 @@ monitor_system(const char *command, int callback)
 	MONITOR_DEBUG("(%s) calling monitor_post_fork() ...\n", who);
 	monitor_post_fork(pid, user_data);
     }
+    monitor_thread_restore_cancel(old_state);
 
     MONITOR_DEBUG("(%s) status = %d\n", who, status);
     return (status);
-- 
2.43.0


From dc24ec123a7b4a62d6d827842376c5abfbcd160a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:22 +0000
Subject: [PATCH 43/44] fix: a thread cancelled in a callback of pthread_create
 left the creation half done

---
 src/pthread.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pthread.c b/src/pthread.c
index 40951e2..7ea8cc2 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -1283,7 +1283,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
     struct monitor_thread_info mti;
     void *old_thread_info = NULL;
     pthread_attr_t default_attr;
-    int ret, restore, destroy;
+    int ret, restore, destroy, old_state;
     size_t old_size;
 
     MONITOR_DEBUG1("\n");
@@ -1300,6 +1300,13 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
 	monitor_has_used_threads = 1;
     }
 
+    /*
+     * The real pthread_create() is not a cancellation point, so don't
+     * let a cancel in a callback function (or debug output) get us out
+     * of here with the new thread half made.
+     */
+    old_state = monitor_thread_disable_cancel();
+
     /*
      * Create a thread info struct for pthread_create() callback
      * function.  Note: this info is only available during the
@@ -1330,6 +1337,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
 	if (my_tn != NULL) {
 	    my_tn->tn_thread_info = old_thread_info;
 	}
+	monitor_thread_restore_cancel(old_state);
 	return (*real_pthread_create)(thread, attr, start_routine, arg);
     }
 
@@ -1358,6 +1366,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
     if (user_data == MONITOR_IGNORE_NEW_THREAD) {
 	MONITOR_DEBUG("launching ignored thread: start = %p\n", start_routine);
 	my_tn->tn_thread_info = old_thread_info;
+	monitor_thread_restore_cancel(old_state);
 	return (*real_pthread_create)(thread, attr, start_routine, arg);
     }
 
@@ -1400,6 +1409,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
     if (my_tn != NULL) {
         my_tn->tn_thread_info = old_thread_info;
     }
+    monitor_thread_restore_cancel(old_state);
 
     return (ret);
 }
-- 
2.43.0


From 015546f0267aa442ee37fc31ab756dca652045e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:20 +0000
Subject: [PATCH 44/44] fix: another thread's sigaction() or system() could
 undo the default action of a fatal signal and let the process run on after
 process-fini

---
 src/common.h |  2 ++
 src/fork.c   |  4 ++++
 src/main.c   | 12 ++++++++++
 src/signal.c | 68 ++++++++++++++++++++++++++++++++++++----------------
 4 files changed, 65 insertions(+), 21 deletions(-)

diff --git a/src/common.h b/src/common.h
index 1ad0ef8..5aab0c2 100644
--- a/src/common.h
+++ b/src/common.h
@@ -171,6 +171,8 @@ void monitor_signal_init(void);
 void monitor_signal_pre_exec(void);
 void monitor_signal_post_exec(int, int);
 void monitor_signal_kernel_action(int, struct sigaction *);
+void monitor_signal_hold_actions(void);
+void monitor_signal_release_actions(void);
 void monitor_reset_signal_lock(void);
 void monitor_reset_system(void);
 void monitor_begin_process_fcn(void *, int);
diff --git a/src/fork.c b/src/fork.c
index bb26c1c..195e342 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -608,10 +608,12 @@ monitor_system_ignore_signals(void)
     (*real_sigprocmask)(SIG_SETMASK, &full_set, &old_set);
     spinlock_lock(&system_lock);
     if (system_count == 0) {
+	monitor_signal_hold_actions();
 	(*real_sigaction)(SIGINT, &ign_act, &system_old_int);
 	(*real_sigaction)(SIGQUIT, &ign_act, &system_old_quit);
 	monitor_signal_kernel_action(SIGINT, &system_old_int);
 	monitor_signal_kernel_action(SIGQUIT, &system_old_quit);
+	monitor_signal_release_actions();
     }
     system_count++;
     spinlock_unlock(&system_lock);
@@ -628,8 +630,10 @@ monitor_system_restore_signals(void)
     spinlock_lock(&system_lock);
     system_count--;
     if (system_count == 0) {
+	monitor_signal_hold_actions();
 	(*real_sigaction)(SIGINT, &system_old_int, NULL);
 	(*real_sigaction)(SIGQUIT, &system_old_quit, NULL);
+	monitor_signal_release_actions();
     }
     spinlock_unlock(&system_lock);
     (*real_sigprocmask)(SIG_SETMASK, &old_set, NULL);
diff --git a/src/main.c b/src/main.c
index 8fae971..c0f6e7f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -797,6 +797,18 @@ monitor_signal_kernel_action(int sig, struct sigaction *act)
     return;
 }
 
+void __attribute__ ((weak))
+monitor_signal_hold_actions(void)
+{
+    return;
+}
+
+void __attribute__ ((weak))
+monitor_signal_release_actions(void)
+{
+    return;
+}
+
 void __attribute__ ((weak))
 monitor_reset_system(void)
 {
diff --git a/src/signal.c b/src/signal.c
index 50117fe..712810d 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -194,6 +194,29 @@ monitor_reset_signal_lock(void)
     spinlock_unlock(&monitor_signal_lock);
 }
 
+/*
+ *  Terminate the process by the default action for the signal.  Hold
+ *  the lock until then so that another thread can't change the action
+ *  in the meantime, and don't run any other handler.
+ */
+static void
+monitor_raise_default(int sig)
+{
+    struct sigaction action;
+    sigset_t lock_set, sig_set;
+
+    memset(&action, 0, sizeof(struct sigaction));
+    action.sa_handler = SIG_DFL;
+    sigemptyset(&sig_set);
+    sigaddset(&sig_set, sig);
+
+    MONITOR_SIGNAL_LOCK;
+    (*real_sigaction)(sig, &action, NULL);
+    (*real_sigprocmask)(SIG_UNBLOCK, &sig_set, NULL);
+    raise(sig);
+    MONITOR_SIGNAL_UNLOCK;
+}
+
 /*
  *  Offer a synchronous signal from sigwait() to the client.
  *
@@ -294,16 +317,16 @@ monitor_signal_handler(int sig, siginfo_t *info, void *context)
 #ifdef MONITOR_DYNAMIC
 	monitor_end_library_fcn();
 #endif
-	action.sa_handler = SIG_DFL;
-	action.sa_flags = 0;
-	sigemptyset(&action.sa_mask);
-	(*real_sigaction)(sig, &action, NULL);
-	(*real_sigprocmask)(SIG_SETMASK, &action.sa_mask, NULL);
 	if (mse->mse_noraise && info->si_code > 0) {
 	    /* For segv, etc, from the kernel, we just return. */
+	    action.sa_handler = SIG_DFL;
+	    action.sa_flags = 0;
+	    sigemptyset(&action.sa_mask);
+	    (*real_sigaction)(sig, &action, NULL);
+	    (*real_sigprocmask)(SIG_SETMASK, &action.sa_mask, NULL);
 	    return;
 	}
-	raise(sig);
+	monitor_raise_default(sig);
     }
     else {
 	/*
@@ -464,22 +487,32 @@ monitor_signal_post_exec(int in_system, int reset)
 /*
  *  The action that monitor installs for sig.  It differs from what the
  *  kernel reports when another thread is between pre and post exec.
+ *  The caller holds the actions.
  */
 void
 monitor_signal_kernel_action(int sig, struct sigaction *act)
 {
     struct monitor_signal_entry *mse = &monitor_signal_array[sig];
-    sigset_t lock_set;
 
-    if (real_sigprocmask == NULL) {
-	/* Signals are not initialized yet. */
-	return;
-    }
-    MONITOR_SIGNAL_LOCK;
     if (mse->mse_exec_ign) {
 	*act = mse->mse_kern_act;
     }
-    MONITOR_SIGNAL_UNLOCK;
+}
+
+/*
+ *  Hold off other changes to the kernel's actions during system().
+ *  The caller has all signals blocked.
+ */
+void
+monitor_signal_hold_actions(void)
+{
+    spinlock_lock(&monitor_signal_lock);
+}
+
+void
+monitor_signal_release_actions(void)
+{
+    spinlock_unlock(&monitor_signal_lock);
 }
 
 /*
@@ -914,18 +947,11 @@ monitor_sigaction(int sig, monitor_sighandler_t *handler,
 void
 monitor_real_abort(void)
 {
-    struct sigaction action;
-
     MONITOR_DEBUG1("\n");
     MONITOR_GET_REAL_NAME_WRAP(real_sigaction, sigaction);
     MONITOR_GET_REAL_NAME_WRAP(real_sigprocmask, sigprocmask);
 
-    action.sa_handler = SIG_DFL;
-    action.sa_flags = 0;
-    sigemptyset(&action.sa_mask);
-    (*real_sigaction)(SIGABRT, &action, NULL);
-    (*real_sigprocmask)(SIG_SETMASK, &action.sa_mask, NULL);
-    raise(SIGABRT);
+    monitor_raise_default(SIGABRT);
 
     MONITOR_ERROR1("raise failed\n");
 }
-- 
2.43.0

