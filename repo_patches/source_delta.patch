From 1604e0820e8dfa48709a9e2603873da1d959570f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:29 +0000
Subject: [PATCH 01/26] fix: wrap _Exit in the static case

monitor-link did not wrap _Exit, so a statically linked program that
left by _Exit() got no process exit callbacks.
---
 configure    | 2 +-
 configure.ac | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/configure b/configure
index d61e8a1..8681949 100755
--- a/configure
+++ b/configure
@@ -13210,7 +13210,7 @@ ac_link='$CC -o conftest$ac_exeext $CFLAGS $CPPFLAGS $LDFLAGS conftest.$ac_ext $
 ac_compiler_gnu=$ac_cv_c_compiler_gnu
 
 
-wrap_list="main exit _exit"
+wrap_list="main exit _exit _Exit"
 
 
 #------------------------------------------------------------
diff --git a/configure.ac b/configure.ac
index 48a5592..a0b7ec1 100644
--- a/configure.ac
+++ b/configure.ac
@@ -71,7 +71,7 @@ AC_CANONICAL_HOST
 
 AC_LANG([C])
 
-AC_SUBST([wrap_list], ["main exit _exit"])
+AC_SUBST([wrap_list], ["main exit _exit _Exit"])
 
 #------------------------------------------------------------
 # SVN Revision
-- 
2.43.0


From 62cea71f10deed70a6e27de2718220169ca935f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:29 +0000
Subject: [PATCH 02/26] fix: end the process for SIGSEGV, SIGBUS, SIGILL sent
 by kill()

For a signal sent by kill(), raise() or sigqueue(), returning from the
handler does not repeat the fault, so the process continued running
after fini_process instead of terminating.
---
 src/signal.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/signal.c b/src/signal.c
index cfebacd..0b9c527 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -257,8 +257,11 @@ monitor_signal_handler(int sig, siginfo_t *info, void *context)
 	sigemptyset(&action.sa_mask);
 	(*real_sigaction)(sig, &action, NULL);
 	(*real_sigprocmask)(SIG_SETMASK, &action.sa_mask, NULL);
-	if (mse->mse_noraise) {
-	    /* For segv, etc, we just return. */
+	if (mse->mse_noraise && info->si_code > 0) {
+	    /*
+	     * For segv, etc, we just return and the fault repeats.
+	     * But a signal from kill(), raise(), etc won't repeat.
+	     */
 	    return;
 	}
 	raise(sig);
-- 
2.43.0


From 547e7b7fa4df50615469bbaee893c7050129a08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:29 +0000
Subject: [PATCH 03/26] fix: honour SA_RESETHAND for the application's handler

Monitor drops SA_RESETHAND from the kernel action but did not reset the
application's action itself, so a one-shot handler was never reset.
---
 src/signal.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/signal.c b/src/signal.c
index 0b9c527..616f0f4 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -268,12 +268,18 @@ monitor_signal_handler(int sig, siginfo_t *info, void *context)
     }
     else {
 	/*
-	 * Invoke the application's handler.
+	 * Invoke the application's handler.  We don't pass SA_RESETHAND
+	 * to the kernel (that would remove our handler), so we reset
+	 * the application's action here.
 	 */
-	if (sa->sa_flags & SA_SIGINFO) {
-	    (*sa->sa_sigaction)(sig, info, context);
+	action = *sa;
+	if (action.sa_flags & SA_RESETHAND) {
+	    sa->sa_handler = SIG_DFL;
+	}
+	if (action.sa_flags & SA_SIGINFO) {
+	    (*action.sa_sigaction)(sig, info, context);
 	} else {
-	    (*sa->sa_handler)(sig);
+	    (*action.sa_handler)(sig);
 	}
     }
 }
-- 
2.43.0


From d0f7a2b0284c5352b2b3fd17397707ef9d01ad3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:29 +0000
Subject: [PATCH 04/26] fix: search PATH in execvp as the real execvp does

With PATH unset, execvp() and execlp() crashed; a component too long
for the buffer overran it; the empty component (current directory) was
skipped, so fini_process was not called; and the empty file name was
taken to be executable.
---
 src/fork.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/fork.c b/src/fork.c
index a8a7260..4f5f48c 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -251,11 +251,12 @@ monitor_copy_va_args(char ***argv, char ***envp,
  */
 #define COLON  ":"
 #define SLASH  '/'
+#define DEFAULT_PATH  "/bin:/usr/bin"
 static int
 monitor_is_executable(const char *file)
 {
     char buf[PATH_MAX], *path;
-    int  file_len, path_len;
+    int  file_len, path_len, dir_len;
 
     if (file == NULL) {
 	MONITOR_DEBUG1("attempt to exec NULL path\n");
@@ -269,22 +270,34 @@ monitor_is_executable(const char *file)
 	return (access(file, X_OK) == 0);
 
     file_len = strlen(file);
+    if (file_len == 0)
+	return (0);
+
     path = getenv("PATH");
-    path += strspn(path, COLON);
-    while (*path != 0) {
+    if (path == NULL)
+	path = DEFAULT_PATH;
+
+    for (;;) {
 	path_len = strcspn(path, COLON);
 	if (path_len + file_len + 2 > PATH_MAX) {
 	    MONITOR_DEBUG("path length %d exceeds PATH_MAX %d\n",
 			  path_len + file_len + 2, PATH_MAX);
 	}
-	memcpy(buf, path, path_len);
-	buf[path_len] = SLASH;
-	memcpy(&buf[path_len + 1], file, file_len);
-	buf[path_len + 1 + file_len] = 0;
-	if (access(buf, X_OK) == 0)
-	    return (1);
+	else {
+	    /* An empty path component is the current directory. */
+	    dir_len = path_len;
+	    memcpy(buf, path, dir_len);
+	    if (dir_len > 0)
+		buf[dir_len++] = SLASH;
+	    memcpy(&buf[dir_len], file, file_len);
+	    buf[dir_len + file_len] = 0;
+	    if (access(buf, X_OK) == 0)
+		return (1);
+	}
 	path += path_len;
-	path += strspn(path, COLON);
+	if (*path == 0)
+	    break;
+	path++;
     }
 
     return (0);
-- 
2.43.0


From 96a4c044711244072b81a8de70f412e04351c978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:29 +0000
Subject: [PATCH 05/26] fix: don't read past a NULL first argument in execl

If the first argument is the terminating NULL, then the list ends there.
---
 src/fork.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fork.c b/src/fork.c
index 4f5f48c..f823989 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -218,9 +218,10 @@ monitor_copy_va_args(char ***argv, char ***envp,
     /*
      * Include the terminating NULL in the argv array.
      */
-    (*argv)[0] = (char *)first_arg;
+    arg = (char *)first_arg;
+    (*argv)[0] = arg;
     argc = 1;
-    do {
+    while (arg != NULL) {
 	arg = va_arg(arglist, char *);
 	if (argc >= size) {
 	    size *= 2;
@@ -233,7 +234,7 @@ monitor_copy_va_args(char ***argv, char ***envp,
 	    *argv = new_argv;
 	}
 	(*argv)[argc++] = arg;
-    } while (arg != NULL);
+    }
 
     if (envp != NULL) {
 	*envp = va_arg(arglist, char **);
-- 
2.43.0


From 6045947f5af1b036b37c6d0b2e39352a20456a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:29 +0000
Subject: [PATCH 06/26] fix: omit only LD_PRELOAD from the environment

monitor_real_system() and monitor_real_execve() also dropped variables
that merely contain the text LD_PRELOAD in their name or value.
---
 src/fork.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fork.c b/src/fork.c
index f823989..1bed0e1 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -188,7 +188,7 @@ monitor_copy_environ(char *const oldenv[])
     /* Copy old environ and omit LD_PRELOAD. */
     n = 0;
     for (k = 0; oldenv[k] != NULL; k++) {
-	if (strstr(oldenv[k], "LD_PRELOAD") == NULL) {
+	if (strncmp(oldenv[k], "LD_PRELOAD=", 11) != 0) {
 	    newenv[n] = oldenv[k];
 	    n++;
 	}
-- 
2.43.0


From 6f859482abef6319d34f294d434c565c5a8bb9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:29 +0000
Subject: [PATCH 07/26] fix: pass the pre-create data to
 monitor_thread_post_create

The new thread may already have replaced tn_user_data by the value from
monitor_init_thread(), or may have exited and cleared or freed its node.
---
 src/pthread.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pthread.c b/src/pthread.c
index 41a8a72..77a4a91 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -1166,7 +1166,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
 
     MONITOR_DEBUG("calling monitor_thread_post_create(start_routine = %p) ...\n",
 		  start_routine);
-    monitor_thread_post_create(tn->tn_user_data);
+    monitor_thread_post_create(user_data);
 
     /* The thread info struct's lifetime ends here. */
     if (my_tn != NULL) {
-- 
2.43.0


From fd306e91dd4b73d46dbaa8c81cb8a7839d78d244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:29 +0000
Subject: [PATCH 08/26] fix: restore the thread info when pthread_create
 returns

After launching an ignored thread, monitor_get_new_thread_info() went on
returning the dead stack variable.  Also, a pthread_create() from inside
a callback (client helper thread) lost the info of the outer call.
---
 src/pthread.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index 77a4a91..4b6cc39 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -1060,6 +1060,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
 {
     struct monitor_thread_node *tn, *my_tn;
     struct monitor_thread_info mti;
+    void *old_mti = NULL;
     pthread_attr_t default_attr;
     int ret, restore, destroy;
     size_t old_size;
@@ -1088,6 +1089,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
 
     my_tn = monitor_get_tn();
     if (my_tn != NULL) {
+	old_mti = my_tn->tn_thread_info;
 	my_tn->tn_thread_info = &mti;
     }
 
@@ -1104,7 +1106,11 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
      */
     if (my_tn == NULL || my_tn->tn_ignore_threads) {
 	MONITOR_DEBUG("launching ignored thread: start = %p\n", start_routine);
-	return (*real_pthread_create)(thread, attr, start_routine, arg);
+	ret = (*real_pthread_create)(thread, attr, start_routine, arg);
+	if (my_tn != NULL) {
+	    my_tn->tn_thread_info = old_mti;
+	}
+	return (ret);
     }
 
     /*
@@ -1131,7 +1137,11 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
      */
     if (user_data == MONITOR_IGNORE_NEW_THREAD) {
 	MONITOR_DEBUG("launching ignored thread: start = %p\n", start_routine);
-	return (*real_pthread_create)(thread, attr, start_routine, arg);
+	ret = (*real_pthread_create)(thread, attr, start_routine, arg);
+	if (my_tn != NULL) {
+	    my_tn->tn_thread_info = old_mti;
+	}
+	return (ret);
     }
 
     tn = monitor_make_thread_node();
@@ -1170,7 +1180,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
 
     /* The thread info struct's lifetime ends here. */
     if (my_tn != NULL) {
-        my_tn->tn_thread_info = NULL;
+        my_tn->tn_thread_info = old_mti;
     }
 
     return (ret);
-- 
2.43.0


From c179f4c6135cbaf15325e19e9b883f0370fcdaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:57 +0000
Subject: [PATCH 09/26] fix: reset the process exit state in the child after
 fork

If the parent had already begun process exit at the time of the fork
(from an exit handler or from another thread), then the child got an
init_process callback but never fini_process, it could not start new
threads, and it could even wait forever for the parent's thread to
finish.  Also, another thread may hold the thread list lock.
---
 src/main.c    | 2 ++
 src/pthread.c | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/main.c b/src/main.c
index 34f6708..5baa84f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -267,6 +267,8 @@ monitor_begin_process_fcn(void *user_data, int is_fork)
 	 */
 	monitor_reset_thread_list(&monitor_main_tn);
 	monitor_main_tn.tn_user_data = user_data;
+	monitor_main_tn.tn_exit_win = 0;
+	monitor_end_process_cookie = 0;
     }
     else if (val) {
 	/* If already called, then skip the init process callback.
diff --git a/src/pthread.c b/src/pthread.c
index 4b6cc39..895ecd1 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -349,9 +349,12 @@ monitor_reset_thread_list(struct monitor_thread_node *main_tn)
      * could leak memory, but only if the process spawns more than 150
      * threads before fork()ing.
      */
+    spinlock_unlock(&monitor_thread_lock);
     LIST_INIT(&monitor_thread_list);
     LIST_INIT(&monitor_free_list);
     monitor_tn_array_pos = 0;
+    monitor_in_exit_cleanup = 0;
+    monitor_fini_thread_done = 0;
     if ((*real_pthread_key_delete)(monitor_pthread_key) != 0) {
 	MONITOR_WARN1("pthread_key_delete failed\n");
     }	
-- 
2.43.0


From d441326d0aa8dd97e0d792a577c83cdf5433942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:57 +0000
Subject: [PATCH 10/26] fix: end of the forking thread is the end of the child
 process

When a non-main thread forks, it is the main thread in the child.  But
when it returned from its start routine there, its cleanup handler gave
a fini_thread callback for the thread node of the parent and there was
no fini_process callback.
---
 src/pthread.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pthread.c b/src/pthread.c
index 895ecd1..7366baa 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -907,6 +907,19 @@ static void
 monitor_pthread_cleanup_routine(void *arg)
 {
     struct monitor_thread_node *tn = arg;
+    struct monitor_thread_node *my_tn;
+
+    /*
+     * If this thread called fork(), then in the child process it is
+     * now the main thread and the end of the thread is the end of the
+     * process (same as pthread_exit() from main).  Note: arg is from
+     * the parent process and may have been reused.
+     */
+    my_tn = monitor_get_tn();
+    if (my_tn != NULL && my_tn->tn_is_main) {
+	monitor_end_process_fcn(MONITOR_EXIT_NORMAL);
+	return;
+    }
 
     if (tn == NULL) {
 	MONITOR_WARN1("unable to deliver monitor_fini_thread callback: "
-- 
2.43.0


From ac0db49c65b4a3741c6083a904dd1dbad2382e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:57 +0000
Subject: [PATCH 11/26] fix: don't let a thread be canceled inside its
 callbacks

A thread canceled inside monitor_fini_thread() left its node marked as
started but never done, and then process exit waited on it forever.  A
thread canceled inside monitor_init_thread() got no fini_thread.
---
 src/pthread.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pthread.c b/src/pthread.c
index 7366baa..5ef2bd6 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -908,6 +908,7 @@ monitor_pthread_cleanup_routine(void *arg)
 {
     struct monitor_thread_node *tn = arg;
     struct monitor_thread_node *my_tn;
+    int old_state;
 
     /*
      * If this thread called fork(), then in the child process it is
@@ -941,6 +942,7 @@ monitor_pthread_cleanup_routine(void *arg)
 	return;
     }
 
+    (*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
     tn->tn_fini_started = 1;
     MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
 		  tn->tn_user_data, tn->tn_tid);
@@ -948,6 +950,7 @@ monitor_pthread_cleanup_routine(void *arg)
     tn->tn_fini_done = 1;
 
     monitor_unlink_thread_node(tn);
+    (*real_pthread_setcancelstate)(old_state, NULL);
 }
 
 /*
@@ -959,6 +962,7 @@ monitor_begin_thread(void *arg)
 {
     struct monitor_thread_node *tn = arg;
     void *ret;
+    int old_state;
 
     MONITOR_ASM_LABEL(monitor_thread_fence1);
     MONITOR_DEBUG1("\n");
@@ -1000,9 +1004,11 @@ monitor_begin_thread(void *arg)
 		  tn->tn_tid, (void *)tn->tn_self, tn->tn_start_routine);
     MONITOR_DEBUG("calling monitor_init_thread(tid = %d, data = %p) ...\n",
 		  tn->tn_tid, tn->tn_user_data);
+    (*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
     tn->tn_user_data = monitor_init_thread(tn->tn_tid, tn->tn_user_data);
 
     tn->tn_appl_started = 1;
+    (*real_pthread_setcancelstate)(old_state, NULL);
     MONITOR_ASM_LABEL(monitor_thread_fence2);
     ret = (tn->tn_start_routine)(tn->tn_arg);
     MONITOR_ASM_LABEL(monitor_thread_fence3);
-- 
2.43.0


From c29c35e3e1166a83476499a5318b73bc2ad17c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:45 +0000
Subject: [PATCH 12/26] fix: no dlopen callbacks for the internal symbol search

When a symbol is found only by scanning the loaded objects (MPI loaded
by dlopen with RTLD_LOCAL), the scan itself went through the dlopen and
dlclose overrides and gave the client callbacks for calls that the
application never made.
---
 src/common.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/common.c b/src/common.c
index 43f2ace..ce692ee 100644
--- a/src/common.c
+++ b/src/common.c
@@ -43,6 +43,14 @@
 #include <link.h>
 #include <stdbool.h>
 
+#ifdef MONITOR_USE_DLOPEN
+#define REAL_DLOPEN   monitor_real_dlopen
+#define REAL_DLCLOSE  monitor_real_dlclose
+#else
+#define REAL_DLOPEN   dlopen
+#define REAL_DLCLOSE  dlclose
+#endif
+
 struct callback_data {
     const char* symbol;
     bool skip;
@@ -61,8 +69,9 @@ static int phdr_callback(struct dl_phdr_info *info, size_t sz, void *data_v) {
         return 0;
     }
 
-    // Call dlopen to stabilize a handle for our use
-    void *this = dlopen(info->dlpi_name, RTLD_LAZY | RTLD_NOLOAD | RTLD_LOCAL);
+    // Call dlopen to stabilize a handle for our use. This is not an application
+    // call, so bypass our own override (no client callbacks).
+    void *this = REAL_DLOPEN(info->dlpi_name, RTLD_LAZY | RTLD_NOLOAD | RTLD_LOCAL);
     if (this == NULL) {
         MONITOR_DEBUG("dlopen failed on object: %s\n", info->dlpi_name);
         return 0;
@@ -71,7 +80,7 @@ static int phdr_callback(struct dl_phdr_info *info, size_t sz, void *data_v) {
     // Poke it and see if we can find the symbol we want. Stop if we found it,
     // otherwise continue the scan.
     data->result = dlsym(this, data->symbol);
-    dlclose(this);
+    REAL_DLCLOSE(this);
     return data->result == NULL ? 0 : 1;
 }
 
-- 
2.43.0


From 3bbf1a48577850ecea6a34db95245ceb0e03fbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:01 +0000
Subject: [PATCH 13/26] fix: forget the thread node when it is freed

After its fini_thread callback, a thread's node goes on the free list and
may be given to a new thread, but the old thread's pthread key still
pointed to it.  If the old thread was still running destructors for the
application's thread-specific data, then it saw the identity and user
data of the new thread (or a bad magic warning).
---
 src/pthread.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pthread.c b/src/pthread.c
index 5ef2bd6..bfd5250 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -434,6 +434,12 @@ monitor_unlink_thread_node(struct monitor_thread_node *tn)
 	tn->tn_fini_started = 1;
 	tn->tn_fini_done = 1;
     } else {
+	/*
+	 * The node may be reused as soon as it's on the free list, but
+	 * this thread may still run application code (destructors for
+	 * thread-specific data), so don't leave a pointer to it.
+	 */
+	(*real_pthread_setspecific)(monitor_pthread_key, NULL);
 	LIST_REMOVE(tn, tn_links);
 	memset(tn, 0, sizeof(struct monitor_thread_node));
 	LIST_INSERT_HEAD(&monitor_free_list, tn, tn_links);
-- 
2.43.0


From 0aff4e858117ed932a1e71e6d7b329ea14e5e727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:54 +0000
Subject: [PATCH 14/26] fix: claim the fini_thread callback atomically

A thread that was ending (or in sigwait) while another thread called
exit() could run monitor_fini_thread() twice: the shootdown handler could
run between the cleanup routine's test and set of tn_fini_started.
---
 src/pthread.c   | 24 +++++++++++++++++-------
 src/pthread_h.h |  2 +-
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index bfd5250..b32cfc4 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -71,6 +71,7 @@
 #include <ucontext.h>
 #include <unistd.h>
 
+#include "atomic.h"
 #include "common.h"
 #include "monitor.h"
 #include "pthread_h.h"
@@ -475,7 +476,11 @@ monitor_shootdown_handler(int sig)
     }
 
     (*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
-    tn->tn_fini_started = 1;
+    if (compare_and_swap(&tn->tn_fini_started, 0, 1) != 0) {
+	/* Lost a race between the end of the thread and shootdown. */
+	(*real_pthread_setcancelstate)(old_state, NULL);
+	return;
+    }
     MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
 		  tn->tn_user_data, tn->tn_tid);
     monitor_fini_thread(tn->tn_user_data);
@@ -949,7 +954,11 @@ monitor_pthread_cleanup_routine(void *arg)
     }
 
     (*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
-    tn->tn_fini_started = 1;
+    if (compare_and_swap(&tn->tn_fini_started, 0, 1) != 0) {
+	/* Lost a race between the end of the thread and shootdown. */
+	(*real_pthread_setcancelstate)(old_state, NULL);
+	return;
+    }
     MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
 		  tn->tn_user_data, tn->tn_tid);
     monitor_fini_thread(tn->tn_user_data);
@@ -1300,11 +1309,12 @@ monitor_sigwait_helper(const sigset_t *set, int sig, int sigwait_errno,
 	&& !tn->tn_block_shootdown)
     {
 	(*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
-	tn->tn_fini_started = 1;
-	MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
-		      tn->tn_user_data, tn->tn_tid);
-	monitor_fini_thread(tn->tn_user_data);
-	tn->tn_fini_done = 1;
+	if (compare_and_swap(&tn->tn_fini_started, 0, 1) == 0) {
+	    MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
+			  tn->tn_user_data, tn->tn_tid);
+	    monitor_fini_thread(tn->tn_user_data);
+	    tn->tn_fini_done = 1;
+	}
 	(*real_pthread_setcancelstate)(old_state, NULL);
 
 	return 1;
diff --git a/src/pthread_h.h b/src/pthread_h.h
index c749593..58e4016 100644
--- a/src/pthread_h.h
+++ b/src/pthread_h.h
@@ -66,7 +66,7 @@ struct monitor_thread_node {
     char   tn_is_main;
     char   tn_ignore_threads;
     volatile char  tn_appl_started;
-    volatile char  tn_fini_started;
+    volatile long  tn_fini_started;
     volatile char  tn_fini_done;
     volatile char  tn_exit_win;
     volatile char  tn_block_shootdown;
-- 
2.43.0


From 203782ff506a7a4bcf5a475db0b3d3cb73e6bbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:39 +0000
Subject: [PATCH 15/26] fix: hold off cancellation of a blocked thread during
 fini_thread

If a thread is canceled from inside a blocking cancellation point, libc
has it in async type and libc's cancel handler ignores the cancel state.
So, such a thread could be canceled between claiming fini_thread and
running it, and process exit would then wait forever.
---
 src/pthread.c | 51 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index b32cfc4..33333dd 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -128,6 +128,7 @@ typedef int   pthread_setspecific_fcn_t(pthread_key_t, const void *);
 typedef void  pthread_cleanup_push_fcn_t(void (*)(void *), void *);
 typedef void  pthread_cleanup_pop_fcn_t(int);
 typedef int   pthread_setcancelstate_fcn_t(int, int *);
+typedef int   pthread_setcanceltype_fcn_t(int, int *);
 typedef int   sigaction_fcn_t(int, const struct sigaction *,
 			      struct sigaction *);
 typedef int   sigprocmask_fcn_t(int, const sigset_t *, sigset_t *);
@@ -163,6 +164,7 @@ static pthread_setspecific_fcn_t  *real_pthread_setspecific;
 static pthread_cleanup_push_fcn_t  *real_pthread_cleanup_push;
 static pthread_cleanup_pop_fcn_t   *real_pthread_cleanup_pop;
 static pthread_setcancelstate_fcn_t  *real_pthread_setcancelstate;
+static pthread_setcanceltype_fcn_t   *real_pthread_setcanceltype;
 static sigaction_fcn_t    *real_sigaction;
 static sigprocmask_fcn_t  *real_pthread_sigmask;
 static sigwaitinfo_fcn_t  *real_sigwaitinfo;
@@ -262,6 +264,7 @@ monitor_thread_name_init(void)
     MONITOR_GET_REAL_NAME(real_pthread_cleanup_pop,  pthread_cleanup_pop);
 #endif
     MONITOR_GET_REAL_NAME(real_pthread_setcancelstate, pthread_setcancelstate);
+    MONITOR_GET_REAL_NAME(real_pthread_setcanceltype, pthread_setcanceltype);
 #ifdef MONITOR_USE_SIGNALS
     MONITOR_GET_REAL_NAME_WRAP(real_sigaction, sigaction);
     MONITOR_GET_REAL_NAME_WRAP(real_pthread_sigmask, pthread_sigmask);
@@ -448,11 +451,31 @@ monitor_unlink_thread_node(struct monitor_thread_node *tn)
     MONITOR_THREAD_UNLOCK;
 }
 
+/*
+ *  Disable cancellation for the fini-thread callback.  Note: if we
+ *  interrupted a blocking cancellation point (poll, pause, etc), then
+ *  libc has the thread in async type, and its cancel handler tests
+ *  only the type and not the state, so we need to change both.
+ */
+static void
+monitor_cancel_disable(int *old_state, int *old_type)
+{
+    (*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, old_state);
+    (*real_pthread_setcanceltype)(PTHREAD_CANCEL_DEFERRED, old_type);
+}
+
+static void
+monitor_cancel_restore(int old_state, int old_type)
+{
+    (*real_pthread_setcancelstate)(old_state, NULL);
+    (*real_pthread_setcanceltype)(old_type, NULL);
+}
+
 static void
 monitor_shootdown_handler(int sig)
 {
     struct monitor_thread_node *tn;
-    int old_state;
+    int old_state, old_type;
 
     tn = (*real_pthread_getspecific)(monitor_pthread_key);
     if (tn == NULL) {
@@ -475,17 +498,17 @@ monitor_shootdown_handler(int sig)
 	return;
     }
 
-    (*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
+    monitor_cancel_disable(&old_state, &old_type);
     if (compare_and_swap(&tn->tn_fini_started, 0, 1) != 0) {
 	/* Lost a race between the end of the thread and shootdown. */
-	(*real_pthread_setcancelstate)(old_state, NULL);
+	monitor_cancel_restore(old_state, old_type);
 	return;
     }
     MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
 		  tn->tn_user_data, tn->tn_tid);
     monitor_fini_thread(tn->tn_user_data);
     tn->tn_fini_done = 1;
-    (*real_pthread_setcancelstate)(old_state, NULL);
+    monitor_cancel_restore(old_state, old_type);
 }
 
 #if 0
@@ -531,14 +554,14 @@ monitor_thread_shootdown(void)
     sigset_t empty_set;
     pthread_t self;
     int num_started, num_unstarted, last_started;
-    int num_finished, num_unfinished, old_state;
+    int num_finished, num_unfinished, old_state, old_type;
 
     if (! monitor_has_used_threads) {
 	MONITOR_DEBUG1("(no threads)\n");
 	return;
     }
 
-    (*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
+    monitor_cancel_disable(&old_state, &old_type);
 
     MONITOR_THREAD_LOCK;
     monitor_in_exit_cleanup = 1;
@@ -643,7 +666,7 @@ monitor_thread_shootdown(void)
 	my_tn->tn_fini_done = 1;
     }
 
-    (*real_pthread_setcancelstate)(old_state, NULL);
+    monitor_cancel_restore(old_state, old_type);
 }
 
 /*
@@ -919,7 +942,7 @@ monitor_pthread_cleanup_routine(void *arg)
 {
     struct monitor_thread_node *tn = arg;
     struct monitor_thread_node *my_tn;
-    int old_state;
+    int old_state, old_type;
 
     /*
      * If this thread called fork(), then in the child process it is
@@ -953,10 +976,10 @@ monitor_pthread_cleanup_routine(void *arg)
 	return;
     }
 
-    (*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
+    monitor_cancel_disable(&old_state, &old_type);
     if (compare_and_swap(&tn->tn_fini_started, 0, 1) != 0) {
 	/* Lost a race between the end of the thread and shootdown. */
-	(*real_pthread_setcancelstate)(old_state, NULL);
+	monitor_cancel_restore(old_state, old_type);
 	return;
     }
     MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
@@ -965,7 +988,7 @@ monitor_pthread_cleanup_routine(void *arg)
     tn->tn_fini_done = 1;
 
     monitor_unlink_thread_node(tn);
-    (*real_pthread_setcancelstate)(old_state, NULL);
+    monitor_cancel_restore(old_state, old_type);
 }
 
 /*
@@ -1286,7 +1309,7 @@ monitor_sigwait_helper(const sigset_t *set, int sig, int sigwait_errno,
 		       siginfo_t *info, ucontext_t *context)
 {
     struct monitor_thread_node *tn;
-    int old_state;
+    int old_state, old_type;
 
     /*
      * If sigwaitinfo() returned an error, we restart EINTR and pass
@@ -1308,14 +1331,14 @@ monitor_sigwait_helper(const sigset_t *set, int sig, int sigwait_errno,
 	&& !tn->tn_fini_started
 	&& !tn->tn_block_shootdown)
     {
-	(*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
+	monitor_cancel_disable(&old_state, &old_type);
 	if (compare_and_swap(&tn->tn_fini_started, 0, 1) == 0) {
 	    MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
 			  tn->tn_user_data, tn->tn_tid);
 	    monitor_fini_thread(tn->tn_user_data);
 	    tn->tn_fini_done = 1;
 	}
-	(*real_pthread_setcancelstate)(old_state, NULL);
+	monitor_cancel_restore(old_state, old_type);
 
 	return 1;
     }
-- 
2.43.0


From f4d2fef19a941e01fd4f2d2fe0fdeaf0ba5b3ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:45 +0000
Subject: [PATCH 16/26] fix: children of a process that ignores SIGCHLD are not
 zombies

The kernel sees our handler and not SIG_IGN, so it kept children as
zombies and wait() and system() behaved differently.
---
 src/signal.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/signal.c b/src/signal.c
index 616f0f4..38901b5 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -152,6 +152,7 @@ static int last_resort_signal = SIGWINCH;
 static int shootdown_signal = -1;
 
 static void monitor_choose_shootdown_early(void);
+static inline int monitor_extra_saflags(int);
 static inline int monitor_adjust_samask(sigset_t *);
 
 /*
@@ -343,6 +344,10 @@ monitor_signal_init(void)
 	    ret = (*real_sigaction)(sig, sa, &mse->mse_appl_act);
 	    if (ret == 0) {
 		num_valid++;
+		if (monitor_extra_saflags(sig) != 0) {
+		    sa->sa_flags |= monitor_extra_saflags(sig);
+		    (*real_sigaction)(sig, sa, NULL);
+		}
 	    } else {
 		mse->mse_invalid = 1;
 		num_invalid++;
@@ -732,6 +737,18 @@ monitor_adjust_saflags(int flags)
     return (flags | SAFLAGS_REQUIRED) & ~(SAFLAGS_FORBIDDEN);
 }
 
+/*
+ *  Ignoring SIGCHLD also means that children don't become zombies,
+ *  but the kernel only sees our handler, so we need to ask for this.
+ */
+static inline int
+monitor_extra_saflags(int sig)
+{
+    return (sig == SIGCHLD &&
+	    monitor_signal_array[sig].mse_appl_act.sa_handler == SIG_IGN)
+	? SA_NOCLDWAIT : 0;
+}
+
 /*
  *  Adjust sa_mask to block the shootdown signal, so we don't call
  *  fini-thread from inside another handler.  This is only for calls
@@ -772,7 +789,8 @@ monitor_sigaction(int sig, monitor_sighandler_t *handler,
     mse->mse_client_handler = handler;
     mse->mse_client_flags = flags;
     if (act != NULL) {
-	mse->mse_kern_act.sa_flags = monitor_adjust_saflags(act->sa_flags);
+	mse->mse_kern_act.sa_flags = monitor_adjust_saflags(act->sa_flags)
+	    | monitor_extra_saflags(sig);
 	mse->mse_kern_act.sa_mask = act->sa_mask;
 	monitor_adjust_samask(&mse->mse_kern_act.sa_mask);
 	(*real_sigaction)(sig, &mse->mse_kern_act, NULL);
@@ -860,7 +878,8 @@ monitor_appl_sigaction(int sig, const struct sigaction *act,
 	 * monitor's needs.
 	 */
 	mse->mse_appl_act = *act;
-	mse->mse_kern_act.sa_flags = monitor_adjust_saflags(act->sa_flags);
+	mse->mse_kern_act.sa_flags = monitor_adjust_saflags(act->sa_flags)
+	    | monitor_extra_saflags(sig);
 	mse->mse_kern_act.sa_mask = act->sa_mask;
 	monitor_remove_client_signals(&mse->mse_kern_act.sa_mask, SIG_BLOCK);
 	monitor_adjust_samask(&mse->mse_kern_act.sa_mask);
-- 
2.43.0


From 161f958264e54204df3f1affc183bbfe1daf859d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:39 +0000
Subject: [PATCH 17/26] fix: refuse a shootdown signal that the system doesn't
 allow

MONITOR_SHOOTDOWN_SIGNAL was tested against mse_invalid before that was
computed, so 32 and 33 were accepted and process exit failed.
---
 src/signal.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/signal.c b/src/signal.c
index 38901b5..ca21658 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -322,6 +322,18 @@ monitor_signal_init(void)
 	}
     }
 
+    /*
+     * Identify the invalid signals (eg, ones used by libc) before
+     * choosing the shootdown signal.
+     */
+    for (sig = 1; sig < MONITOR_NSIG; sig++) {
+	mse = &monitor_signal_array[sig];
+	if (!mse->mse_avoid
+	    && (*real_sigaction)(sig, NULL, &mse->mse_appl_act) != 0) {
+	    mse->mse_invalid = 1;
+	}
+    }
+
     monitor_choose_shootdown_early();
     monitor_signal_array[shootdown_signal].mse_keep_open = 1;
 
-- 
2.43.0


From e2de6c1bd53fbc508eaea09ca22e1569e0c62c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:26 +0000
Subject: [PATCH 18/26] fix: run the shell under the name sh in system()

The standard (and libc) pass "sh" as argv[0], which commands see as $0.
---
 src/fork.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fork.c b/src/fork.c
index 1bed0e1..dee144c 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -534,6 +534,7 @@ MONITOR_WRAP_NAME(execve)(const char *path, char *const argv[],
  *  syscall for fork, thus bypassing our override.
  */
 #define SHELL  "/bin/sh"
+#define SHELL_ARG0  "sh"
 static int
 monitor_system(const char *command, int callback)
 {
@@ -586,7 +587,7 @@ monitor_system(const char *command, int callback)
 	(*real_sigaction)(SIGINT, &old_int, NULL);
 	(*real_sigaction)(SIGQUIT, &old_quit, NULL);
 	(*real_sigprocmask)(SIG_SETMASK, &old_set, NULL);
-	arglist[0] = SHELL;
+	arglist[0] = SHELL_ARG0;
 	arglist[1] = "-c";
 	arglist[2] = (char *)command;
 	arglist[3] = NULL;
-- 
2.43.0


From 777ce97f7d8152d182259a2da8fdd876df87ab9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:20 +0000
Subject: [PATCH 19/26] fix: unblock only the fatal signal before raising it
 again

The default action of a fatal signal (and monitor_real_abort) cleared
the whole signal mask before raise(), so that another blocked and
pending signal was delivered first: the application's handler ran after
fini_process, or the process died of the wrong signal.
---
 src/signal.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/signal.c b/src/signal.c
index ca21658..0e30ff1 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -257,7 +257,11 @@ monitor_signal_handler(int sig, siginfo_t *info, void *context)
 	action.sa_flags = 0;
 	sigemptyset(&action.sa_mask);
 	(*real_sigaction)(sig, &action, NULL);
-	(*real_sigprocmask)(SIG_SETMASK, &action.sa_mask, NULL);
+	/*
+	 * Only unblock this signal, some other signal may be pending.
+	 */
+	sigaddset(&action.sa_mask, sig);
+	(*real_sigprocmask)(SIG_UNBLOCK, &action.sa_mask, NULL);
 	if (mse->mse_noraise && info->si_code > 0) {
 	    /*
 	     * For segv, etc, we just return and the fault repeats.
@@ -813,7 +817,8 @@ monitor_sigaction(int sig, monitor_sighandler_t *handler,
 
 /*
  *  Client function for generating a core file.  Reset the default
- *  signal handler, clear the signal mask and raise SIGABRT.
+ *  signal handler, unblock SIGABRT (but not some other signal that may
+ *  be pending) and raise SIGABRT.
  */
 void
 monitor_real_abort(void)
@@ -828,7 +833,8 @@ monitor_real_abort(void)
     action.sa_flags = 0;
     sigemptyset(&action.sa_mask);
     (*real_sigaction)(SIGABRT, &action, NULL);
-    (*real_sigprocmask)(SIG_SETMASK, &action.sa_mask, NULL);
+    sigaddset(&action.sa_mask, SIGABRT);
+    (*real_sigprocmask)(SIG_UNBLOCK, &action.sa_mask, NULL);
     raise(SIGABRT);
 
     MONITOR_ERROR1("raise failed\n");
-- 
2.43.0


From 3f2e9febf242774d50e10bf5ad73e5eb9d38cbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:31 +0000
Subject: [PATCH 20/26] fix: keep the repeated exit signal from the
 application's sigwait

At process exit the shootdown signal is sent again until the thread has
begun its fini-thread callback, and a realtime signal queues.  A thread
waiting in sigwait for that signal took the second one as its own.
---
 src/pthread.c | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index 33333dd..8f6a968 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -1320,26 +1320,27 @@ monitor_sigwait_helper(const sigset_t *set, int sig, int sigwait_errno,
     }
 
     /*
-     * End of process shootdown signal.
+     * End of process shootdown signal.  Note: we may get this more
+     * than once (it's sent repeatedly until fini-thread begins), but
+     * it's never for the application.
      */
-    tn = monitor_get_tn();
-    if (sig == shootdown_signal
-	&& monitor_in_exit_cleanup
-	&& !monitor_fini_thread_done
-	&& tn != NULL
-	&& tn->tn_appl_started
-	&& !tn->tn_fini_started
-	&& !tn->tn_block_shootdown)
-    {
-	monitor_cancel_disable(&old_state, &old_type);
-	if (compare_and_swap(&tn->tn_fini_started, 0, 1) == 0) {
-	    MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
-			  tn->tn_user_data, tn->tn_tid);
-	    monitor_fini_thread(tn->tn_user_data);
-	    tn->tn_fini_done = 1;
+    if (sig == shootdown_signal && monitor_in_exit_cleanup) {
+	tn = monitor_get_tn();
+	if (!monitor_fini_thread_done
+	    && tn != NULL
+	    && tn->tn_appl_started
+	    && !tn->tn_fini_started
+	    && !tn->tn_block_shootdown)
+	{
+	    monitor_cancel_disable(&old_state, &old_type);
+	    if (compare_and_swap(&tn->tn_fini_started, 0, 1) == 0) {
+		MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
+			      tn->tn_user_data, tn->tn_tid);
+		monitor_fini_thread(tn->tn_user_data);
+		tn->tn_fini_done = 1;
+	    }
+	    monitor_cancel_restore(old_state, old_type);
 	}
-	monitor_cancel_restore(old_state, old_type);
-
 	return 1;
     }
 
-- 
2.43.0


From 853b65d255e20951139875c72a59f04f8d8e60a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:10 +0000
Subject: [PATCH 21/26] fix: ignore the result of a failed MPI_Comm_rank

When the rank query fails, the rank argument is not set, and the first
call fixed the size and rank that the client sees for good.
---
 src/mpi_comm_c.c  | 4 +++-
 src/mpi_comm_f0.c | 4 +++-
 src/mpi_comm_f1.c | 4 +++-
 src/mpi_comm_f2.c | 4 +++-
 src/pmpi.c        | 8 ++++++--
 5 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/mpi_comm_c.c b/src/mpi_comm_c.c
index f49b57c..59eb965 100644
--- a/src/mpi_comm_c.c
+++ b/src/mpi_comm_c.c
@@ -34,7 +34,9 @@ MONITOR_WRAP_NAME(MPI_Comm_rank)(void *comm, int *rank)
     MONITOR_GET_REAL_NAME_WRAP(real_mpi_comm_rank, MPI_Comm_rank);
     ret = (*real_mpi_comm_size)(comm, &size);
     ret = (*real_mpi_comm_rank)(comm, rank);
-    monitor_set_mpi_size_rank(size, *rank);
+    if (ret == 0) {
+	monitor_set_mpi_size_rank(size, *rank);
+    }
 
     return (ret);
 }
diff --git a/src/mpi_comm_f0.c b/src/mpi_comm_f0.c
index 4ac1e7e..91b75f5 100644
--- a/src/mpi_comm_f0.c
+++ b/src/mpi_comm_f0.c
@@ -33,5 +33,7 @@ MONITOR_WRAP_NAME(mpi_comm_rank)(int *comm, int *rank, int *ierror)
     MONITOR_GET_REAL_NAME_WRAP(real_mpi_comm_rank, mpi_comm_rank);
     (*real_mpi_comm_size)(comm, &size, ierror);
     (*real_mpi_comm_rank)(comm, rank, ierror);
-    monitor_set_mpi_size_rank(size, *rank);
+    if (*ierror == 0) {
+	monitor_set_mpi_size_rank(size, *rank);
+    }
 }
diff --git a/src/mpi_comm_f1.c b/src/mpi_comm_f1.c
index 0f72a20..9ce49f8 100644
--- a/src/mpi_comm_f1.c
+++ b/src/mpi_comm_f1.c
@@ -33,5 +33,7 @@ MONITOR_WRAP_NAME(mpi_comm_rank_)(int *comm, int *rank, int *ierror)
     MONITOR_GET_REAL_NAME_WRAP(real_mpi_comm_rank, mpi_comm_rank_);
     (*real_mpi_comm_size)(comm, &size, ierror);
     (*real_mpi_comm_rank)(comm, rank, ierror);
-    monitor_set_mpi_size_rank(size, *rank);
+    if (*ierror == 0) {
+	monitor_set_mpi_size_rank(size, *rank);
+    }
 }
diff --git a/src/mpi_comm_f2.c b/src/mpi_comm_f2.c
index e47cffe..63350a6 100644
--- a/src/mpi_comm_f2.c
+++ b/src/mpi_comm_f2.c
@@ -33,5 +33,7 @@ MONITOR_WRAP_NAME(mpi_comm_rank__)(int *comm, int *rank, int *ierror)
     MONITOR_GET_REAL_NAME_WRAP(real_mpi_comm_rank, mpi_comm_rank__);
     (*real_mpi_comm_size)(comm, &size, ierror);
     (*real_mpi_comm_rank)(comm, rank, ierror);
-    monitor_set_mpi_size_rank(size, *rank);
+    if (*ierror == 0) {
+	monitor_set_mpi_size_rank(size, *rank);
+    }
 }
diff --git a/src/pmpi.c b/src/pmpi.c
index a2f3625..9150021 100644
--- a/src/pmpi.c
+++ b/src/pmpi.c
@@ -296,7 +296,9 @@ MONITOR_WRAP_NAME(PMPI_Comm_rank)(void *comm, int *rank)
     MONITOR_GET_REAL_NAME_WRAP(real_pmpi_comm_rank, PMPI_Comm_rank);
     ret = (*real_pmpi_comm_size)(comm, &size);
     ret = (*real_pmpi_comm_rank)(comm, rank);
-    monitor_set_mpi_size_rank(size, *rank);
+    if (ret == 0) {
+	monitor_set_mpi_size_rank(size, *rank);
+    }
 
     return (ret);
 }
@@ -308,7 +310,9 @@ MONITOR_WRAP_NAME(PMPI_Comm_rank)(void *comm, int *rank)
     MONITOR_GET_REAL_NAME_WRAP(rank_var, rank_fcn);	\
     (*size_var)(comm, &size, ierror);			\
     (*rank_var)(comm, rank, ierror);			\
-    monitor_set_mpi_size_rank(size, *rank);
+    if (*ierror == 0) {					\
+	monitor_set_mpi_size_rank(size, *rank);		\
+    }
 
 /*
  * In Fortran, MPI_Comm is always int.
-- 
2.43.0


From 45089d19c877dbde0a9313261c3f3888a4d332bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:03 +0000
Subject: [PATCH 22/26] fix: do not write to a signal string buffer of size
 zero

monitor_sigset_string() and monitor_signal_list_string() stored a null
byte even when the buffer has no room for it.
---
 src/utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index 10f4639..21f8f60 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -54,7 +54,7 @@ monitor_sigset_string(char *buf, int size, const sigset_t *set)
     int sig, first, pos, prev, num_sigs;
 
     /* Unusual special cases, should never happen. */
-    if (buf == NULL) {
+    if (buf == NULL || size < 1) {
 	return -1;
     }
     buf[0] = 0;
@@ -107,7 +107,7 @@ monitor_signal_list_string(char *buf, int size, int *list)
     int k, sig, first, pos, prev, num_sigs;
 
     /* Unusual special cases, should never happen. */
-    if (buf == NULL) {
+    if (buf == NULL || size < 1) {
 	return -1;
     }
     buf[0] = 0;
-- 
2.43.0


From dcb3df3af0942fc3ea184102b3d1a3ecc088eb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:48 +0000
Subject: [PATCH 23/26] fix: do not give up on the exit sweep while a
 fini_thread callback is running

The sweep's timeout ends it when no further thread answers the signal
for ten seconds.  But if another thread is inside its (long) fini_thread
callback at that time, then fini_process starts before that callback has
finished.  The callback can take as long as it likes, so wait for it.
---
 src/pthread.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pthread.c b/src/pthread.c
index 8f6a968..dbb2abe 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -645,7 +645,8 @@ monitor_thread_shootdown(void)
 	    last = now;
 	    last_started = num_started;
 	} else if (now.tv_sec > last.tv_sec + MONITOR_SHOOTDOWN_TIMEOUT
-		   && num_unstarted > 0) {
+		   && num_unstarted > 0
+		   && num_unfinished == num_unstarted) {
 	    MONITOR_WARN("timeout exceeded (%d): unable to deliver "
 			 "monitor_fini_thread() to %d threads\n",
 			 MONITOR_SHOOTDOWN_TIMEOUT, num_unstarted);
-- 
2.43.0


From 918be88f5d470736327740feddb4f5d6d5d9844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:39 +0000
Subject: [PATCH 24/26] fix: monitor-run must not change the application's
 environment variables

monitor-run used variables named prefix, exec_prefix, libdir, libmonitor,
file and preload_files.  If the environment has one of these, then it is
exported and the application sees the script's value.
---
 src/monitor-run.in | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/monitor-run.in b/src/monitor-run.in
index c22ac3a..4729317 100644
--- a/src/monitor-run.in
+++ b/src/monitor-run.in
@@ -21,13 +21,18 @@
 #  $Id$
 #
 
-prefix="@prefix@"
-exec_prefix="@exec_prefix@"
-libdir="@libdir@"
-libmonitor="${libdir}/libmonitor.so"
+# Find the library in a subshell and use distinctive names for our own
+# variables, the application may have variables such as 'prefix' or
+# 'file' in its environment.
+monitor_run_lib=`
+    prefix="@prefix@"
+    exec_prefix="@exec_prefix@"
+    libdir="@libdir@"
+    echo "${libdir}/libmonitor.so"
+`
 
 # Colon-separated list of extra path names for LD_PRELOAD.
-preload_files=
+monitor_run_preload=
 
 die()
 {
@@ -71,11 +76,11 @@ do
 	    # LD_PRELOAD prefers absolute path.
 	    test "x$2" != x || die "missing argument: $*"
 	    case "$2" in
-		/* )  file="$2" ;;
-		* )   file="`pwd`/$2" ;;
+		/* )  monitor_run_file="$2" ;;
+		* )   monitor_run_file="`pwd`/$2" ;;
 	    esac
-	    test -f "$file" || die "unable to find: $file"
-	    preload_files="${preload_files}:${file}"
+	    test -f "$monitor_run_file" || die "unable to find: $monitor_run_file"
+	    monitor_run_preload="${monitor_run_preload}:${monitor_run_file}"
 	    shift ; shift
 	    ;;
 
@@ -99,8 +104,8 @@ done
 #
 test "x$1" != x || usage
 
-test -f "$libmonitor" || die "unable to find: $libmonitor"
-LD_PRELOAD="${preload_files}:${libmonitor}:${LD_PRELOAD}"
+test -f "$monitor_run_lib" || die "unable to find: $monitor_run_lib"
+LD_PRELOAD="${monitor_run_preload}:${monitor_run_lib}:${LD_PRELOAD}"
 export LD_PRELOAD
 
 exec "$@"
-- 
2.43.0


From 2034fe5ea6ac581d79d931418e236f8fd9967769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:00 +0000
Subject: [PATCH 25/26] fix: hold off cancellation during the process exit
 callbacks

---
 src/common.h  |  2 ++
 src/main.c    | 19 +++++++++++++++++++
 src/pthread.c | 21 +++++++++++++++++++++
 3 files changed, 42 insertions(+)

diff --git a/src/common.h b/src/common.h
index 2ad0573..595b868 100644
--- a/src/common.h
+++ b/src/common.h
@@ -172,6 +172,8 @@ void monitor_begin_process_fcn(void *, int);
 void monitor_end_process_fcn(int);
 void monitor_end_library_fcn(void);
 void monitor_thread_shootdown(void);
+void monitor_exit_cancel_disable(int *, int *);
+void monitor_exit_cancel_restore(int, int);
 int  monitor_shootdown_signal(void);
 int  monitor_sigwait_handler(int, siginfo_t *, void *);
 void monitor_remove_client_signals(sigset_t *, int);
diff --git a/src/main.c b/src/main.c
index 5baa84f..4c56111 100644
--- a/src/main.c
+++ b/src/main.c
@@ -240,12 +240,16 @@ monitor_begin_library_fcn(void)
 void
 monitor_end_library_fcn(void)
 {
+    int old_state = -1, old_type = -1;
+
     if (monitor_fini_library_called)
 	return;
 
+    monitor_exit_cancel_disable(&old_state, &old_type);
     MONITOR_DEBUG1("calling monitor_fini_library() ...\n");
     monitor_fini_library();
     monitor_fini_library_called = 1;
+    monitor_exit_cancel_restore(old_state, old_type);
 }
 
 /*
@@ -303,8 +307,10 @@ void
 monitor_end_process_fcn(int how)
 {
     struct monitor_thread_node *tn = monitor_get_tn();
+    int old_state = -1, old_type = -1;
     long prev;
 
+    monitor_exit_cancel_disable(&old_state, &old_type);
     prev = compare_and_swap(&monitor_end_process_cookie, 0, 1);
     if (prev == 0) {
 	/*
@@ -342,6 +348,7 @@ monitor_end_process_fcn(int how)
     }
 
     monitor_fini_process_done = 1;
+    monitor_exit_cancel_restore(old_state, old_type);
     MONITOR_DEBUG1("resume system exit\n");
 }
 
@@ -768,6 +775,18 @@ monitor_reset_thread_list(struct monitor_thread_node *main_tn)
     return;
 }
 
+void __attribute__ ((weak))
+monitor_exit_cancel_disable(int *old_state, int *old_type)
+{
+    return;
+}
+
+void __attribute__ ((weak))
+monitor_exit_cancel_restore(int old_state, int old_type)
+{
+    return;
+}
+
 #if 0
 void __attribute__ ((weak))
 monitor_thread_release(void)
diff --git a/src/pthread.c b/src/pthread.c
index dbb2abe..a63f70d 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -471,6 +471,27 @@ monitor_cancel_restore(int old_state, int old_type)
     (*real_pthread_setcanceltype)(old_type, NULL);
 }
 
+/*
+ *  Called from main.c to hold off cancellation of the calling thread
+ *  during the end of process callbacks.  Note: if we were canceled
+ *  there, then the process would never finish its exit.
+ */
+void
+monitor_exit_cancel_disable(int *old_state, int *old_type)
+{
+    if (monitor_has_used_threads) {
+	monitor_cancel_disable(old_state, old_type);
+    }
+}
+
+void
+monitor_exit_cancel_restore(int old_state, int old_type)
+{
+    if (old_state >= 0) {
+	monitor_cancel_restore(old_state, old_type);
+    }
+}
+
 static void
 monitor_shootdown_handler(int sig)
 {
-- 
2.43.0


From 2851bb8d3b16078ad0e0f903b798e999c9f6347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:04 +0000
Subject: [PATCH 26/26] fix: apply a stop signal's own default action

---
 src/signal.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/signal.c b/src/signal.c
index 0e30ff1..9d2e3c4 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -199,6 +199,7 @@ monitor_signal_handler(int sig, siginfo_t *info, void *context)
 {
     struct monitor_signal_entry *mse;
     struct sigaction action, *sa;
+    sigset_t set, old_set;
     int ret;
 
     if (sig <= 0 || sig >= MONITOR_NSIG ||
@@ -245,7 +246,21 @@ monitor_signal_handler(int sig, siginfo_t *info, void *context)
 	    return;
 
 	if (mse->mse_stop) {
-	    raise(SIGSTOP);
+	    /*
+	     * Let the kernel apply the default action for this
+	     * signal: it reports the signal to the parent and doesn't
+	     * stop an orphaned process group.
+	     */
+	    memset(&action, 0, sizeof(action));
+	    action.sa_handler = SIG_DFL;
+	    sigfillset(&set);
+	    (*real_sigprocmask)(SIG_SETMASK, &set, &old_set);
+	    (*real_sigaction)(sig, &action, NULL);
+	    raise(sig);
+	    sigdelset(&set, sig);
+	    (*real_sigprocmask)(SIG_SETMASK, &set, NULL);
+	    (*real_sigaction)(sig, &mse->mse_kern_act, NULL);
+	    (*real_sigprocmask)(SIG_SETMASK, &old_set, NULL);
 	    return;
 	}
 
-- 
2.43.0

