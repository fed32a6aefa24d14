/*
 *  Client for statically linked programs that use only some of the
 *  library's parts (vp/subset.py): logs to the file named by VS_CBS what the
 *  client-support functions answer in its callbacks and where the
 *  program asks.
 */
#include <fcntl.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "monitor.h"
extern char **environ;
extern void *vs_main __attribute__((weak));
static int fd = -1;

static void out(const char *b, int n)
{
    if (fd < 0) {
	const char *p = getenv("VS_CBS");
	if (p == NULL)
	    return;
	fd = open(p, O_WRONLY | O_APPEND | O_CREAT, 0644);
    }
    syscall(SYS_write, fd, b, n);
}

/* tag, pid, is it the first thread of the process, number, data, threaded, main, stack bottom, four answers about ra */
void vs_ask(const char *tag, void *ra)
{
    char buf[300], loc;
    char *sb = monitor_stack_bottom();
    int n = snprintf(buf, sizeof(buf), "%s %d %d %d %lx %d %d %ld %d%d%d%d %d%d%d%d\n", tag, (int) getpid(), getpid() == syscall(SYS_gettid), monitor_get_thread_num(),
      (long) monitor_get_user_data(), monitor_is_threaded(), &vs_main == NULL ? -1 : monitor_get_addr_main() == vs_main,
      sb == NULL ? -1L : sb - &loc,
      monitor_in_start_func_wide(ra), monitor_in_start_func_narrow(ra), monitor_unwind_process_bottom_frame(ra), monitor_unwind_thread_bottom_frame(ra),
      monitor_in_start_func_wide(vs_ask), monitor_in_start_func_narrow(vs_ask), monitor_unwind_process_bottom_frame(vs_ask), monitor_unwind_thread_bottom_frame(vs_ask));
    out(buf, n);
}
void *monitor_init_process(int *argc, char **argv, void *data) { vs_ask("init", vs_ask); return (void *) (0x1000000L + getpid()); }
void monitor_at_main(void) { vs_ask("atmain", vs_ask); }
void monitor_begin_process_exit(int how) { vs_ask("begin", vs_ask); }
void monitor_fini_process(int how, void *data) { char b[100]; vs_ask("fini", vs_ask); out(b, snprintf(b, 100, "data %d %lx\n", (int) getpid(), (long) data)); }
#ifdef THREADS
void *monitor_init_thread(int tid, void *data) { return (void *) (0x2000000L + tid); }
void monitor_fini_thread(void *data) { vs_ask("tfini", vs_ask); }
#endif
