/*
 *  A client (or plain preload) library for the monitor-run check: with
 *  ID defined, its process callbacks append their name, the library's
 *  number and the pid to the file named by VS_CBS.
 */
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include "monitor.h"

#ifdef ID
static void
say(const char *what, long v)
{
    const char *name = getenv("VS_CBS");
    char buf[200];
    int fd, n;

    if (name == NULL || (fd = open(name, O_WRONLY | O_APPEND | O_CREAT, 0644)) < 0)
	return;
    n = snprintf(buf, sizeof(buf), "%s %d %d %ld\n", what, ID, (int) getpid(), v);
    if (write(fd, buf, n) != n)
	_exit(97);
    close(fd);
}

void *
monitor_init_process(int *argc, char **argv, void *data)
{
    say("init", argc != NULL ? *argc : -1);
    return NULL;
}

void
monitor_fini_process(int how, void *data)
{
    say("fini", how);
}
#ifdef THREADS
void *
monitor_init_thread(int tid, void *data)
{
    say("tinit", tid);
    return NULL;
}

void
monitor_fini_thread(void *data)
{
    say("tfini", 0);
}
#endif
#else
int vs_plain = 1;
#endif
