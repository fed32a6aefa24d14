/*
 * Supervisor: runs one case at a time as an unprivileged user in its own
 * session, adopts orphans, waits for every descendant, and reports.
 *
 * Request on stdin:  u32 len, then: u32 timeout_ms, u32 flags, u32 argc,
 * u32 envc, u64 ignored signals, u64 mask, strings: cwd, path, argv..., envp... (NUL terminated).
 * Reply on stdout: struct reply.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

struct reply {
    int32_t status, timed_out, nproc, nstops, main_pid, wall_ms;
    int32_t kids[64][2];	/* pid, status of adopted descendants */
    int32_t nkids;
    int32_t stops[16][2];
};

static void rd(void *p, size_t n)
{
    char *c = p;
    while (n > 0) {
	ssize_t k = read(0, c, n);
	if (k <= 0) _exit(0);
	c += k; n -= k;
    }
}
static void wr(const void *p, size_t n)
{
    const char *c = p;
    while (n > 0) {
	ssize_t k = write(1, c, n);
	if (k <= 0) _exit(0);
	c += k; n -= k;
    }
}
static int64_t now_ms(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (int64_t) t.tv_sec * 1000 + t.tv_nsec / 1000000;
}
static void kill_kids(pid_t pg)
{
    char p[64], buf[8192];
    kill(-pg, SIGKILL);
    snprintf(p, sizeof p, "/proc/%d/task/%d/children", (int) getpid(), (int) getpid());
    int fd = open(p, O_RDONLY);
    if (fd < 0) return;
    ssize_t n = read(fd, buf, sizeof(buf) - 1);
    close(fd);
    if (n <= 0) return;
    buf[n] = 0;
    for (char *q = strtok(buf, " \n"); q; q = strtok(NULL, " \n"))
	if (atoi(q) > 1) kill(atoi(q), SIGKILL);
}

int main(int argc, char **argv)
{
    /* argv[1]: output file for stdout+stderr of the case, argv[2]: uid */
    sigset_t cs;
    int uid = argc > 2 ? atoi(argv[2]) : 65534;
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    sigemptyset(&cs);
    sigaddset(&cs, SIGCHLD);
    sigprocmask(SIG_BLOCK, &cs, NULL);
    signal(SIGPIPE, SIG_IGN);
    for (;;) {
	uint32_t len;
	rd(&len, 4);
	char *b = malloc(len + 1);
	rd(b, len);
	b[len] = 0;
	uint32_t *h = (uint32_t *) b;
	uint32_t timeout = h[0], flags = h[1], ac = h[2], ec = h[3];
	char *p = b + 32, *cwd, *path;
	uint64_t ign = ((uint64_t *) b)[2], mask = ((uint64_t *) b)[3];
	char **av = calloc(ac + 1, sizeof(char *)), **ev = calloc(ec + 1, sizeof(char *));
	cwd = p; p += strlen(p) + 1;
	path = p; p += strlen(p) + 1;
	for (uint32_t i = 0; i < ac; i++) { av[i] = p; p += strlen(p) + 1; }
	for (uint32_t i = 0; i < ec; i++) { ev[i] = p; p += strlen(p) + 1; }

	struct reply r;
	memset(&r, 0, sizeof r);
	int64_t t0 = now_ms();
	pid_t pid = fork();
	if (pid == 0) {
	    struct rlimit rl = { 0, 0 };
	    int fd = open(argv[1], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
	    int nul = open("/dev/null", O_RDONLY);
	    dup2(nul, 0); dup2(fd, 1); dup2(fd, 2);
	    for (int k = 3; k < 200; k++) close(k);
	    for (int k = 201; k < 230; k++) close(k);
	    setsid();
	    setrlimit(RLIMIT_CORE, &rl);
	    rl.rlim_cur = rl.rlim_max = 60;
	    setrlimit(RLIMIT_CPU, &rl);
	    rl.rlim_cur = rl.rlim_max = 64 << 20;
	    setrlimit(RLIMIT_FSIZE, &rl);
	    rl.rlim_cur = rl.rlim_max = 20000;
	    setrlimit(RLIMIT_NPROC, &rl);
	    rl.rlim_cur = 8 << 20; rl.rlim_max = 64 << 20;
	    setrlimit(RLIMIT_STACK, &rl);
	    /* whatever the checks were started with must not reach the case */
	    for (int k = 1; k < NSIG; k++) signal(k, SIG_DFL);
	    for (int k = 1; k <= 64; k++)
		if (ign >> (k - 1) & 1) signal(k, SIG_IGN);
	    sigset_t m;
	    sigemptyset(&m);
	    memcpy(&m, &mask, 8);
	    sigprocmask(SIG_SETMASK, &m, NULL);
	    umask(022);
	    (void) flags;
	    if (chdir(cwd) != 0) _exit(96);
	    if (setgroups(0, NULL) != 0 || setgid(uid) != 0 || setuid(uid) != 0) _exit(95);
	    execve(path, av, ev);
	    _exit(94);
	}
	r.main_pid = pid;
	int done = 0;
	int64_t end = t0 + timeout;
	for (;;) {
	    int st;
	    pid_t k = waitpid(-1, &st, WNOHANG | WUNTRACED | __WALL);
	    if (k < 0 && errno == ECHILD) break;
	    if (k > 0) {
		if (WIFSTOPPED(st)) {
		    if (r.nstops < 16) {
			r.stops[r.nstops][0] = k;
			r.stops[r.nstops][1] = WSTOPSIG(st);
		    }
		    r.nstops++;
		    kill(k, SIGCONT);
		    continue;
		}
		r.nproc++;
		if (k == pid) { r.status = st; done = 1; }
		else if (r.nkids < 64) {
		    r.kids[r.nkids][0] = k;
		    r.kids[r.nkids][1] = st;
		    r.nkids++;
		}
		continue;
	    }
	    int64_t left = end - now_ms();
	    if (left <= 0) {
		r.timed_out = done ? 2 : 1;
		for (;;) {
		    kill_kids(pid);
		    k = waitpid(-1, &st, __WALL | WNOHANG);
		    if (k < 0 && errno == ECHILD) break;
		    if (k == 0) usleep(2000);
		}
		break;
	    }
	    struct timespec ts = { left / 1000, (left % 1000) * 1000000 };
	    sigtimedwait(&cs, NULL, &ts);
	}
	r.wall_ms = now_ms() - t0;
	wr(&r, sizeof r);
	free(b); free(av); free(ev);
    }
}
