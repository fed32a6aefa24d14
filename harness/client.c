/*
 * The monitor client: every callback logs entry and exit with what a
 * client can observe, returns fresh cookies, and runs the gates (delay,
 * rendezvous, cancellation point) of the generated case.
 */
#include "vcommon.h"
#include "vops.h"
#include <dlfcn.h>
#include <pthread.h>
#include <stdio.h>
#include <sys/time.h>

struct monitor_thread_info { void *addr; void *start; };
extern int monitor_get_thread_num(void);
extern void *monitor_get_user_data(void);
extern int monitor_get_new_thread_info(struct monitor_thread_info *);
extern int monitor_block_shootdown(void);
extern void monitor_unblock_shootdown(void);
extern void monitor_initialize(void);
extern void monitor_disable_new_threads(void);
extern void monitor_enable_new_threads(void);
extern void monitor_set_size_rank(int, int);
extern int monitor_mpi_comm_size(void);
extern int monitor_mpi_comm_rank(void);
extern int monitor_sigaction(int, int (*)(int, siginfo_t *, void *), int, struct sigaction *);

#ifndef VFULLSTATIC
/* memory that the library maps for itself ends at a guard page */
void *mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off)
{
    if (addr == NULL && (flags & MAP_ANONYMOUS) && !(flags & MAP_SHARED)) {
	size_t n = (len + 4095) & ~(size_t) 4095;
	char *p = (char *) syscall(SYS_mmap, NULL, n + 4096, PROT_NONE, flags, -1, 0L);
	if (p == MAP_FAILED || len == 0) return MAP_FAILED;
	syscall(SYS_mprotect, p, n, prot);
	return p;
    }
    return (void *) syscall(SYS_mmap, addr, len, prot, flags, fd, (long) off);
}
#endif

static int quiet(void)
{
    struct vshm *s = vshm();
    return s == NULL || s->cfg[CFG_QUIET];
}

#ifdef VSTATIC
extern int64_t v_run_routine(int);
static void runrout(int r) { v_run_routine(r); }
#else
/* looked up once at load time: a thread in dlsym holds the loader's lock,
   and a child forked at that moment would never get it */
static int64_t (*run_routine)(int);
__attribute__ ((constructor))
static void runrout_init(void)
{
    run_routine = (int64_t (*)(int)) dlsym(RTLD_DEFAULT, "v_run_routine");
}
static void runrout(int r)
{
    if (run_routine != NULL) run_routine(r);
}
#endif

static void enter(int cb, int64_t a0, int64_t a1, int64_t a2)
{
    struct monitor_thread_info mti = { 0, 0 };
    int ni = monitor_get_new_thread_info(&mti);
    vlog(T_CB_ENTER, cb, monitor_get_thread_num(), a0, a1, a2,
	 (int64_t) (intptr_t) monitor_get_user_data(), ni,
	 (int64_t) (intptr_t) mti.start, (int64_t) (intptr_t) mti.addr, v_curmask());
    int w = vgate(cb, 0);
    if (w == GW_CANCELPT)
	pthread_testcancel();
    else if ((w & 0xff) == GW_RUN)
	runrout(w >> 8);
}
static void leave(int cb, int64_t ret)
{
    int w = vgate(cb, 1);
    if (w == GW_CANCELPT)
	pthread_testcancel();
    else if ((w & 0xff) == GW_RUN)
	runrout(w >> 8);
    vlog(T_CB_LEAVE, cb, monitor_get_thread_num(), ret, 0, 0, 0, 0, 0, 0, 0);
}
static int64_t fresh(void)
{
    struct vshm *s = vshm();
    return (int64_t) (0x5000000000000ull + atomic_fetch_add(&s->cookie, 1) * 16);
}
#define P(x) ((int64_t) (intptr_t) (x))

static int inlib_handler(int sig, siginfo_t *si, void *ctx)
{
    struct vshm *s = vshm();
    vlog(T_CLIENTSIG, (int) s->cfg[CFG_SIGACT_RET], monitor_get_thread_num(), sig,
	 si ? si->si_code : -999, si ? P(si->si_value.sival_ptr) : -1,
	 v_curmask(), ctx != NULL, si ? si->si_signo : -1, si ? si->si_pid : -1, 1);
    return (int) s->cfg[CFG_SIGACT_RET];
}
static void inlib_register(int when)
{
    struct vshm *s = vshm();
    if (s->cfg[CFG_SIGACT_WHEN] != when) return;
    for (int sig = 1; sig < 65; sig++)
	if (s->cfg[CFG_SIGACT_INLIB] & (1ll << (sig - 1))) {
	    struct sigaction act;
	    memset(&act, 0, sizeof(act));
	    act.sa_flags = (int) s->cfg[CFG_SIGACT_FLAGS];
	    uint64_t m = s->cfg[CFG_SIGACT_MASK];
	    memcpy(&act.sa_mask, &m, 8);
	    monitor_sigaction(sig, inlib_handler, 0, s->cfg[CFG_SIGACT_USEACT] ? &act : NULL);
	}
}

/* what a callback returns: fresh, what it was given, or a value that looks special */
static int64_t value(int bit, int64_t data, int64_t odd)
{
    int64_t c = vshm()->cfg[CFG_RETDATA];
    if (c & bit) {
	int64_t r = fresh();
	return (c & 32) && (r & 16) ? r : (c & 64) ? odd : 0;
    }
    return (c & 1) && (bit & 6) ? data : fresh();
}

void monitor_init_library(void)
{
    if (quiet()) return;
    enter(CB_init_library, 0, 0, 0);
    inlib_register(1);
    leave(CB_init_library, 0);
}
void monitor_fini_library(void)
{
    if (quiet()) return;
    enter(CB_fini_library, 0, 0, 0);
    leave(CB_fini_library, 0);
}
void *monitor_init_process(int *argc, char **argv, void *data)
{
    if (quiet()) return data;
    struct vshm *s = vshm();
    enter(CB_init_process, argc ? *argc : -1, P(argv ? argv[0] : NULL) != 0, P(data));
    if (s->cfg[CFG_SETSIZERANK] == 1)
	monitor_set_size_rank((int) s->cfg[CFG_PRESETSIZE], (int) s->cfg[CFG_PRESETRANK]);
    inlib_register(0);
    int64_t r = value(4, P(data), -1);
    leave(CB_init_process, r);
    return (void *) (intptr_t) r;
}
void monitor_fini_process(int how, void *data)
{
    if (quiet()) return;
    enter(CB_fini_process, how, P(data), 0);
    leave(CB_fini_process, 0);
}
void monitor_start_main_init(void)
{
    if (quiet()) return;
    enter(CB_start_main_init, 0, 0, 0);
    inlib_register(3);
    leave(CB_start_main_init, 0);
}
void monitor_at_main(void)
{
    if (quiet()) return;
    enter(CB_at_main, 0, 0, 0);
    inlib_register(4);
    leave(CB_at_main, 0);
}
void monitor_begin_process_exit(int how)
{
    if (quiet()) return;
    enter(CB_begin_process_exit, how, 0, 0);
    leave(CB_begin_process_exit, 0);
}
void *monitor_pre_fork(void)
{
    if (quiet()) return NULL;
    enter(CB_pre_fork, 0, 0, 0);
    int64_t r = value(16, 0, -1);
    leave(CB_pre_fork, r);
    return (void *) (intptr_t) r;
}
void monitor_post_fork(pid_t child, void *data)
{
    if (quiet()) return;
    enter(CB_post_fork, child, P(data), 0);
    leave(CB_post_fork, 0);
}
static void *helper(void *v)
{
    vlog(T_MARK_HELPER, 0, monitor_get_thread_num(), P(v), 0, 0, 0, 0, 0, 0, 0);
    return v;
}
void *monitor_thread_pre_create(void)
{
    if (quiet()) return NULL;
    struct vshm *s = vshm();
    uint32_t h = atomic_load(&s->hints[v_gettid() & (V_NHINT - 1)]);
    int ign = (h & 0xff) == HINT_IGNORE;
    enter(CB_thread_pre_create, 0, 0, 0);
    if (s->cfg[CFG_CALLBACK_DISABLE]) {
	/* the client's own helper thread, created with new threads disabled */
	pthread_t t;
	void *v = NULL;
	struct monitor_thread_info mti = { 0, 0 };
	monitor_disable_new_threads();
	int r = pthread_create(&t, NULL, helper, (void *) 0x77);
	if (r == 0) r = pthread_join(t, &v);
	monitor_enable_new_threads();
	int ni = monitor_get_new_thread_info(&mti);
	vlog(T_MARK_HELPER, 1, monitor_get_thread_num(), r, P(v), ni, P(mti.start), P(mti.addr), 0, 0, 0);
    }
    int64_t r = ign || s->cfg[CFG_IGNORE_ALL] ? -1 : value(8, 0, 1);
    leave(CB_thread_pre_create, r);
    return (void *) (intptr_t) r;
}
void monitor_thread_post_create(void *data)
{
    if (quiet()) return;
    enter(CB_thread_post_create, P(data), 0, 0);
    leave(CB_thread_post_create, 0);
}
void monitor_init_thread_support(void)
{
    if (quiet()) return;
    enter(CB_init_thread_support, 0, 0, 0);
    leave(CB_init_thread_support, 0);
}
void *monitor_init_thread(int tid, void *data)
{
    if (quiet()) return data;
    enter(CB_init_thread, tid, P(data), 0);
    int64_t r = value(2, P(data), -1);
    leave(CB_init_thread, r);
    return (void *) (intptr_t) r;
}
void monitor_fini_thread(void *data)
{
    if (quiet()) return;
    enter(CB_fini_thread, P(data), 0, 0);
    leave(CB_fini_thread, 0);
}
size_t monitor_reset_stacksize(size_t old_size)
{
    if (quiet()) return old_size;
    struct vshm *s = vshm();
    uint32_t k = v_gettid() & (V_NHINT - 1);
    uint32_t h = atomic_load(&s->hints[k]);
    size_t r = old_size + (size_t) s->cfg[CFG_STACKADD];
    enter(CB_reset_stacksize, old_size, 0, 0);
    if ((h & 0xff) == HINT_STACK)
	r = (size_t) atomic_load(&s->hint_stack[k & 255]);
    leave(CB_reset_stacksize, r);
    return r;
}
static int64_t pathraw(const char *p)
{
    return p ? vraw(p, strlen(p) + 1) : -1;
}
void monitor_pre_dlopen(const char *path, int flags)
{
    if (quiet()) return;
    enter(CB_pre_dlopen, P(path), flags, pathraw(path));
    leave(CB_pre_dlopen, 0);
}
void monitor_dlopen(const char *path, int flags, void *handle)
{
    if (quiet()) return;
    enter(CB_dlopen, P(path), flags, P(handle));
    leave(CB_dlopen, pathraw(path));
}
void monitor_dlclose(void *handle)
{
    if (quiet()) return;
    enter(CB_dlclose, P(handle), 0, 0);
    leave(CB_dlclose, 0);
}
void monitor_post_dlclose(void *handle, int ret)
{
    if (quiet()) return;
    enter(CB_post_dlclose, P(handle), ret, 0);
    leave(CB_post_dlclose, 0);
}
void monitor_mpi_pre_init(void)
{
    if (quiet()) return;
    enter(CB_mpi_pre_init, monitor_mpi_comm_size(), monitor_mpi_comm_rank(), 0);
    leave(CB_mpi_pre_init, 0);
}
void monitor_init_mpi(int *argc, char ***argv)
{
    if (quiet()) return;
    struct vshm *s = vshm();
    enter(CB_init_mpi, argc ? *argc : -1,
	  argv && *argv && argc && *argc > 0 ? vraw((*argv)[0], strlen((*argv)[0]) + 1) : -1,
	  argv && *argv && argc && (*argv)[*argc] == NULL);
    if (s->cfg[CFG_SETSIZERANK] == 2)
	monitor_set_size_rank((int) s->cfg[CFG_PRESETSIZE], (int) s->cfg[CFG_PRESETRANK]);
    leave(CB_init_mpi, P(argc));
}
void monitor_fini_mpi(void)
{
    if (quiet()) return;
    enter(CB_fini_mpi, monitor_mpi_comm_size(), monitor_mpi_comm_rank(), 0);
    leave(CB_fini_mpi, 0);
}
void monitor_mpi_post_fini(void)
{
    if (quiet()) return;
    enter(CB_mpi_post_fini, monitor_mpi_comm_size(), monitor_mpi_comm_rank(), 0);
    leave(CB_mpi_post_fini, 0);
}

#ifdef VSTATIC
/* The application's own wrapper of main: 1 calls main and exits, 2 returns, 3 exits at once. */
extern int __real_main(int, char **, char **);
int monitor_wrap_main(int argc, char **argv, char **envp)
{
    struct vshm *s = vshm();
    int64_t k = s != NULL ? s->cfg[CFG_WRAPMAIN] : 0;
    if (k == 0) return 0;
    extern char **environ;
    vlog(T_MAIN, 3, monitor_get_thread_num(), argc, argv && argv[0] && argv[argc] == NULL, envp == environ,
	 argc > 1 ? vraw(argv[argc - 1], strlen(argv[argc - 1]) + 1) : -1, 0, 0, 0, 0);
    if (k == 1) exit(__real_main(argc, argv, envp));
    if (k == 3) exit((int) s->cfg[CFG_WRAPMAIN_ST]);
    return 0;
}
#endif

/*
 * The library polls with usleep(); shorten that, and optionally run it
 * on a virtual clock.  Only the library uses these functions: the
 * scripted application naps with raw system calls and clock_nanosleep.
 */
static _Atomic int64_t vclock_us;

static void lib_sleep(int64_t n)
{
    struct vshm *s = vshm();
    int64_t ticks = 1;
    if (s != NULL && s->cfg[CFG_VCLOCK]) {
	int64_t t = atomic_fetch_add(&vclock_us, n);
	ticks = (t + n) / 100000 - t / 100000;
	vlog(T_SLEEP, 0, -9, n, t + n, 0, 0, 0, 0, 0, 0);
	n = n / 50;
    } else if (s != NULL && s->cfg[CFG_FAST]) {
	n = n > 1000 ? 1000 : n;
    }
    for (; s != NULL && ticks > 0; ticks--)
	vgate(GP_usleep, 0);
    v_nap(n);
}
int usleep(useconds_t us)
{
    lib_sleep(us);
    return 0;
}
int nanosleep(const struct timespec *ts, struct timespec *rem)
{
    lib_sleep((int64_t) ts->tv_sec * 1000000 + ts->tv_nsec / 1000);
    return 0;
}
static int64_t lib_clock(clockid_t id)
{
    struct vshm *s = vshm();
    struct timespec ts;
    syscall(SYS_clock_gettime, id, &ts);
    int64_t us = (int64_t) ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
    if (s != NULL && s->cfg[CFG_VCLOCK])
	us += atomic_load(&vclock_us);
    return us;
}
int clock_gettime(clockid_t id, struct timespec *ts)
{
    int64_t us = lib_clock(id);
    ts->tv_sec = us / 1000000;
    ts->tv_nsec = us % 1000000 * 1000;
    return 0;
}
time_t time(time_t *t)
{
    time_t r = lib_clock(CLOCK_REALTIME) / 1000000;
    if (t) *t = r;
    return r;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    int64_t us = lib_clock(CLOCK_REALTIME);
    if (tv) {
	tv->tv_sec = us / 1000000;
	tv->tv_usec = us % 1000000;
    }
    return 0;
}

__attribute__ ((constructor))
static void client_ctor(void)
{
    struct vshm *s = vshm();
    if (s == NULL) return;
#ifndef VSTATIC
    if (s->cfg[CFG_INITIALIZE])
	monitor_initialize();
#endif
    if (!s->cfg[CFG_QUIET])
	inlib_register(2);
}
