/*
 * The scripted application: runs a generated program found in the
 * shared block, calling the public libc/pthread/MPI interfaces exactly
 * as an application would, and logs what it can observe.
 */
#include "vcommon.h"
#include "vops.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <setjmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unwind.h>

extern char **environ;
int vapp_main(int argc, char **argv, char **envp);
void *vapp_main_addr;

struct monitor_thread_info { void *addr; void *start; };
typedef int sighand_t(int, siginfo_t *, void *);

/* ---- monitor's client interface ---- */
#define MONFNS(X) \
    X(int, monitor_get_thread_num, (void)) \
    X(void *, monitor_get_user_data, (void)) \
    X(int, monitor_is_threaded, (void)) \
    X(void *, monitor_get_addr_main, (void)) \
    X(void *, monitor_get_addr_thread_start, (void)) \
    X(void *, monitor_stack_bottom, (void)) \
    X(int, monitor_in_start_func_wide, (void *)) \
    X(int, monitor_in_start_func_narrow, (void *)) \
    X(int, monitor_unwind_process_bottom_frame, (void *)) \
    X(int, monitor_unwind_thread_bottom_frame, (void *)) \
    X(int, monitor_real_system, (const char *)) \
    X(int, monitor_real_execve, (const char *, char *const *, char *const *)) \
    X(pid_t, monitor_real_fork, (void)) \
    X(void, monitor_real_exit, (int)) \
    X(void, monitor_real_abort, (void)) \
    X(void *, monitor_real_dlopen, (const char *, int)) \
    X(int, monitor_real_dlclose, (void *)) \
    X(int, monitor_real_sigprocmask, (int, const sigset_t *, sigset_t *)) \
    X(int, monitor_real_pthread_sigmask, (int, const sigset_t *, sigset_t *)) \
    X(int, monitor_sigaction, (int, sighand_t *, int, struct sigaction *)) \
    X(int, monitor_broadcast_signal, (int)) \
    X(int, monitor_block_shootdown, (void)) \
    X(void, monitor_unblock_shootdown, (void)) \
    X(void, monitor_disable_new_threads, (void)) \
    X(void, monitor_enable_new_threads, (void)) \
    X(int, monitor_get_new_thread_info, (struct monitor_thread_info *)) \
    X(void, monitor_set_size_rank, (int, int)) \
    X(int, monitor_mpi_comm_size, (void)) \
    X(int, monitor_mpi_comm_rank, (void)) \
    X(void, monitor_initialize, (void)) \
    X(int, monitor_sigset_string, (char *, int, const sigset_t *)) \
    X(int, monitor_signal_list_string, (char *, int, int *))

#ifdef VSTATIC
#define X(r, n, a) extern r n a; static r (*p_##n) a = &n;
MONFNS(X)
#undef X
static void mon_init(void) {}
#else
#define X(r, n, a) static r (*p_##n) a;
MONFNS(X)
#undef X
static void mon_init(void)
{
    static int done;
    if (done)
	return;
    done = 1;
#define X(r, n, a) p_##n = (r (*) a) dlsym(RTLD_DEFAULT, #n);
    MONFNS(X)
#undef X
}
#endif
#define HAVE(n) (p_##n != NULL)

static int mtid(void)
{
    return HAVE(monitor_get_thread_num) ? p_monitor_get_thread_num() : -2;
}

#define RES(a1, a2, a3, a4, a5, a6, a7) \
    vlog(T_RES, op->code, mtid(), opi, (int64_t)(a1), (int64_t)(a2), \
	 (int64_t)(a3), (int64_t)(a4), (int64_t)(a5), (int64_t)(a6), (int64_t)(a7))

static int64_t run(uint32_t rout);

#define NSLOT 4096
static pthread_t slots[NSLOT];
static volatile char slot_ok[NSLOT];
static pid_t pids[64];
static void *handles[64];
void vapp_set_handle(int k, void *h) { handles[k] = h; }
static pthread_key_t vkey;
static int have_key;
static int v_argc;
static char **v_argv;
static pthread_mutex_t live_mutex = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t cond_mutex = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t live_cond = PTHREAD_COND_INITIALIZER;
static sem_t live_sem;
static int live_pipe[2] = { -1, -1 };
static __thread sigjmp_buf *jmp_env;

static const char *S(int64_t off)
{
    return off < 0 ? NULL : vshm()->str + off;
}

/* ---- signals ---- */
static int hrout[8][65];

static void handler_body(int kind, int sig, siginfo_t *si, void *ctx)
{
    int e = errno;
    ucontext_t *uc = ctx;
    uint64_t um = 0;
    if (uc != NULL)
	memcpy(&um, &uc->uc_sigmask, 8);
    vlog(T_HANDLER, kind, mtid(), sig, si ? si->si_code : -999,
	 si ? (int64_t) (intptr_t) si->si_value.sival_ptr : -1, v_curmask(), um, e,
	 (int64_t) (intptr_t) &e, si ? si->si_signo : -1);
    if (sig > 0 && sig < 65 && hrout[kind][sig])
	run(hrout[kind][sig] - 1);
    vlog(T_HLEAVE, kind, mtid(), sig, v_curmask(), 0, 0, 0, 0, 0, 0);
    errno = e;
}
static void h1(int sig) { handler_body(2, sig, NULL, NULL); }
static void h2(int sig) { handler_body(3, sig, NULL, NULL); }
static void s1(int sig, siginfo_t *si, void *c) { handler_body(4, sig, si, c); }
static void s2(int sig, siginfo_t *si, void *c) { handler_body(5, sig, si, c); }

static void *kind2h(int k)
{
    switch (k) {
    case 0: return (void *) SIG_DFL;
    case 1: return (void *) SIG_IGN;
    case 2: return h1;
    case 3: return h2;
    case 4: return s1;
    case 5: return s2;
    }
    return (void *) SIG_DFL;
}
static int h2kind(void *h)
{
    if (h == (void *) SIG_DFL) return 0;
    if (h == (void *) SIG_IGN) return 1;
    if (h == h1) return 2;
    if (h == h2) return 3;
    if (h == s1) return 4;
    if (h == s2) return 5;
    if (h == (void *) SIG_ERR) return 98;
    return 99;
}
static void set2ss(uint64_t m, sigset_t *s)
{
    memset(s, 0, sizeof(*s));
    memcpy(s, &m, 8);
}
static uint64_t ss2set(const sigset_t *s)
{
    uint64_t m;
    memcpy(&m, s, 8);
    return m;
}

/* client's signal handlers: return value chosen by table */
static _Atomic int csig_ret[65];
static int client_handler(int sig, siginfo_t *si, void *ctx)
{
    int r = (sig > 0 && sig < 65) ? csig_ret[sig] : 0;
    vlog(T_CLIENTSIG, r, mtid(), sig, si ? si->si_code : -999,
	 si ? (int64_t) (intptr_t) si->si_value.sival_ptr : -1, v_curmask(), ctx != NULL,
	 si ? si->si_signo : -1, si ? si->si_pid : -1, 0);
    struct vshm *s = vshm();
    if (s != NULL && s->cfg[CFG_CSIGNAP]) {
	v_nap(s->cfg[CFG_CSIGNAP]);
	vlog(T_CSIGLEAVE, r, mtid(), sig, 0, 0, 0, 0, 0, 0, 0);
    }
    return r;
}

/* ---- threads ---- */
static void *many_fn(void *v)
{
    *(int *) v = mtid();
    return v;
}
static char user_stack[8][512 * 1024] __attribute__ ((aligned(4096)));
static _Atomic int user_stack_n;

static void *thr_body(int fn, void *arg)
{
    uint64_t v = (uint64_t) (uintptr_t) arg;
    void *start = HAVE(monitor_get_addr_thread_start) ? p_monitor_get_addr_thread_start() : NULL;
    extern void *(*vthr_tab[])(void *);
    int sk = -1;
    size_t stk = 0, guard = 0;
    pthread_attr_t at;
    int det = -1;
    for (int i = 0; i < 4; i++)
	if (start == (void *) vthr_tab[i]) sk = i;
    void *sa = NULL;
    if (pthread_getattr_np(pthread_self(), &at) == 0) {
	pthread_attr_getstack(&at, &sa, &stk);
	pthread_attr_getguardsize(&at, &guard);
	pthread_attr_getdetachstate(&at, &det);
	pthread_attr_destroy(&at);
    }
    vlog(T_START, fn, mtid(), v,
	 HAVE(monitor_get_user_data) ? (int64_t) (intptr_t) p_monitor_get_user_data() : 0,
	 sk, (int64_t) v_curmask(), stk, det,
	 /* on a stack the application supplied: minus one minus the offset */
	 (char *) sa >= user_stack[0] && (char *) sa < user_stack[8] ?
	 -1 - ((char *) sa - user_stack[0]) % (int64_t) sizeof(user_stack[0]) : (int64_t) (intptr_t) sa, guard);
    int64_t r = run(v & 0xffff);
    vlog(T_ENDR, fn, mtid(), v, r, 0, 0, 0, 0, 0, 0);
    return (void *) (intptr_t) r;
}
#define THR(n) static void *thr##n(void *a) { return thr_body(n, a); }
THR(0) THR(1) THR(2) THR(3)
void *(*vthr_tab[4])(void *) = { thr0, thr1, thr2, thr3 };


__attribute__ ((noinline, section("vcreate")))
static int do_create(pthread_t *t, pthread_attr_t *a, void *(*f)(void *), void *arg)
{
    int r = pthread_create(t, a, f, arg);
    __asm__ volatile ("" ::: "memory");
    return r;
}
extern char __start_vcreate[], __stop_vcreate[];

static int make_attr(pthread_attr_t *at, int kind, int64_t stk, int *inval)
{
    *inval = 0;
    pthread_attr_init(at);
    switch (kind) {
    case AT_detached:
	pthread_attr_setdetachstate(at, PTHREAD_CREATE_DETACHED);
	if (stk > 0) pthread_attr_setstacksize(at, stk);
	break;
    case AT_stack: {
	int k = atomic_fetch_add(&user_stack_n, 1) & 7;
	pthread_attr_setstack(at, user_stack[k], sizeof(user_stack[k]));
	break;
    }
    case AT_stacksize:
	if (stk > 0) pthread_attr_setstacksize(at, stk);
	break;
    case AT_badsched: {
	/* not permitted for an unprivileged user: EPERM */
	struct sched_param sp;
	memset(&sp, 0, sizeof(sp));
	sp.sched_priority = 50;
	pthread_attr_setinheritsched(at, PTHREAD_EXPLICIT_SCHED);
	pthread_attr_setschedpolicy(at, SCHED_FIFO);
	pthread_attr_setschedparam(at, &sp);
	break;
    }
    case AT_guard:
	pthread_attr_setguardsize(at, 3 * 4096);
	if (stk > 0) pthread_attr_setstacksize(at, stk);
	break;
    }
    return 0;
}

static void set_hint(int64_t hint, int64_t hs)
{
    struct vshm *s = vshm();
    uint32_t k = v_gettid() & (V_NHINT - 1);
    atomic_store(&s->hint_stack[k & 255], (uint64_t) hs);
    atomic_store(&s->hints[k], (uint32_t) hint);
}

/* attributes reused over several creates */
static pthread_attr_t keep_attr[16];
static int keep_kind[16];

static void op_create(struct vop *op, int opi)
{
    struct vshm *s = vshm();
    pthread_t t;
    pthread_attr_t at, *ap = NULL;
    int kind = op->a[3] & 0xff, keep = (op->a[3] >> 8) & 0xff, inval;
    size_t sz0 = 0, sz1 = 0;
    memset(&t, 0x5a, sizeof(t));
    if (kind != AT_null) {
	if (keep) {
	    ap = &keep_attr[keep & 15];
	    if (!keep_kind[keep & 15]) {
		make_attr(ap, kind, op->a[4], &inval);
		keep_kind[keep & 15] = 1;
	    }
	} else {
	    ap = &at;
	    make_attr(ap, kind, op->a[4], &inval);
	}
	pthread_attr_getstacksize(ap, &sz0);
    }
    size_t dfl = 0;
    {
	pthread_attr_t d;
	pthread_attr_init(&d);
	pthread_attr_getstacksize(&d, &dfl);
	pthread_attr_destroy(&d);
    }
    set_hint(op->a[5], op->a[6]);
    vlog(T_OP, op->code, mtid(), opi, op->a[2], ap ? (int64_t) sz0 : (int64_t) dfl,
	 (int64_t) (intptr_t) vthr_tab[op->a[1] & 3], (int64_t) (intptr_t) __start_vcreate,
	 (int64_t) (intptr_t) __stop_vcreate, 0, 0);
    int r = do_create(&t, ap, vthr_tab[op->a[1] & 3], (void *) (intptr_t) op->a[2]);
    set_hint(0, 0);
    if (ap)
	pthread_attr_getstacksize(ap, &sz1);
    int ok = 0;
    if (r == 0) {
	slots[op->a[0]] = t;
	slot_ok[op->a[0]] = 1;
	ok = 1;
    }
    int64_t ni = -1;
    struct monitor_thread_info mti;
    if (HAVE(monitor_get_new_thread_info))
	ni = p_monitor_get_new_thread_info(&mti);
    RES(r, ok, sz0, sz1, op->a[2], ni, op->a[0]);
    if (ap == &at)
	pthread_attr_destroy(ap);
    (void) s;
}

static void key_dtor(void *v)
{
    uint64_t u = (uint64_t) (uintptr_t) v;
    vlog(T_KEYDTOR, 0, mtid(), (int64_t) (u & 0xffffffff), 0, 0, 0, 0, 0, 0, 0);
    if (u >> 32)
	run((u >> 32) - 1);
}
static void cleanup_fn(void *v)
{
    vlog(T_CLEANUP, 0, mtid(), (int64_t) (intptr_t) v, 0, 0, 0, 0, 0, 0, 0);
}

static void cond_unlock(void *v)
{
    pthread_mutex_unlock(&cond_mutex);
}

static void live_forever(struct vshm *s, int style, int flag)
{
    sigset_t full, none;
    int sig;
    siginfo_t si;
    struct timespec ts = { 1000, 0 };
    sigfillset(&full);
    sigemptyset(&none);
    switch (style) {
    case LV_masked:
	pthread_sigmask(SIG_BLOCK, &full, NULL);
	break;
    case LV_smask:
	pthread_sigmask(SIG_SETMASK, &full, NULL);
	break;
    case LV_nocancel:
	pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL);
	break;
    case LV_async:
	pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS, NULL);
	break;
    }
    if (flag >= 0)
	atomic_fetch_add(&s->flags[flag], 1);
    for (;;) {
	switch (style) {
	case LV_pause: case LV_nocancel: case LV_async: case LV_masked: case LV_smask:
	    pause();
	    break;
	case LV_sigwait:
	    sigwait(&full, &sig);
	    break;
	case LV_sigwaitinfo:
	    sigwaitinfo(&full, &si);
	    break;
	case LV_sigtimedwait:
	    sigtimedwait(&full, NULL, &ts);
	    break;
	case LV_signone:
	    sigwaitinfo(&none, &si);
	    break;
	case LV_cond:
	    pthread_mutex_lock(&cond_mutex);
	    pthread_cleanup_push(cond_unlock, NULL);
	    pthread_cond_wait(&live_cond, &cond_mutex);
	    pthread_cleanup_pop(1);
	    break;
	case LV_sleep:
	    clock_nanosleep(CLOCK_REALTIME, 0, &ts, NULL);
	    break;
	case LV_read: {
	    char c;
	    ssize_t n = read(live_pipe[0], &c, 1);
	    if (n < 0 && errno == EINTR)
		vlog(T_EINTR, LV_read, mtid(), 0, 0, 0, 0, 0, 0, 0, 0);
	    if (n == 0)
		pause();
	    break;
	}
	case LV_poll:
	    poll(NULL, 0, 1000000);
	    break;
	case LV_sem:
	    if (sem_wait(&live_sem) != 0 && errno == EINTR)
		vlog(T_EINTR, LV_sem, mtid(), 0, 0, 0, 0, 0, 0, 0, 0);
	    break;
	case LV_mutex:
	    pthread_mutex_lock(&live_mutex);
	    break;
	case LV_spin:
	    for (volatile int k = 0; k < 20000; k++)
		;
	    v_nap(50);
	    break;
	default:
	    v_nap(2000);
	    break;
	}
    }
}

static void do_fault(int kind)
{
    switch (kind) {
    case EX_segv:
	*(volatile int *) 8 = 1;
	break;
    case EX_fpe: {
	volatile int z = 0;
	volatile int q = 7 / z;
	(void) q;
	break;
    }
    case EX_ill:
	__asm__ volatile ("ud2");
	break;
    case EX_bus: {
	int fd = memfd_create("bus", 0);
	char *p = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	*(volatile char *) p = 1;
	break;
    }
    }
}

static void do_exit(struct vop *op)
{
    int v = op->a[1];
    switch (op->a[0]) {
    case EX_exit: exit(v);
    case EX__exit: _exit(v);
    case EX__Exit: _Exit(v);
    case EX_abort: abort();
    case EX_raise: raise(v); break;
    case EX_kill: kill(getpid(), v); break;
    case EX_tkill: pthread_kill(pthread_self(), v); break;
    case EX_queue: {
	union sigval sv = { .sival_int = 77 };
	sigqueue(getpid(), v, sv);
	break;
    }
    case EX_pexit: pthread_exit((void *) (intptr_t) v);
    case EX_realexit:
	if (HAVE(monitor_real_exit)) p_monitor_real_exit(v);
	syscall(SYS_exit_group, v);
	break;
    case EX_realabort:
	if (HAVE(monitor_real_abort)) p_monitor_real_abort();
	abort();
    default: do_fault(op->a[0]); break;
    }
}

/* ---- atexit ---- */
static int ax_rout[32];
static int ax_n;
static void atexit_fn(void)
{
    int k = --ax_n;
    vlog(T_MARK_ATEXIT, 0, mtid(), k, 0, 0, 0, 0, 0, 0, 0);
    if (k >= 0)
	run(ax_rout[k]);
}

/* ---- exec ---- */
static char **strlist(int64_t off, int64_t n)
{
    if (off < 0)
	return NULL;
    char **v = calloc(n + 3, sizeof(char *));
    char *p = vshm()->str + off;
    for (int64_t i = 0; i < n; i++) {
	v[i] = p;
	p += strlen(p) + 1;
    }
    return v;
}
#define A1(x) A[b + (x)]
#define A10(x) A1(x), A1(x+1), A1(x+2), A1(x+3), A1(x+4), A1(x+5), A1(x+6), A1(x+7), A1(x+8), A1(x+9)
#define A100(x) A10(x), A10(x+10), A10(x+20), A10(x+30), A10(x+40), A10(x+50), A10(x+60), A10(x+70), A10(x+80), A10(x+90)
#define VARG A100(0), A100(100), A100(200), A100(300), A100(400), A100(500)
#define NVARG 600

static int do_exec(struct vop *op)
{
    const char *path = S(op->a[1]);
    char **av = strlist(op->a[2], op->a[3]);
    char **ev = op->a[5] < 0 ? environ : strlist(op->a[4], op->a[5]);
    static char *A[NVARG + 8];
    enum { b = 0 };
    int n = op->a[3];
    if (op->a[6] & 1) {		/* add the inherited LD_PRELOAD and vital variables */
	int k = 0, m = 0;
	while (ev[k]) k++;
	char **e2 = calloc(k + 4, sizeof(char *));
	for (m = 0; m < k; m++) e2[m] = ev[m];
	for (int i = 0; environ[i]; i++)
	    if (strncmp(environ[i], "LD_PRELOAD=", 11) == 0) e2[m++] = environ[i];
	ev = e2;
    }
    for (int i = 0; i < NVARG + 8; i++)
	A[i] = (char *) 0x1;	/* never to be looked at */
    for (int i = 0; i < n && i < NVARG - 3; i++)
	A[i] = av[i];
    A[n] = NULL;
    A[n + 1] = (char *) ev;
    switch (op->a[0]) {
    case 0: return execl(path, VARG);
    case 1: return execlp(path, VARG);
    case 2: return execle(path, VARG);
    case 3: return execv(path, av);
    case 4: return execvp(path, av);
    case 5: return execve(path, av, ev);
    case 6:
	if (HAVE(monitor_real_execve))
	    return p_monitor_real_execve(path, av, ev);
	return execve(path, av, ev);
    }
    return -7;
}

/* ---- MPI (fake library) ---- */
#define MPIDECL(p, v) \
    extern void p##init##v(int *); \
    extern void p##init_thread##v(int *, int *, int *); \
    extern void p##finalize##v(int *); \
    extern void p##comm_rank##v(int *, int *, int *); \
    extern void p##comm_size##v(int *, int *, int *);
MPIDECL(mpi_, ) MPIDECL(mpi_, _) MPIDECL(mpi_, __)
MPIDECL(pmpi_, ) MPIDECL(pmpi_, _) MPIDECL(pmpi_, __)
#define CDECL(p) \
    extern int p##Init(int *, char ***); \
    extern int p##Init_thread(int *, char ***, int, int *); \
    extern int p##Finalize(void); \
    extern int p##Comm_rank(void *, int *); \
    extern int p##Comm_size(void *, int *);
CDECL(MPI_) CDECL(PMPI_)

#ifdef VMPI
static int64_t do_mpi(struct vop *op, int64_t *out)
{
    int fn = op->a[0], var = op->a[1], comm = op->a[2], p = op->a[3];
    int ierr = -1234, val = -4321, req = op->a[6];
    void *pc = (void *) (intptr_t) comm;
    int *ac = op->a[4] ? NULL : &v_argc;
    char ***av = op->a[4] ? NULL : &v_argv;
    *out = val;
    vshm()->cfg[CFG_MPI_RET] = op->a[5];
#define FCALL(P, V) switch (fn) { \
	case 0: P##init##V(&ierr); break; \
	case 1: P##init_thread##V(&req, &val, &ierr); *out = val; break; \
	case 2: P##finalize##V(&ierr); break; \
	case 3: P##comm_rank##V(&comm, &val, &ierr); *out = val; break; \
	case 4: P##comm_size##V(&comm, &val, &ierr); *out = val; break; } return ierr
#define CCALL(P) switch (fn) { \
	case 0: return P##Init(ac, av); \
	case 1: ierr = P##Init_thread(ac, av, req, &val); *out = val; return ierr; \
	case 2: return P##Finalize(); \
	case 3: ierr = P##Comm_rank(pc, &val); *out = val; return ierr; \
	case 4: ierr = P##Comm_size(pc, &val); *out = val; return ierr; }
    if (var == 0) {
	if (!p) { CCALL(MPI_) }
#ifndef VSTATIC
	else { CCALL(PMPI_) }
#endif
    } else if (!p) {
	if (var == 1) { FCALL(mpi_, ); }
	if (var == 2) { FCALL(mpi_, _); }
	if (var == 3) { FCALL(mpi_, __); }
    }
#ifndef VSTATIC
    else {
	if (var == 1) { FCALL(pmpi_, ); }
	if (var == 2) { FCALL(pmpi_, _); }
	if (var == 3) { FCALL(pmpi_, __); }
    }
#endif
    return -9999;
}
#else
static int64_t do_mpi(struct vop *op, int64_t *out) { *out = 0; return -9998; }
#endif

/* ---- backtrace ---- */
struct btinfo {
    int n, wide, narrow, proc, thr, last_wide, beyond;
    int wide_not_bottom, main_wide, thr_wide;
    uintptr_t cfa_wide, cfa_next, ip_wide;
    int app_after_wide;
};

static _Unwind_Reason_Code bt_fn(struct _Unwind_Context *c, void *v)
{
    struct btinfo *b = v;
    uintptr_t ip = _Unwind_GetIP(c) - 1, cfa = _Unwind_GetCFA(c);
    void *fn = _Unwind_FindEnclosingFunction((void *) ip);
    void *a = (void *) (ip + 1);
    int w = p_monitor_in_start_func_wide(a);
    int nr = p_monitor_in_start_func_narrow(a);
    int pb = p_monitor_unwind_process_bottom_frame(a);
    int tb = p_monitor_unwind_thread_bottom_frame(a);
    (void) fn;
    /* (the CFA given here is that of the frame called, ie, the inner end of this one) */
    if (b->wide == 1 && b->last_wide == b->n - 1) b->cfa_next = cfa;
    if (w) { b->wide++; b->last_wide = b->n; b->cfa_wide = cfa; b->ip_wide = ip + 1; }
    if (nr) b->narrow++;
    if (nr && !w) b->wide_not_bottom++;
    if (pb) b->proc++;
    if (tb) b->thr++;
    b->n++;
    return b->n > 4000 ? _URC_END_OF_STACK : _URC_NO_REASON;
}
/* narrow is within wide, and the two bottom frames divide wide, at every address near the start frame */
static int bt_scan(uintptr_t ip)
{
    int bad = 0, was = 0, runs = 0;
    if (ip == 0)
	return 0;
    for (uintptr_t q = ip - 3000; q <= ip + 3000; q++) {
	void *a = (void *) q;
	int w = p_monitor_in_start_func_wide(a) != 0, n = p_monitor_in_start_func_narrow(a) != 0;
	int pb = p_monitor_unwind_process_bottom_frame(a) != 0, tb = p_monitor_unwind_thread_bottom_frame(a) != 0;
	if (n && !w) bad |= 1;
	if (pb && tb) bad |= 2;
	if ((pb || tb) != w) bad |= 4;
	if (w && !was) runs++;
	was = w;
    }
    if (runs > 2) bad |= 8;
    return bad;
}
__attribute__ ((noinline))
static int bt_rec(int depth, struct btinfo *b)
{
    volatile char pad[64];
    pad[0] = depth;
    int r = 0;
    if (depth > 0)
	r = bt_rec(depth - 1, b);
    else
	_Unwind_Backtrace(bt_fn, b);
    return r + pad[0];
}

static void op_query(struct vop *op, int opi)
{
    if (!HAVE(monitor_get_thread_num)) {
	RES(-2, 0, 0, 0, 0, 0, 0);
	return;
    }
    void *st = p_monitor_get_addr_thread_start();
    int sk = st == NULL ? -2 : -1;
    for (int i = 0; i < 4; i++)
	if (st == (void *) vthr_tab[i]) sk = i;
    struct monitor_thread_info mti;
    RES(p_monitor_get_thread_num(), p_monitor_get_user_data(), p_monitor_is_threaded(),
	sk, p_monitor_get_addr_main() == vapp_main_addr,
	p_monitor_get_new_thread_info(&mti), p_monitor_stack_bottom());
}

static char *guard_alloc(int which, int size)
{
    /* buffer of 'size' bytes ending at an inaccessible page */
    static char *bases[2];
    char *base = bases[which];
    size_t span = 1 << 13;
    if (size < 0) size = 0;
    if (base == NULL) {
	bases[which] =
	base = mmap(NULL, span + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	mprotect(base, 4096, PROT_NONE);
	mprotect(base + 4096 + span, 4096, PROT_NONE);
    }
    memset(base + 4096, 0xA5, span);
    return base + 4096 + span - size;
}

int64_t v_run_routine(int r)
{
    mon_init();
    return run(r);
}

static int64_t run(uint32_t rout)
{
    struct vshm *s = vshm();
    if (rout >= s->n_rout)
	return 0;
    for (uint32_t opi = s->rout[rout]; opi < s->n_ops; opi++) {
	struct vop *op = &s->ops[opi];
	int64_t *a = op->a;
	int r, e;
	switch (op->code) {
	case OP_END:
	    return 0;
	case OP_RETURN:
	    vlog(T_OP, op->code, mtid(), opi, a[0], 0, 0, 0, 0, 0, 0);
	    return a[0];
	case OP_MARK:
	    RES(a[0], 0, 0, 0, 0, 0, 0);
	    break;
	case OP_QUERY:
	    op_query(op, opi);
	    break;
	case OP_CREATE:
	    op_create(op, opi);
	    break;
	case OP_CREATEN:
	    for (int k = 0; k < a[1]; k++) {
		pthread_attr_t at;
		pthread_attr_init(&at);
		pthread_attr_setstacksize(&at, 65536);
		r = do_create(&slots[a[0] + k], &at, vthr_tab[0],
			      (void *) (intptr_t) (a[2] + ((int64_t) k << 32)));
		pthread_attr_destroy(&at);
		if (r != 0) { RES(r, k, 0, 0, 0, 0, 0); break; }
	    }
	    RES(0, a[1], 0, 0, 0, 0, 0);
	    break;
	case OP_CREATEQ:
	    r = e = 0;
	    for (int k = 0; k < a[1] && r == 0; k++) {
		pthread_attr_t at;
		void *v = NULL;
		pthread_attr_init(&at);
		pthread_attr_setstacksize(&at, 65536);
		r = do_create(&slots[a[0]], &at, vthr_tab[k & 3],
			      (void *) (intptr_t) (a[2] + ((int64_t) k << 32)));
		pthread_attr_destroy(&at);
		if (r == 0) { pthread_join(slots[a[0]], &v); e++; }
	    }
	    RES(r, e, 0, 0, 0, 0, 0);
	    break;
	case OP_MANYT: {
	    int64_t n = a[0], got = 0, dup = 0, bad = 0, done = 0;
	    unsigned char *map = calloc(1, 1 << 21);
	    static int num[64];
	    pthread_t t[64];
	    pthread_attr_t at;
	    pthread_attr_init(&at);
	    pthread_attr_setstacksize(&at, 65536);
	    while (done < n && got == done) {
		int k, m = n - done < a[1] ? n - done : a[1];
		for (k = 0; k < m; k++)
		    if (pthread_create(&t[k], &at, many_fn, &num[k]) != 0) break;
		done += m;
		for (int j = 0; j < k; j++) {
		    void *v = NULL;
		    pthread_join(t[j], &v);
		    got += v == &num[j];
		    if (num[j] <= 0 || num[j] >= 1 << 21) bad++;
		    else if (map[num[j]]++) dup++;
		}
	    }
	    free(map);
	    pthread_attr_destroy(&at);
	    RES(got, dup, bad, mtid(), 0, 0, 0);
	    break;
	}
	case OP_JOINN:
	    for (int k = 0; k < a[1]; k++)
		pthread_join(slots[a[0] + k], NULL);
	    RES(0, a[1], 0, 0, 0, 0, 0);
	    break;
	case OP_JOIN: {
	    void *v = (void *) 0x7777;
	    if (!slot_ok[a[0]]) { RES(-3, 0, 0, a[0], 0, 0, 0); break; }
	    vlog(T_OP, op->code, mtid(), opi, a[0], 0, 0, 0, 0, 0, 0);
	    r = pthread_join(slots[a[0]], &v);
	    RES(r, v, v == PTHREAD_CANCELED, a[0], 0, 0, 0);
	    break;
	}
	case OP_DETACH:
	    if (!slot_ok[a[0]]) { RES(-3, a[0], 0, 0, 0, 0, 0); break; }
	    r = pthread_detach(slots[a[0]]);
	    RES(r, a[0], 0, 0, 0, 0, 0);
	    break;
	case OP_CANCEL:
	    if (!slot_ok[a[0]]) { RES(-3, a[0], 0, 0, 0, 0, 0); break; }
	    vlog(T_OP, op->code, mtid(), opi, a[0], 0, 0, 0, 0, 0, 0);
	    r = pthread_cancel(slots[a[0]]);
	    RES(r, a[0], 0, 0, 0, 0, 0);
	    break;
	case OP_PEXIT:
	    vlog(T_OP, op->code, mtid(), opi, a[0], 0, 0, 0, 0, 0, 0);
	    pthread_exit((void *) (intptr_t) a[0]);
	case OP_CSTATE:
	    pthread_setcancelstate(a[0] ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE, &e);
	    RES(e == PTHREAD_CANCEL_DISABLE, 0, 0, 0, 0, 0, 0);
	    break;
	case OP_CTYPE:
	    pthread_setcanceltype(a[0] ? PTHREAD_CANCEL_ASYNCHRONOUS : PTHREAD_CANCEL_DEFERRED, &e);
	    RES(e == PTHREAD_CANCEL_ASYNCHRONOUS, 0, 0, 0, 0, 0, 0);
	    break;
	case OP_TESTCANCEL:
	    vlog(T_OP, op->code, mtid(), opi, 0, 0, 0, 0, 0, 0, 0);
	    pthread_testcancel();
	    break;
	case OP_SETF:
	    atomic_fetch_add(&s->flags[a[0]], 1);
	    break;
	case OP_WAITF:
	    v_waitflag(s, a[0], a[1]);
	    break;
	case OP_WAITLIVE:
	    v_gatewait(s, a[0], a[1]);
	    break;
	case OP_LIVE:
	    vlog(T_OP, op->code, mtid(), opi, a[0], 0, 0, 0, 0, 0, 0);
	    live_forever(s, a[0], a[1]);
	    break;
	case OP_NAP:
	    v_nap(a[0]);
	    break;
	case OP_FORK: {
	    pid_t p;
	    vlog(T_OP, op->code, mtid(), opi, a[1], 0, 0, 0, 0, 0, 0);
	    if (a[1] == 2 && HAVE(monitor_real_fork))
		p = p_monitor_real_fork();
	    else if (a[1] == 1 && HAVE(monitor_get_thread_num))
		p = vfork();
	    else
		p = fork();
	    e = errno;
	    if (p == 0) {
		RES(0, 0, getppid(), 0, 0, 0, 0);
		return run(a[2]);
	    }
	    pids[a[0]] = p;
	    RES(p, p < 0 ? e : 0, 0, 0, 0, 0, 0);
	    break;
	}
	case OP_WAITCHILD: {
	    int st = -1;
	    pid_t p;
	    if (pids[a[0]] <= 0) { RES(-1, 0, -1, 0, 0, 0, 0); break; }
	    do p = waitpid(pids[a[0]], &st, 0); while (p < 0 && errno == EINTR);
	    RES(p, st, a[0], 0, 0, 0, 0);
	    break;
	}
	case OP_PGRP:
	    RES(setpgid(0, 0), 0, 0, 0, 0, 0, 0);
	    break;
	case OP_WAITSTOP: {
	    int st = -1, n = 0;
	    pid_t p;
	    if (pids[a[0]] <= 0) { RES(-1, 0, -1, 0, 0, 0, 0); break; }
	    for (;;) {
		do p = waitpid(pids[a[0]], &st, WUNTRACED); while (p < 0 && errno == EINTR);
		RES(p, st, a[0], n++, 0, 0, 0);
		if (p < 0 || !WIFSTOPPED(st) || n > 50) break;
		kill(p, SIGCONT);
	    }
	    break;
	}
	case OP_EXIT:
	    vlog(T_OP, op->code, mtid(), opi, a[0], a[1], 0, 0, 0, 0, 0);
	    do_exit(op);
	    RES(a[0], a[1], 0, 0, 0, 0, 0);
	    break;
	case OP_ATEXIT:
	    if (ax_n < 32) {
		ax_rout[ax_n++] = a[0];
		atexit(atexit_fn);
	    }
	    break;
	case OP_EXEC:
	    vlog(T_OP, op->code, mtid(), opi, a[0], 0, 0, 0, 0, 0, 0);
	    errno = 0;
	    r = do_exec(op);
	    e = errno;
	    RES(r, e, a[0], 0, 0, 0, 0);
	    break;
	case OP_SETENV:
	    r = setenv(S(a[0]), S(a[1]), 1);
	    break;
	case OP_UNSETENV:
	    r = unsetenv(S(a[0]));
	    break;
	case OP_GETENV: {
	    const char *v = getenv(S(a[0]));
	    int64_t off = v ? vraw(v, strlen(v) + 1) : -1;
	    RES(v != NULL, off, 0, 0, 0, 0, 0);
	    break;
	}
	case OP_CHDIR:
	    r = chdir(S(a[0]));
	    break;
	case OP_SYSTEM: {
	    uint64_t m0 = v_curmask();
	    struct sigaction i0, q0, i1, q1;
	    memset(&i0, 0, sizeof(i0)); memset(&i1, 0, sizeof(i1));
	    memset(&q0, 0, sizeof(q0)); memset(&q1, 0, sizeof(q1));
	    /* the kernel's view, by raw system call */
	    struct ksa { void *h; unsigned long f; void *r; uint64_t m; } ki0, ki1, kq0, kq1;
	    memset(&ki0, 0, sizeof ki0); memset(&ki1, 0, sizeof ki1);
	    memset(&kq0, 0, sizeof kq0); memset(&kq1, 0, sizeof kq1);
	    syscall(SYS_rt_sigaction, SIGINT, NULL, &ki0, 8);
	    syscall(SYS_rt_sigaction, SIGQUIT, NULL, &kq0, 8);
	    vlog(T_OP, op->code, mtid(), opi, a[1], 0, 0, 0, 0, 0, 0);
	    errno = 0;
	    if (a[1] && HAVE(monitor_real_system))
		r = p_monitor_real_system(S(a[0]));
	    else
		r = system(S(a[0]));
	    e = errno;
	    syscall(SYS_rt_sigaction, SIGINT, NULL, &ki1, 8);
	    syscall(SYS_rt_sigaction, SIGQUIT, NULL, &kq1, 8);
	    RES(r, e, m0, v_curmask(), memcmp(&ki0, &ki1, sizeof ki0) == 0,
		memcmp(&kq0, &kq1, sizeof kq0) == 0, a[1]);
	    break;
	}
	case OP_POPEN: {
	    char buf[256];
	    size_t n = 0;
	    FILE *f = popen(S(a[0]), "r");
	    if (f) n = fread(buf, 1, sizeof(buf), f);
	    int64_t off = vraw(buf, n);
	    r = f ? pclose(f) : -1;
	    RES(r, off, n, 0, 0, 0, 0);
	    break;
	}
	case OP_SIGACTION: {
	    struct sigaction act, old;
	    memset(&old, 0xee, sizeof(old));
	    memset(&act, 0, sizeof(act));
	    act.sa_handler = kind2h(a[1]);
	    act.sa_flags = a[2];
	    set2ss(a[3], &act.sa_mask);
	    if (a[5] && a[0] > 0 && a[0] < 65 && a[1] >= 2)
		hrout[a[1]][a[0]] = a[5];
	    errno = 0;
	    r = sigaction(a[0], (a[4] & 1) ? &act : NULL, (a[4] & 2) ? &old : NULL);
	    e = errno;
	    if (r == 0 && (a[4] & 2))
		RES(r, e, h2kind(old.sa_handler), (int64_t) old.sa_flags, ss2set(&old.sa_mask), 0, a[0]);
	    else
		RES(r, e, -1, 0, 0, 0, a[0]);
	    break;
	}
	case OP_SIGNAL: {
	    errno = 0;
	    void *h = signal(a[0], kind2h(a[1]));
	    e = errno;
	    RES(h2kind(h), e, a[0], 0, 0, 0, 0);
	    break;
	}
	case OP_MASK: {
	    sigset_t set, old;
	    uint64_t m0 = v_curmask();
	    set2ss(a[2], &set);
	    memset(&old, 0, sizeof(old));
	    errno = 0;
	    const sigset_t *sp = (a[3] & 1) ? &set : NULL;
	    sigset_t *op2 = (a[3] & 2) ? &old : NULL;
	    switch (a[0]) {
	    case 0: r = sigprocmask(a[1], sp, op2); break;
	    case 1: r = pthread_sigmask(a[1], sp, op2); break;
	    case 2: r = HAVE(monitor_real_sigprocmask) ? p_monitor_real_sigprocmask(a[1], sp, op2)
		    : sigprocmask(a[1], sp, op2); break;
	    default: r = HAVE(monitor_real_pthread_sigmask) ? p_monitor_real_pthread_sigmask(a[1], sp, op2)
		    : pthread_sigmask(a[1], sp, op2); break;
	    }
	    e = errno;
	    RES(r, e, ss2set(&old), m0, v_curmask(), ss2set(&set), a[0]);
	    break;
	}
	case OP_KMASK: {
	    uint64_t m = a[0];
	    syscall(SYS_rt_sigprocmask, SIG_SETMASK, &m, NULL, 8);
	    break;
	}
	case OP_PENDING: {
	    uint64_t m = 0;
	    syscall(SYS_rt_sigpending, &m, 8);
	    RES(m, v_curmask(), 0, 0, 0, 0, 0);
	    break;
	}
	case OP_MSIGACTION: {
	    if (!HAVE(monitor_sigaction)) break;
	    struct sigaction act;
	    memset(&act, 0, sizeof(act));
	    act.sa_flags = a[2];
	    set2ss(a[3], &act.sa_mask);
	    if (a[0] > 0 && a[0] < 65)
		csig_ret[a[0]] = a[1];
	    r = p_monitor_sigaction(a[0], a[1] == -77 ? NULL : client_handler, 0, a[4] ? &act : NULL);
	    RES(r, a[0], 0, 0, 0, 0, 0);
	    break;
	}
	case OP_RAISE: {
	    union sigval sv = { .sival_ptr = (void *) (intptr_t) a[2] };
	    vlog(T_OP, op->code, mtid(), opi, a[0], a[1], a[2], v_curmask(), 0, 0, 0);
	    switch (a[0]) {
	    case 0: r = raise(a[1]); break;
	    case 1: r = pthread_kill(pthread_self(), a[1]); break;
	    case 2: r = kill(getpid(), a[1]); break;
	    case 3: r = sigqueue(getpid(), a[1], sv); break;
	    case 4: r = syscall(SYS_tgkill, getpid(), v_gettid(), a[1]); break;
	    case 5: r = pthread_kill(slots[a[3]], a[1]); break;
	    case 6: r = pthread_sigqueue(pthread_self(), a[1], sv); break;
	    case 7: r = kill(pids[a[3]], a[1]); break;
	    case 8: do_fault(a[1] == SIGSEGV ? EX_segv : a[1] == SIGFPE ? EX_fpe :
			     a[1] == SIGILL ? EX_ill : EX_bus); r = 0; break;
	    case 9: r = pthread_sigqueue(slots[a[3]], a[1], sv); break;
	    default: r = -1;
	    }
	    RES(r, a[1], v_curmask(), 0, 0, 0, 0);
	    break;
	}
	case OP_SIGWAIT: {
	    sigset_t set;
	    siginfo_t si;
	    struct timespec ts = { a[2] / 1000000, (a[2] % 1000000) * 1000 };
	    int sig = -5;
	    memset(&si, 0, sizeof(si));
	    set2ss(a[1], &set);
	    vlog(T_OP, op->code, mtid(), opi, a[0], a[1], 0, 0, 0, 0, 0);
	    if (a[4] >= 0)
		atomic_fetch_add(&s->flags[a[4]], 1);
	    errno = 0;
	    if (a[0] == 0) r = sigwait(&set, &sig);
	    else if (a[0] == 1) r = sigwaitinfo(&set, a[3] ? NULL : &si);
	    else r = sigtimedwait(&set, a[3] ? NULL : &si, &ts);
	    e = errno;
	    RES(r, e, sig, si.si_signo, si.si_code, (intptr_t) si.si_value.sival_ptr, v_curmask());
	    break;
	}
	case OP_DLOPEN: {
	    const char *p = S(a[1]), *er = NULL;
	    void *h;
	    int64_t eo = -1, val = -1, glob = -1;
	    int (*f)(void);
	    vlog(T_OP, op->code, mtid(), opi, (int64_t) (intptr_t) p, a[2], a[3], 0, 0, 0, 0);
	    (void) dlerror();
	    if (a[3] && HAVE(monitor_real_dlopen)) h = p_monitor_real_dlopen(p, a[2]);
	    else h = dlopen(p, a[2]);
	    if (h == NULL && (er = dlerror()) != NULL)
		eo = vraw(er, strlen(er) + 1);
	    handles[a[0]] = h;
	    if (h) {
		f = (int (*)(void)) dlsym(h, "vlib_value");
		if (f) val = f();
	    }
	    f = (int (*)(void)) dlsym(RTLD_DEFAULT, "vlib_value");
	    if (f) glob = f();
	    RES(h, val, eo, glob, 0, 0, 0);
	    break;
	}
	case OP_DLCLOSE: {
	    const char *er;
	    int64_t eo = -1;
	    vlog(T_OP, op->code, mtid(), opi, (int64_t) (intptr_t) handles[a[0]], a[1], 0, 0, 0, 0, 0);
	    if (handles[a[0]] == NULL) { RES(-3, 0, 0, 0, 0, 0, 0); break; }
	    (void) dlerror();
	    if (a[1] && HAVE(monitor_real_dlclose)) r = p_monitor_real_dlclose(handles[a[0]]);
	    else r = dlclose(handles[a[0]]);
	    if (r != 0 && (er = dlerror()) != NULL)
		eo = vraw(er, strlen(er) + 1);
	    RES(r, handles[a[0]], eo, 0, 0, 0, 0);
	    if (!a[2]) handles[a[0]] = NULL;
	    break;
	}
	case OP_MPI: {
	    int64_t out = 0, q;
	    vlog(T_OP, op->code, mtid(), opi, a[0], a[1], a[2], a[3], 0, 0, 0);
	    int64_t oret = s->cfg[CFG_MPI_RET];
	    q = do_mpi(op, &out);
	    s->cfg[CFG_MPI_RET] = oret;
	    RES(q, out, HAVE(monitor_mpi_comm_size) ? p_monitor_mpi_comm_size() : -1,
		HAVE(monitor_mpi_comm_rank) ? p_monitor_mpi_comm_rank() : -1, &v_argc, v_argc, v_argv);
	    break;
	}
	case OP_SETSIZERANK:
	    if (HAVE(monitor_set_size_rank)) p_monitor_set_size_rank(a[0], a[1]);
	    /* fall through */
	case OP_GETSIZERANK:
	    RES(HAVE(monitor_mpi_comm_size) ? p_monitor_mpi_comm_size() : -1,
		HAVE(monitor_mpi_comm_rank) ? p_monitor_mpi_comm_rank() : -1, 0, 0, 0, 0, 0);
	    break;
	case OP_BT: {
	    if (!HAVE(monitor_stack_bottom)) break;
	    struct btinfo b;
	    memset(&b, 0, sizeof(b));
	    b.last_wide = -1;
	    bt_rec(a[0], &b);
	    /* counts; position of the start frame from the outer end; stack bottom vs frames */
	    vlog(T_RES, op->code, mtid(), opi, b.n, b.wide, b.narrow,
		 b.proc, b.thr, b.n - 1 - b.last_wide, b.wide_not_bottom);
	    vlog(T_RES, op->code + 1000, mtid(), opi, (int64_t) (intptr_t) p_monitor_stack_bottom(),
		 (int64_t) b.cfa_wide, (int64_t) (intptr_t) &b,
		 0,
		 p_monitor_in_start_func_wide((void *) (intptr_t) &bt_rec) |
		 p_monitor_in_start_func_narrow((void *) (intptr_t) &bt_rec) << 1 |
		 p_monitor_in_start_func_wide(&b) << 2 |
		 p_monitor_in_start_func_wide(NULL) << 3 |
		 p_monitor_in_start_func_wide((void *) (intptr_t) &pthread_create) << 4 |
		 p_monitor_unwind_process_bottom_frame((void *) (intptr_t) &bt_rec) << 5 |
		 p_monitor_unwind_thread_bottom_frame((void *) (intptr_t) &bt_rec) << 6,
		 (int64_t) b.cfa_next, a[1] ? bt_scan(b.ip_wide) : 0);
	    break;
	}
	case OP_BROADCAST:
	    if (!HAVE(monitor_broadcast_signal)) break;
	    vlog(T_OP, op->code, mtid(), opi, a[0], 0, 0, 0, 0, 0, 0);
	    r = p_monitor_broadcast_signal(a[0]);
	    RES(r, a[0], 0, 0, 0, 0, 0);
	    break;
	case OP_BLOCKSD:
	    if (!HAVE(monitor_block_shootdown)) break;
	    vlog(T_OP, op->code, mtid(), opi, 0, 0, 0, 0, 0, 0, 0);
	    r = p_monitor_block_shootdown();
	    RES(r, 0, 0, 0, 0, 0, 0);
	    break;
	case OP_UNBLOCKSD:
	    if (!HAVE(monitor_unblock_shootdown)) break;
	    vlog(T_OP, op->code, mtid(), opi, 0, 0, 0, 0, 0, 0, 0);
	    p_monitor_unblock_shootdown();
	    break;
	case OP_NEWTHREADS:
	    if (!HAVE(monitor_enable_new_threads)) break;
	    if (a[0]) p_monitor_enable_new_threads();
	    else p_monitor_disable_new_threads();
	    RES(a[0], 0, 0, 0, 0, 0, 0);
	    break;
	case OP_NEWINFO: {
	    struct monitor_thread_info mti = { (void *) 0x1234, (void *) 0x5678 };
	    if (!HAVE(monitor_get_new_thread_info)) break;
	    r = p_monitor_get_new_thread_info(a[0] ? NULL : &mti);
	    RES(r, mti.addr, mti.start, 0, 0, 0, 0);
	    break;
	}
	case OP_SHOOTSIG: {
	    /* signals that the application cannot block */
	    uint64_t m0 = v_curmask(), none = 0, m1;
	    sigset_t full;
	    syscall(SYS_rt_sigprocmask, SIG_SETMASK, &none, NULL, 8);
	    sigfillset(&full);
	    if (a[0]) pthread_sigmask(SIG_BLOCK, &full, NULL);
	    else sigprocmask(SIG_SETMASK, &full, NULL);
	    m1 = v_curmask();
	    syscall(SYS_rt_sigprocmask, SIG_SETMASK, &m0, NULL, 8);
	    RES(~m1, 0, 0, 0, 0, 0, 0);
	    break;
	}
	case OP_SIGSTR: case OP_LISTSTR: {
	    if (!HAVE(monitor_sigset_string)) break;
	    int size = a[0];
	    int n = 0;
	    char *b = guard_alloc(0, size);
	    sigset_t set;
	    if (op->code == OP_SIGSTR) {
		set2ss(a[1], &set);
		r = p_monitor_sigset_string(a[3] ? NULL : b, size, a[2] ? NULL : &set);
	    } else {
		const char *p = S(a[1]);
		int *list = (int *) guard_alloc(1, 4 * (a[2] + 1));
		for (n = 0; n < a[2]; n++)
		    memcpy(&list[n], p + 4 * n, 4);
		list[n] = -1;
		r = p_monitor_signal_list_string(a[4] ? NULL : b, size, a[3] ? NULL : list);
	    }
	    int under = 0;
	    for (char *q = b - 1; q > b - 64; q--)
		if (*q != (char) 0xA5) under = 1;
	    int64_t off = vraw(b, size < 0 ? 0 : size);
	    RES(r, off, size, under, 0, 0, 0);
	    break;
	}
	case OP_CALL:
	    for (int64_t k = 0; k < (a[1] ? a[1] : 1); k++)
		run(a[0]);
	    break;
	case OP_CLEANUP:
	    pthread_cleanup_push(cleanup_fn, (void *) (intptr_t) a[1]);
	    run(a[0]);
	    pthread_cleanup_pop(a[2]);
	    break;
	case OP_KEYSET:
	    if (have_key)
		pthread_setspecific(vkey, (void *) (intptr_t) a[0]);
	    break;
	case OP_WRITE:
	    r = write(1, S(a[0]), strlen(S(a[0])));
	    break;
	case OP_INITIALIZE:
	    if (HAVE(monitor_initialize)) p_monitor_initialize();
	    RES(0, 0, 0, 0, 0, 0, 0);
	    break;
	case OP_SELFARGS: {
	    int n = 0, m = 0;
	    int64_t off = -1;
	    for (int i = 0; i < v_argc; i++) {
		int64_t o = vraw(v_argv[i], strlen(v_argv[i]) + 1);
		if (i == 0) off = o;
		n++;
	    }
	    int64_t eoff = -1;
	    for (int i = 0; environ[i]; i++) {
		int64_t o = vraw(environ[i], strlen(environ[i]) + 1);
		if (i == 0) eoff = o;
		m++;
	    }
	    RES(n, off, m, eoff, v_argv[v_argc] == NULL, 0, 0);
	    break;
	}
	case OP_ERRNO:
	    errno = a[0];
	    break;
	case OP_LONGJMP: {
	    sigjmp_buf jb;
	    sigjmp_buf *save = jmp_env;
	    jmp_env = &jb;
	    r = sigsetjmp(jb, 1);
	    if (r == 0)
		run(a[0]);
	    jmp_env = save;
	    RES(r, v_curmask(), 0, 0, 0, 0, 0);
	    break;
	}
	case OP_DOLONGJMP:
	    if (jmp_env) siglongjmp(*jmp_env, 5);
	    break;
	case OP_ALARM: {
	    struct itimerval it = { { 0, 0 }, { a[0] / 1000000, a[0] % 1000000 } };
	    setitimer(ITIMER_REAL, &it, NULL);
	    break;
	}
	default:
	    break;
	}
    }
    return 0;
}

int vapp_main(int argc, char **argv, char **envp)
{
    struct vshm *s = vshm();
    if (s == NULL) {
	write(2, "vapp: no shared block\n", 22);
	return 99;
    }
    mon_init();
    v_argc = argc;
    v_argv = argv;
    sem_init(&live_sem, 0, 0);
    pthread_mutex_lock(&live_mutex);
    if (live_pipe[0] < 0 && pipe(live_pipe) != 0)
	return 98;
    if (!have_key && pthread_key_create(&vkey, key_dtor) == 0)
	have_key = 1;
    vlog(T_MAIN, 0, mtid(), argc,
	 HAVE(monitor_get_addr_main) ? p_monitor_get_addr_main() == vapp_main_addr : -1,
	 (int64_t) v_curmask(), envp == environ, 0, 0, 0, 0);
    int64_t r = run(0);
    vlog(T_ENDR, 100, mtid(), r, 0, 0, 0, 0, 0, 0, 0);
    return (int) r;
}

/* Early phase: a library constructor that runs before libmonitor's. */
#ifndef VSTATIC
__attribute__ ((constructor))
static void vapp_early(void)
{
    struct vshm *s = vshm();
    if (s == NULL || !s->cfg[CFG_MAIN_EARLY])
	return;
    mon_init();
    if (!have_key && pthread_key_create(&vkey, key_dtor) == 0)
	have_key = 1;
    if (pipe(live_pipe) != 0)
	return;
    vlog(T_MAIN, 1, -9, 0, 0, 0, 0, 0, 0, 0, 0);
    pid_t me = getpid();
    int64_t r = run(1);
    if (getpid() != me)
	exit((int) r);      /* a child that returns */
    vlog(T_MAIN, 2, -9, 0, 0, 0, 0, 0, 0, 0, 0);
}
#endif
