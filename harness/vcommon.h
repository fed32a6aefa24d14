/*
 * Shared between the scripted application, the monitor client and the
 * stand-ins for the real functions.  One block of shared memory (an
 * inherited memfd at descriptor VFD) holds the generated program, the
 * client's behaviour and the event log of every process of a case.
 * Logging uses only atomics and raw system calls, so it is safe from
 * signal handlers, is never a cancellation point, and orders events
 * over all threads and processes.
 */
#ifndef VCOMMON_H
#define VCOMMON_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <signal.h>
#include <stdatomic.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define VFD        200
#define V_MAGIC    0x56504d31
#define V_NOPS     6144
#define V_NROUT    1024
#define V_NFLAGS   256
#define V_NLOG     24576
#define V_STRTAB   (1 << 20)
#define V_RAW      (4 << 20)
#define V_NGATES   64
#define V_NCB      32
#define V_NHINT    65536

struct vop { int32_t code, pad; int64_t a[7]; };
struct vent {
    _Atomic uint32_t done;
    int32_t pid, ktid, mtid;
    uint16_t type, code;
    uint32_t idx;
    int64_t a[8];
};
/* A gate fires at the nth (1-based; 0: every) occurrence of a point. */
struct vgate {
    int32_t point, nth, phase, set_flag, wait_flag, wait_val, sleep_us, what;
};
struct vshm {
    uint32_t magic, n_ops, n_rout, n_gates;
    _Atomic uint32_t log_n, raw_n, lost, pad0;
    _Atomic uint64_t cookie;
    int64_t cfg[64];
    _Atomic uint32_t flags[V_NFLAGS];
    _Atomic uint32_t counts[256];
    struct vgate gates[V_NGATES];
    uint32_t rout[V_NROUT];
    _Atomic uint32_t hints[V_NHINT];
    _Atomic uint64_t hint_stack[256];
    struct vop ops[V_NOPS];
    char str[V_STRTAB];
    struct vent log[V_NLOG];
    char raw[V_RAW];
};

/* log entry types */
#define T_CB_ENTER  1
#define T_CB_LEAVE  2
#define T_OP        3
#define T_RES       4
#define T_START     5
#define T_ENDR      6
#define T_HANDLER   7
#define T_MAIN      8
#define T_DUMP      9
#define T_REAL     10
#define T_CLIENTSIG 11
#define T_HLEAVE   12
#define T_MPI      13
#define T_SLEEP    14
#define T_CLEANUP  15
#define T_KEYDTOR  16
#define T_LIBC     17
#define T_MARK_ATEXIT 18
#define T_MARK_HELPER 19
#define T_EINTR    20
#define T_CSIGLEAVE 21

/* callbacks */
#define CB_init_library        1
#define CB_fini_library        2
#define CB_init_process        3
#define CB_fini_process        4
#define CB_start_main_init     5
#define CB_at_main             6
#define CB_begin_process_exit  7
#define CB_pre_fork            8
#define CB_post_fork           9
#define CB_thread_pre_create  10
#define CB_thread_post_create 11
#define CB_init_thread_support 12
#define CB_init_thread        13
#define CB_fini_thread        14
#define CB_reset_stacksize    15
#define CB_pre_dlopen         16
#define CB_dlopen             17
#define CB_dlclose            18
#define CB_post_dlclose       19
#define CB_mpi_pre_init       20
#define CB_init_mpi           21
#define CB_fini_mpi           22
#define CB_mpi_post_fini      23

/* gate points beyond the callbacks (phase 0 before, 1 after) */
#define GP_real_pthread_create 40
#define GP_real_fork           41
#define GP_real_pthread_kill   42
#define GP_usleep              43
#define GP_sleep               44
#define GP_real_dlopen         45
#define GP_real_dlclose        46
#define GP_malloc              47
#define GP_setcancelstate      48
#define GP_cleanup             49
/* gate "what": faults */
#define GW_NONE   0
#define GW_FAIL   1     /* the real function fails with errno EAGAIN */
#define GW_DROP   2     /* the real function is not performed, returns 0 */
#define GW_CANCELPT 3   /* pthread_testcancel() inside the callback */
#define GW_RUN    4     /* a routine of the program, run inside the callback: GW_RUN | routine << 8 */

/* cfg indices */
#define CFG_QUIET          0    /* client logs nothing */
#define CFG_FAST           1    /* shorten the library's usleep() */
#define CFG_VCLOCK         2    /* virtual clock: usleep advances gettimeofday */
#define CFG_STACKADD       3    /* reset_stacksize adds this */
#define CFG_RETDATA        4    /* 0: callbacks return fresh cookies; 1: pass through; 2, 4, 8, 16: thread,
				   process, pre-create, pre-fork return NULL (64: -1 or 1), 32: sometimes */
#define CFG_IGNORE_ALL     5
#define CFG_CB_NEWINFO     6    /* query new-thread info in every callback */
#define CFG_MPI_NEST       7
#define CFG_MPI_INNERRANK  8
#define CFG_CSIG_RET0      9    /* client handler return value, per handler id: 9..12 */
#define CFG_SETSIZERANK   13
#define CFG_PRESETSIZE    14
#define CFG_PRESETRANK    15
#define CFG_CB_QUERY      16
#define CFG_CALLBACK_DISABLE 17 /* pre_create creates a helper thread with new threads disabled */
#define CFG_MAIN_EARLY    18
#define CFG_MPI_RET       19
#define CFG_MPI_SIZE      20
#define CFG_MPI_RANK      21
#define CFG_SIGACT_INLIB  22    /* signal mask (bits) the client registers */
#define CFG_SIGACT_RET    23
#define CFG_WRAPMAIN      24
#define CFG_INITIALIZE    25    /* client ctor calls monitor_initialize() */
#define CFG_MPI_PROVIDED  26
#define CFG_MPI_IERR      27
#define CFG_BLOCK_IN_FINI 28
#define CFG_SIGACT_MASK   29
#define CFG_SIGACT_FLAGS  30
#define CFG_SIGACT_USEACT 31
#define CFG_SIGACT_WHEN   32    /* 0 init_process, 1 init_library, 2 constructor, 3 start_main_init, 4 at_main */
#define CFG_CSIGNAP       33    /* client handlers registered by the program take this long (usec), and log their end */
#define CFG_WRAPMAIN_ST   34

static struct vshm *vshm_p;

static inline struct vshm *vshm(void)
{
    if (vshm_p == NULL) {
	int save = errno;
	void *p = (void *) syscall(SYS_mmap, NULL, sizeof(struct vshm),
				   PROT_READ | PROT_WRITE, MAP_SHARED, VFD, 0);
	if (p != MAP_FAILED && ((struct vshm *) p)->magic == V_MAGIC)
	    vshm_p = p;
	else
	    vshm_p = (void *) -1;
	errno = save;
    }
    return vshm_p == (void *) -1 ? NULL : vshm_p;
}

static inline int v_gettid(void) { return (int) syscall(SYS_gettid); }
static inline int v_getpid(void) { return (int) syscall(SYS_getpid); }

static inline uint64_t v_curmask(void)
{
    uint64_t m = 0;
    int save = errno;
    syscall(SYS_rt_sigprocmask, 0, NULL, &m, 8);
    errno = save;
    return m;
}

static inline void v_nap(long us)
{
    int save = errno;
    struct timespec ts = { us / 1000000, (us % 1000000) * 1000 };
    syscall(SYS_nanosleep, &ts, NULL);
    errno = save;
}

static inline struct vent *
vlog(int type, int code, int mtid, int64_t a0, int64_t a1, int64_t a2,
     int64_t a3, int64_t a4, int64_t a5, int64_t a6, int64_t a7)
{
    struct vshm *s = vshm();
    if (s == NULL)
	return NULL;
    uint32_t i = atomic_fetch_add(&s->log_n, 1);
    if (i >= V_NLOG) {
	atomic_fetch_add(&s->lost, 1);
	return NULL;
    }
    struct vent *e = &s->log[i];
    e->pid = v_getpid();
    e->ktid = v_gettid();
    e->mtid = mtid;
    e->type = type;
    e->code = code;
    e->idx = i;
    e->a[0] = a0; e->a[1] = a1; e->a[2] = a2; e->a[3] = a3;
    e->a[4] = a4; e->a[5] = a5; e->a[6] = a6; e->a[7] = a7;
    atomic_store(&e->done, 1);
    return e;
}

/* Append bytes to the raw region; returns the offset, or -1. */
static inline int64_t vraw(const void *data, uint32_t len)
{
    struct vshm *s = vshm();
    if (s == NULL)
	return -1;
    uint32_t off = atomic_fetch_add(&s->raw_n, len);
    if ((uint64_t) off + len > V_RAW) {
	atomic_fetch_add(&s->lost, 1);
	return -1;
    }
    memcpy(s->raw + off, data, len);
    return off;
}

static inline void v_waitflag(struct vshm *s, int f, uint32_t val)
{
    while (atomic_load(&s->flags[f]) < val)
	v_nap(100);
}

/* Bounded, so that a gate can never be what hangs a case. */
static inline void v_gatewait(struct vshm *s, int f, uint32_t val)
{
    for (int k = 0; k < 8000 && atomic_load(&s->flags[f]) < val; k++)
	v_nap(100);
}

/* Returns the fault to inject at this point. */
static inline int vgate(int point, int phase)
{
    struct vshm *s = vshm();
    int what = GW_NONE;
    if (s == NULL || s->n_gates == 0)
	return what;
    uint32_t n = atomic_fetch_add(&s->counts[(point * 2 + phase) & 255], 1) + 1;
    for (uint32_t k = 0; k < s->n_gates && k < V_NGATES; k++) {
	struct vgate *g = &s->gates[k];
	if (g->point != point || g->phase != phase)
	    continue;
	if (g->nth != 0 && (uint32_t) g->nth != n)
	    continue;
	if (g->set_flag >= 0)
	    atomic_fetch_add(&s->flags[g->set_flag], 1);
	if (g->sleep_us > 0)
	    v_nap(g->sleep_us);
	if (g->wait_flag >= 0)
	    v_gatewait(s, g->wait_flag, g->wait_val);
	if (g->what)
	    what = g->what;
    }
    return what;
}
#endif
