/*
 * Stand-ins for the real functions, placed behind libmonitor in the
 * symbol search order: they record, delay or fail the real call.
 */
#include "vcommon.h"
#include <dlfcn.h>
#include <pthread.h>
#include <stdlib.h>

#define NEXT(v, n) do { if (v == NULL) v = dlsym(RTLD_NEXT, n); } while (0)
static int (*r_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static pid_t (*r_fork)(void);
static int (*r_kill)(pthread_t, int);
static void *(*r_dlopen)(const char *, int);
static int (*r_dlclose)(void *);

int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg)
{
    NEXT(r_create, "pthread_create");
    size_t sz = 0;
    if (a) pthread_attr_getstacksize(a, &sz);
    int w = vgate(GP_real_pthread_create, 0);
    struct vshm *s = vshm();
    if (s != NULL && (atomic_load(&s->hints[v_gettid() & (V_NHINT - 1)]) & 0x100))
	w = GW_FAIL;
    int r = w == GW_FAIL ? EAGAIN : r_create(t, a, f, arg);
    vlog(T_REAL, GP_real_pthread_create, -9, r, sz, a != NULL, 0, 0, 0, 0, 0);
    vgate(GP_real_pthread_create, 1);
    return r;
}
pid_t fork(void)
{
    NEXT(r_fork, "fork");
    int w = vgate(GP_real_fork, 0);
    if (w == GW_FAIL) {
	vlog(T_REAL, GP_real_fork, -9, -1, 0, 0, 0, 0, 0, 0, 0);
	errno = EAGAIN;
	return -1;
    }
    pid_t p = r_fork();
    int e = errno;
    if (p != 0) {
	vlog(T_REAL, GP_real_fork, -9, p, 0, 0, 0, 0, 0, 0, 0);
	vgate(GP_real_fork, 1);
    }
    errno = e;
    return p;
}
int pthread_kill(pthread_t t, int sig)
{
    NEXT(r_kill, "pthread_kill");
    int w = vgate(GP_real_pthread_kill, 0);
    struct vshm *s = vshm();
    if (s != NULL && s->cfg[CFG_VCLOCK])
	vlog(T_REAL, GP_real_pthread_kill, -9, sig, w, (int64_t) t, 0, 0, 0, 0, 0);
    if (w == GW_DROP)
	return 0;
    if (w == GW_FAIL)
	return ESRCH;
    return r_kill(t, sig);
}
static int (*r_setcs)(int, int *);
int pthread_setcancelstate(int st, int *old)
{
    NEXT(r_setcs, "pthread_setcancelstate");
    vgate(GP_setcancelstate, 0);
    int r = r_setcs(st, old);
    vgate(GP_setcancelstate, 1);
    return r;
}
#ifndef VSTATIC
__attribute__ ((constructor))
static void after_ctor(void)
{
    NEXT(r_create, "pthread_create");
    NEXT(r_fork, "fork");
    NEXT(r_kill, "pthread_kill");
    NEXT(r_setcs, "pthread_setcancelstate");
}
#endif
