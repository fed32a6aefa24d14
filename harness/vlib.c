/* Libraries for dlopen: their constructors and destructors log, and with
 * NESTED they load and unload another library themselves. */
#ifndef VAL
#define VAL 1
#endif
#define _GNU_SOURCE
#include "vcommon.h"
#include "vops.h"
#include <dlfcn.h>
#include <string.h>
int vlib_value(void) { return VAL; }
#ifdef NESTED
static void *inner;
static char path[512];
#endif
__attribute__ ((constructor)) static void c(void)
{
    vlog(T_LIBC, VAL, -9, 0, 0, 0, 0, 0, 0, 0, 0);
#ifdef NESTED
    Dl_info di;
    if (dladdr((void *) c, &di) && strlen(di.dli_fname) < 500) {
	strcpy(path, di.dli_fname);
	strcpy(strrchr(path, '/') + 1, NESTED);
	vlog(T_OP, OP_DLOPEN, -9, -1, (int64_t) (intptr_t) path, RTLD_NOW, 0, 0, 0, 0, 0);
	inner = dlopen(path, RTLD_NOW);
	vlog(T_RES, OP_DLOPEN, -9, -1, (int64_t) (intptr_t) inner, 0, 0, 0, 0, 0, 0);
    }
#endif
}
__attribute__ ((destructor)) static void d(void)
{
#ifdef NESTED
    if (inner != NULL) {
	vlog(T_OP, OP_DLCLOSE, -9, -1, (int64_t) (intptr_t) inner, 0, 0, 0, 0, 0, 0);
	int r = dlclose(inner);
	vlog(T_RES, OP_DLCLOSE, -9, -1, r, (int64_t) (intptr_t) inner, 0, 0, 0, 0, 0);
    }
#endif
    vlog(T_LIBC, VAL, -9, 1, 0, 0, 0, 0, 0, 0, 0);
}
