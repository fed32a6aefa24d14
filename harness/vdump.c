/* Target of exec and system: records its arguments and environment. */
#include "vcommon.h"
#include <stdlib.h>
#include <fcntl.h>
extern char **environ;
int main(int argc, char **argv)
{
    struct vshm *s = vshm();
    if (s == NULL)
	return 97;
    static char buf[1 << 21];
    size_t n = 0;
    int ne = 0;
    for (int i = 0; i < argc; i++) {
	size_t l = strlen(argv[i]) + 1;
	if (n + l < sizeof(buf)) { memcpy(buf + n, argv[i], l); n += l; }
    }
    for (; environ[ne]; ne++) {
	size_t l = strlen(environ[ne]) + 1;
	if (n + l < sizeof(buf)) { memcpy(buf + n, environ[ne], l); n += l; }
    }
    int64_t off = vraw(buf, n);
    struct ksa { void *h; unsigned long f; void *r; uint64_t m; } k;
    char cwd[512];
    uint64_t ign = 0;
    for (int sg = 1; sg < 65; sg++)
	if (syscall(SYS_rt_sigaction, sg, NULL, &k, 8) == 0 && k.h == (void *) 1) ign |= 1ull << (sg - 1);
    int64_t co = -1;
    if (syscall(SYS_getcwd, cwd, sizeof cwd) > 0) co = vraw(cwd, strlen(cwd) + 1);
    vlog(T_DUMP, 0, -9, argc, ne, off, n, v_curmask(), ign, co, getppid());
    const char *q = getenv("VDUMP_STATUS");
    return q ? atoi(q) : 0;
}
