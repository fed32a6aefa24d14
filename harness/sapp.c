/*
 *  Program run by the monitor-run check: writes to the file named by
 *  VS_OUT its arguments, environment, directory and loaded objects
 *  (NUL-separated records), copies stdin to stdout and ends as VS_END
 *  says ("e<status>", "r<status>", "s<signal>").
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

extern char **environ;
static FILE *f;

static void
rec(char k, const char *s)
{
    fputc(k, f);
    fputs(s, f);
    fputc(0, f);
}

static int
obj(struct dl_phdr_info *info, size_t size, void *data)
{
    rec('L', info->dlpi_name);
    return 0;
}

int
main(int argc, char **argv)
{
    const char *out = getenv("VS_OUT"), *end = getenv("VS_END");
    char buf[4096];
    ssize_t n;
    int i, st;

    f = fopen(out, "a");
    if (f == NULL)
	return 99;
    rec('P', "");
    for (i = 0; i < argc; i++)
	rec('A', argv[i]);
    for (i = 0; environ[i] != NULL; i++)
	rec('E', environ[i]);
    if (getcwd(buf, sizeof(buf)) != NULL)
	rec('D', buf);
    dl_iterate_phdr(obj, NULL);
    snprintf(buf, sizeof(buf), "%d", (int) getpid());
    rec('I', buf);
    rec('Z', "");
    fclose(f);
    while ((n = read(0, buf, sizeof(buf))) > 0) {
	if (write(1, buf, n) != n)
	    return 98;
    }
    st = atoi(end + 1);
    switch (end[0]) {
    case 'e': exit(st);
    case 's': kill(getpid(), st); for (;;) pause();
    }
    return st;
}
