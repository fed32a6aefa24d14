/* The application proper is a plugin loaded with RTLD_LOCAL. */
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
int main(int argc, char **argv, char **envp)
{
    char *pre = getenv("VPRE");
    void *ph = pre ? dlopen(pre, RTLD_NOW | RTLD_LOCAL) : NULL;     /* before the plugin in the search order */
    void *h = dlopen(getenv("VPLUG"), RTLD_NOW | RTLD_LOCAL);
    if (h == NULL) { fprintf(stderr, "%s\n", dlerror()); return 93; }
    int (*f)(int, char **, char **) = (int (*)(int, char **, char **)) dlsym(h, "vapp_main");
    void **pa = dlsym(h, "vapp_main_addr");
    if (pa) *pa = (void *) &main;
    void (*sh)(int, void *) = (void (*)(int, void *)) dlsym(h, "vapp_set_handle");
    if (sh) sh(31, ph);
    return f ? f(argc, argv, envp) : 92;
}
