extern int vapp_main(int, char **, char **);
extern void *vapp_main_addr;
int main(int argc, char **argv, char **envp)
{
    vapp_main_addr = (void *) &main;
    return vapp_main(argc, argv, envp);
}
