#include "vcommon.h"
#include <stddef.h>
#include <stdio.h>
#define O(f) printf("%s %zu\n", #f, offsetof(struct vshm, f))
int main(void)
{
    O(magic); O(n_ops); O(n_rout); O(n_gates); O(log_n); O(raw_n); O(lost); O(cookie); O(cfg);
    O(flags); O(counts); O(gates); O(rout); O(hints); O(hint_stack); O(ops); O(str); O(log); O(raw);
    printf("size %zu\nvent %zu\nvop %zu\nvgate %zu\n", sizeof(struct vshm), sizeof(struct vent),
	   sizeof(struct vop), sizeof(struct vgate));
    return 0;
}
