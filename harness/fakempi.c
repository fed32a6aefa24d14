/*
 * A fake MPI library: C and three Fortran manglings of Init,
 * Init_thread, Finalize, Comm_rank and Comm_size, with PMPI twins.
 * Configurable nesting: Fortran entry -> C entry -> PMPI entry, all
 * through the public (overridable) names, as real libraries do.
 */
#include "vcommon.h"

#define LOG(fn, var, p, a0) vlog(T_MPI, fn, -9, var, p, a0, 0, 0, 0, 0, 0)
#define LOGI(fn, p, a0, c, v) vlog(T_MPI, fn, -9, 0, p, a0, (int64_t) (intptr_t) (c), (int64_t) (intptr_t) (v), \
    (c) ? *(c) : -1, (v) ? (int64_t) (intptr_t) *(v) : -1, 0)
static inline int64_t cfgv(int k) { struct vshm *s = vshm(); return s ? s->cfg[k] : 0; }
/* size and rank of communicator c */
static inline int csize(int c) { return (int) cfgv(CFG_MPI_SIZE) + 100 * c; }
static inline int crank(int c) { return (int) cfgv(CFG_MPI_RANK) + 10 * c; }

int MPI_Init(int *, char ***), MPI_Init_thread(int *, char ***, int, int *), MPI_Finalize(void);
int MPI_Comm_rank(void *, int *), MPI_Comm_size(void *, int *);
int PMPI_Init(int *, char ***), PMPI_Init_thread(int *, char ***, int, int *), PMPI_Finalize(void);
int PMPI_Comm_rank(void *, int *), PMPI_Comm_size(void *, int *);

/*
 * Nesting: 1 Fortran calls C, 2 C calls PMPI, 4 Init calls Comm_rank
 * inside, 8 Init calls Init_thread, 32 Init_thread calls Init, 16 Comm_rank
 * forwards, 64 Finalize calls Comm_rank, 256 Init takes an argument off argv,
 * 512 the Fortran forms call one another (two underscores, one, none),
 * 1024 likewise the other way round.
 */
static inline int64_t ret(void) { return cfgv(CFG_MPI_RET); }
static inline void inside_init(int *c, char ***v)
{
    int r;
    if (cfgv(CFG_MPI_NEST) & 4)
	MPI_Comm_rank((void *) 3, &r);
    if ((cfgv(CFG_MPI_NEST) & 256) && c && v && *c > 1)
	(*v)[--*c] = NULL;
}
static inline int fini(void)
{
    int r;
    if (cfgv(CFG_MPI_NEST) & 64)
	MPI_Comm_rank((void *) 4, &r);
    return (int) ret();
}
static inline int giveprov(int *p) { if (ret() == 0) *p = (int) cfgv(CFG_MPI_PROVIDED); return (int) ret(); }
static inline int give(int *p, int v) { if (ret() == 0) *p = v; return (int) ret(); }

#ifdef W_INIT_C
int MPI_Init(int *c, char ***v)
{
    LOGI(0, 0, 0, c, v);
    if (cfgv(CFG_MPI_NEST) & 8) { int p; return MPI_Init_thread(c, v, 0, &p); }
    if (cfgv(CFG_MPI_NEST) & 2) return PMPI_Init(c, v);
    inside_init(c, v);
    return (int) ret();
}
#endif
#ifdef W_PINIT_C
int PMPI_Init(int *c, char ***v) { LOGI(0, 1, 0, c, v); inside_init(c, v); return (int) ret(); }
#endif
#ifdef W_INITT_C
int MPI_Init_thread(int *c, char ***v, int req, int *prov)
{
    LOGI(1, 0, req, c, v);
    if ((cfgv(CFG_MPI_NEST) & 40) == 32) { int r = MPI_Init(c, v); giveprov(prov); return r; }
    if (cfgv(CFG_MPI_NEST) & 2) return PMPI_Init_thread(c, v, req, prov);
    inside_init(c, v);
    return giveprov(prov);
}
#endif
#ifdef W_PINITT_C
int PMPI_Init_thread(int *c, char ***v, int req, int *prov)
{ LOGI(1, 1, req, c, v); inside_init(c, v); return giveprov(prov); }
#endif
#ifdef W_FINI_C
int MPI_Finalize(void) { LOG(2, 0, 0, 0); if (cfgv(CFG_MPI_NEST) & 2) return PMPI_Finalize(); return fini(); }
#endif
#ifdef W_PFINI_C
int PMPI_Finalize(void) { LOG(2, 0, 1, 0); return fini(); }
#endif
#ifdef W_COMM_C
int MPI_Comm_rank(void *c, int *r)
{
    LOG(3, 0, 0, (int64_t) (intptr_t) c);
    if (cfgv(CFG_MPI_NEST) & 16) return PMPI_Comm_rank(c, r);
    return give(r, crank((int) (intptr_t) c));
}
int MPI_Comm_size(void *c, int *r) { LOG(4, 0, 0, (int64_t) (intptr_t) c); return give(r, csize((int) (intptr_t) c)); }
#endif
#ifdef W_PCOMM_C
int PMPI_Comm_rank(void *c, int *r) { LOG(3, 0, 1, (int64_t) (intptr_t) c); return give(r, crank((int) (intptr_t) c)); }
int PMPI_Comm_size(void *c, int *r) { LOG(4, 0, 1, (int64_t) (intptr_t) c); return give(r, csize((int) (intptr_t) c)); }
#endif

#define FDECL(p, V) void p##init##V(int *), p##init_thread##V(int *, int *, int *), p##finalize##V(int *), \
    p##comm_rank##V(int *, int *, int *);
FDECL(mpi_, ) FDECL(mpi_, _) FDECL(mpi_, __) FDECL(pmpi_, ) FDECL(pmpi_, _) FDECL(pmpi_, __)
#define FWD(k) (k > 1 && (cfgv(CFG_MPI_NEST) & 512))
#define UPW(k) (k < 3 && (cfgv(CFG_MPI_NEST) & (512 | 1024)) == 1024)
/* V: this form's suffix, U and W: those of the forms it may call */
#define FI(p, V, U, W, k, pm) void p##init##V(int *ie) { LOG(0, k, pm, 0); \
    if (FWD(k)) p##init##U(ie); \
    else if (UPW(k)) p##init##W(ie); \
    else if (cfgv(CFG_MPI_NEST) & 1) *ie = pm ? PMPI_Init(NULL, NULL) : MPI_Init(NULL, NULL); \
    else { inside_init(NULL, NULL); *ie = (int) ret(); } }
#define FIT(p, V, U, W, k, pm) void p##init_thread##V(int *rq, int *pv, int *ie) { LOG(1, k, pm, *rq); \
    if (FWD(k)) p##init_thread##U(rq, pv, ie); \
    else if (UPW(k)) p##init_thread##W(rq, pv, ie); \
    else if (cfgv(CFG_MPI_NEST) & 1) *ie = pm ? PMPI_Init_thread(NULL, NULL, *rq, pv) : MPI_Init_thread(NULL, NULL, *rq, pv); \
    else { inside_init(NULL, NULL); *ie = giveprov(pv); } }
#define FF(p, V, U, W, k, pm) void p##finalize##V(int *ie) { LOG(2, k, pm, 0); \
    if (FWD(k)) p##finalize##U(ie); \
    else if (UPW(k)) p##finalize##W(ie); \
    else if (cfgv(CFG_MPI_NEST) & 1) *ie = pm ? PMPI_Finalize() : MPI_Finalize(); \
    else *ie = fini(); }
#define FC(p, V, U, W, k, pm) void p##comm_rank##V(int *c, int *r, int *ie) { LOG(3, k, pm, *c); \
    if (FWD(k)) p##comm_rank##U(c, r, ie); \
    else if (UPW(k)) p##comm_rank##W(c, r, ie); \
    else if (cfgv(CFG_MPI_NEST) & 16) { *ie = pm ? PMPI_Comm_rank((void *) (intptr_t) *c, r) : MPI_Comm_rank((void *) (intptr_t) *c, r); } \
    else *ie = give(r, crank(*c)); } \
    void p##comm_size##V(int *c, int *r, int *ie) { LOG(4, k, pm, *c); *ie = give(r, csize(*c)); }
#ifdef W_FI
FI(mpi_, , , _, 1, 0)
#endif
#ifdef W_FI1
FI(mpi_, _, , __, 2, 0)
#endif
#ifdef W_FI2
FI(mpi_, __, _, , 3, 0)
#endif
#ifdef W_FIT
FIT(mpi_, , , _, 1, 0)
#endif
#ifdef W_FIT1
FIT(mpi_, _, , __, 2, 0)
#endif
#ifdef W_FIT2
FIT(mpi_, __, _, , 3, 0)
#endif
#ifdef W_FF
FF(mpi_, , , _, 1, 0)
#endif
#ifdef W_FF1
FF(mpi_, _, , __, 2, 0)
#endif
#ifdef W_FF2
FF(mpi_, __, _, , 3, 0)
#endif
#ifdef W_FC
FC(mpi_, , , _, 1, 0)
#endif
#ifdef W_FC1
FC(mpi_, _, , __, 2, 0)
#endif
#ifdef W_FC2
FC(mpi_, __, _, , 3, 0)
#endif
#ifdef W_P
FI(pmpi_, , , _, 1, 1) FI(pmpi_, _, , __, 2, 1) FI(pmpi_, __, _, , 3, 1)
FIT(pmpi_, , , _, 1, 1) FIT(pmpi_, _, , __, 2, 1) FIT(pmpi_, __, _, , 3, 1)
FF(pmpi_, , , _, 1, 1) FF(pmpi_, _, , __, 2, 1) FF(pmpi_, __, _, , 3, 1)
FC(pmpi_, , , _, 1, 1) FC(pmpi_, _, , __, 2, 1) FC(pmpi_, __, _, , 3, 1)
#endif
