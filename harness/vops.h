/* Operations of the scripted application (parsed by vp/proto.py too). */
#ifndef VOPS_H
#define VOPS_H
#define OP_END          0   /* end of routine, value 0 */
#define OP_RETURN       1   /* value */
#define OP_MARK         2   /* value */
#define OP_QUERY        3
#define OP_CREATE       4   /* slot, fn, arg, attrkind, stacksize, hint, hintstack */
#define OP_JOIN         5   /* slot */
#define OP_DETACH       6   /* slot */
#define OP_CANCEL       7   /* slot */
#define OP_PEXIT        8   /* value */
#define OP_CSTATE       9   /* 1 disable, 0 enable */
#define OP_CTYPE       10   /* 1 async, 0 deferred */
#define OP_TESTCANCEL  11
#define OP_SETF        12   /* flag */
#define OP_WAITF       13   /* flag, value */
#define OP_LIVE        14   /* style, flag set on entry */
#define OP_NAP         15   /* usec */
#define OP_FORK        16   /* slot, kind (0 fork 1 vfork 2 monitor_real_fork), child routine */
#define OP_WAITCHILD   17   /* slot */
#define OP_EXIT        18   /* kind, status/signal */
#define OP_ATEXIT      19   /* routine */
#define OP_EXEC        20   /* kind, path, argv, argc, env, envc, flags */
#define OP_SETENV      21   /* name, value */
#define OP_UNSETENV    22   /* name */
#define OP_CHDIR       23   /* path */
#define OP_SYSTEM      24   /* command (-1 NULL), real */
#define OP_SIGACTION   25   /* sig, kind, flags, mask, mode, routine+1 */
#define OP_SIGNAL      26   /* sig, kind */
#define OP_MASK        27   /* fn, how, set, mode */
#define OP_MSIGACTION  28   /* sig, retval, flags, mask, useact */
#define OP_RAISE       29   /* kind, sig, value, slot */
#define OP_SIGWAIT     30   /* kind, set, timeout_us, noinfo, flag set before */
#define OP_DLOPEN      31   /* slot, path, flags, real */
#define OP_DLCLOSE     32   /* slot, real */
#define OP_MPI         33   /* fn, variant, comm, pmpi, null args, result, thread level */
#define OP_BT          34   /* depth, scan */
#define OP_BROADCAST   35   /* sig */
#define OP_BLOCKSD     36
#define OP_UNBLOCKSD   37
#define OP_NEWTHREADS  38   /* 1 enable 0 disable */
#define OP_NEWINFO     39   /* null */
#define OP_SIGSTR      40   /* size, set, nullset, nullbuf */
#define OP_LISTSTR     41   /* size, list offset, count, null, nullbuf */
#define OP_SETSIZERANK 42   /* size, rank */
#define OP_GETSIZERANK 43
#define OP_CALL        44   /* routine, count */
#define OP_CLEANUP     45   /* routine run between cleanup push and pop, tag, execute */
#define OP_KEYSET      46   /* value */
#define OP_CREATEN     47   /* base slot, count, arg (low 16 bits routine), mode */
#define OP_JOINN       48   /* base slot, count */
#define OP_KMASK       49   /* raw kernel mask, set */
#define OP_WRITE       50   /* string to stdout */
#define OP_INITIALIZE  51
#define OP_SHOOTSIG    52   /* effective shootdown signal, by mask probing */
#define OP_SELFARGS    53   /* dump argv and environ as seen by main */
#define OP_GETENV      54   /* name */
#define OP_PENDING     55
#define OP_WAITLIVE    56   /* flag, value: like WAITF but bounded */
#define OP_ERRNO       57   /* set errno */
#define OP_LONGJMP     58   /* run routine under sigsetjmp; a siglongjmp in a handler returns here */
#define OP_DOLONGJMP   59
#define OP_SIGALTSTACK 60   /* install an alternate stack */
#define OP_POPEN       61   /* command: popen/read/pclose */
#define OP_WAITEXITED  62   /* slot: wait until that ktid is gone */
#define OP_STOPCHILD   63
#define OP_CREATEQ     64   /* CREATE of a thread which immediately exits, repeated count times: base, count, arg */
#define OP_ALARM       65   /* setitimer real, usec */
#define OP_EXECSELF    66
#define OP_SETRLIMIT   67
#define OP_FINISH      68
#define OP_MANYT       69   /* count, together: so many threads, by so many at a time, with nothing logged but the sum */
#define OP_PGRP        70   /* a process group of its own */
#define OP_WAITSTOP    71   /* child slot: wait until it ends, continue it whenever it stops */

/* exit kinds */
#define EX_exit     0
#define EX__exit    1
#define EX__Exit    2
#define EX_abort    3
#define EX_raise    4
#define EX_kill     5
#define EX_pexit    6
#define EX_realexit 7
#define EX_realabort 8
#define EX_segv     9
#define EX_fpe     10
#define EX_ill     11
#define EX_bus     12
#define EX_tkill   13
#define EX_queue   14
/* live styles */
#define LV_nap      0
#define LV_pause    1
#define LV_sigwait  2
#define LV_masked   3
#define LV_cond     4
#define LV_sleep    5
#define LV_read     6
#define LV_nocancel 7
#define LV_poll     8
#define LV_sigwaitinfo 9
#define LV_sigtimedwait 10
#define LV_sem      11
#define LV_mutex    12
#define LV_async    13
#define LV_spin     14
#define LV_smask    15
#define LV_signone  16
#define LV_NSTYLES  17
/* attr kinds */
#define AT_null     0
#define AT_default  1
#define AT_detached 2
#define AT_stack    3
#define AT_stacksize 4
#define AT_badsched 5
#define AT_guard    6
/* hints for the client (keyed by kernel tid): low byte kind */
#define HINT_NONE   0
#define HINT_IGNORE 1
#define HINT_STACK  2
#endif
