#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: one entry per property that has
a check module in vp/checks."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, observe=None):
    assert len(title) <= 80, title
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                   why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                observe_at=observe or ["client callbacks", "libc calls of the application"],
                                hook_needed=None)), tech, note))


M, PT, S, F, D = "src/main.c", "src/pthread.c", "src/signal.c", "src/fork.c", "src/dlopen.c"

prop("C01", "Every process image is bracketed by begin and end callbacks exactly once",
     "In every monitored process the client gets the library-init, process-init and at-main callbacks exactly once "
     "each, in that order and finished before the application's main runs, and exactly one begin-exit followed by one "
     "process-fini callback (and, under LD_PRELOAD, one library-fini after that) however the process ends: return from "
     "main, exit, _exit, _Exit, pthread_exit from main, abort, a fatal signal, a fault, a successful exec, or exit "
     "called again from an exit handler or a signal handler. When the client itself ends the process (or faults) "
     "inside one of those two callbacks, the process still terminates, with that status or signal, and neither "
     "callback begins a second time. A statically linked application's own wrapper of main, if it has one, gets control "
     "once, between at-main and main, with main's arguments. The how argument tells normal exit, signal and exec "
     "apart, and the exit status or terminating signal is the one the application asked for. No client callback "
     "other than library-fini comes after process-fini has begun.",
     ["programs", "histories", "configurations"],
     "every program, every way of leaving it, nested and repeated exits, constructors that reach the library before "
     "main, dynamic and static linking",
     "the tests run a few fixed exit routes and look at printed output; they never combine routes, handlers and early "
     "initialisation, nor count callbacks",
     [M, S, F, PT], [("monitor_begin_process_fcn", M), ("monitor_end_process_fcn", M), ("monitor_signal_handler", S),
                     ("monitor_execv", F), ("pthread_exit override", PT)],
     "generated programs x exit routes against a lifecycle model (Hypothesis, shrinking)",
     "random search over generated programs; bounded program size")

prop("C02", "Every application thread is bracketed by thread-init and thread-fini",
     "Every thread the application creates gets exactly one thread-init callback, in that thread and finished before "
     "its start routine runs, and exactly one thread-fini callback, in that thread after its start routine has "
     "returned, called pthread_exit or been canceled, whatever the attributes, nesting, detach state and cancellation "
     "timing. Thread support is announced once, before the first of these, and a pre-create and a post-create callback "
     "surround every creation in the creating thread, also when it fails. Thread-fini is complete before a join of "
     "the thread returns, and a cancellation request that arrives during a thread callback does not cut it short.",
     ["programs", "schedules", "fault_sequences"],
     "every nesting of creations, every way a thread ends, every moment of cancellation, failing creations",
     "the tests create a fixed number of similar threads; cancellation at chosen moments, failing creations and "
     "nested threads are never exercised",
     [PT], [("monitor_begin_thread", PT), ("monitor_pthread_cleanup_routine", PT), ("pthread_create override", PT)],
     "generated thread trees with gated schedules and injected creation failures against a per-thread model",
     "random search; schedules steered by gates at callbacks and real-call boundaries")

prop("C03", "Process exit finishes every live thread first, whoever exits and however",
     "When the process ends while other monitored threads are alive, each of them that has started gets its thread-fini "
     "callback exactly once, in its own thread, before process-fini begins and after begin-exit, whether it computes, "
     "blocks in a system call or a signal wait, has blocked all signals or disabled cancellation; being reached this way "
     "does not make its blocking read or semaphore wait fail with EINTR, and a thread inside one of its signal "
     "handlers gets the callback after the handler has returned. This holds "
     "whichever thread ends the process (a cancellation request pending in it does not cut its exit callbacks short) "
     "and by whatever route, and when several threads try to end it at once there "
     "is still exactly one begin-exit and one process-fini and the process terminates with the status of one of them.",
     ["schedules", "programs", "histories"],
     "every set of live threads in every state, every exiting thread and route, every race between exits and thread "
     "ends",
     "the shootdown tests cover four exit routes from fixed programs with sleeping threads; races between thread end, "
     "second exits and the exit sweep are not scheduled",
     [PT, M, S], [("monitor_thread_shootdown", PT), ("monitor_shootdown_handler", PT), ("monitor_end_process_fcn", M)],
     "generated multi-thread exits with gated races against an exit-protocol model",
     "random search; races steered by gates; threads inside handlers or in sigsuspend(all) excluded")

prop("C04", "Client data returned by one callback reaches its counterpart, and only that",
     "The value the client returns from process-init is what process-fini receives and what user-data queries in the "
     "main thread return; the value from pre-fork goes to the post-fork callback of the same fork in the parent (with "
     "the right child pid, or -1 for a failed fork) and to process-init in that child; the value from thread-pre-create "
     "goes to post-create of the same creation and to thread-init of that very thread, and what thread-init returns "
     "goes to its thread-fini and its user-data queries. No value ever reaches another thread, another creation or "
     "another process, however creations, forks and failures interleave.",
     ["programs", "schedules", "fault_sequences"],
     "every interleaving of creations, thread ends, forks, system calls and failed creations and forks",
     "the tests print fixed data for a few threads; they do not interleave, nest or fail creations or forks",
     [PT, F, M], [("tn_user_data", "src/pthread_h.h"), ("monitor_fork", F), ("monitor_begin_process_fcn", M)],
     "generated concurrent create/fork histories with unique cookies, matched end to end",
     "random search; every callback returns a fresh cookie and its flow is checked")

prop("C05", "Thread identity: numbers, start routine and user data are right everywhere",
     "The main thread has number 0 and every monitored thread a positive number that no other thread of the process "
     "ever has, given to thread-init and returned by every query the thread makes until its thread-fini has finished; "
     "start-routine and user-data queries in a thread give that thread's own routine and data, and the address of main "
     "is the application's. The process counts as threaded exactly from its first thread creation on, also when that one is ignored or fails. This holds for "
     "any number of threads, live together or one after another, and a finished thread that still runs application "
     "destructors never sees another thread's identity.",
     ["programs", "histories", "schedules"],
     "every creation history, including hundreds of threads and reuse of finished threads' records",
     "the tests use at most a handful of threads and do not query identity after finishing",
     [PT], [("monitor_link_thread_node", PT), ("monitor_make_thread_node", PT), ("monitor_get_tn", PT)],
     "generated thread histories (up to 1400 threads) with identity queries against a model",
     "random search")

prop("C06", "Thread creation and thread results are transparent to the application",
     "A monitored pthread_create passes the argument to the start routine, gives back the same error codes as the "
     "system's, and a join gives the same result as without monitoring: the returned or pthread_exit value, or "
     "canceled. The attributes take effect as without monitoring (detach state, guard, user stack, size) except that "
     "the stack size is what the client's stack-size callback asked for, and the attribute object itself is unchanged "
     "afterwards. Cleanup handlers and thread-specific destructors run as they do without monitoring.",
     ["programs", "inputs", "fault_sequences"],
     "every attribute, argument, return value and way of ending; every stack size the client asks for, valid or not",
     "the tests never check attributes, reuse of an attribute object, results or errors of creation",
     [PT], [("monitor_adjust_stack_size", PT), ("pthread_create override", PT), ("monitor_begin_thread", PT)],
     "differential: the same generated program natively and monitored; stack sizes against the client's request",
     "random search")

prop("C07", "Threads the client ignores run normally and cause no thread callbacks",
     "A thread created while its creator has new threads disabled, or whose pre-create callback asked for it to be "
     "ignored, starts, runs and can be joined exactly as without monitoring, yet causes no thread-init, thread-fini or "
     "post-create callback, has no thread number, and is not waited for at exit, and may call the client-support functions without harm; with new threads disabled there is no "
     "pre-create callback either. Disabling affects only creations by the calling thread and only until it enables "
     "them again; threads that an ignored thread creates are ignored too, all others are monitored as usual. A process exit by an ignored thread still "
     "gives the full exit sequence.",
     ["programs", "histories", "schedules"],
     "every mix of ignored and monitored threads, nested, concurrent, and present at process exit",
     "one test ignores every second thread of one flat program",
     [PT], [("tn_ignore_threads", "src/pthread_h.h"), ("MONITOR_IGNORE_NEW_THREAD", "src/monitor.h")],
     "generated mixes of ignored and monitored threads against a model",
     "random search")

prop("C08", "A forked child is a monitored process of its own",
     "Around every fork or vfork the parent's calling thread gets one pre-fork and one post-fork callback, the latter "
     "also when the fork fails, and the child gets process-init before its fork returns. From then on the child is a "
     "single-threaded process of its own, whichever thread forked and whatever the other threads were doing: its "
     "caller has thread number 0, it can create threads, fork and exec again, and it gets its own full exit sequence "
     "exactly once, whether or not the parent had already begun to exit. Nothing the child does causes callbacks in "
     "the parent.",
     ["programs", "schedules", "histories", "fault_sequences"],
     "every tree of forks from main and other threads, at any moment including during exit, with failing forks",
     "the tests fork from a plain main and do not fork from threads, from exit handlers or repeatedly",
     [F, M, PT], [("monitor_fork", F), ("monitor_begin_process_fcn", M), ("monitor_reset_thread_list", PT)],
     "generated process trees (forks from threads and exit handlers, injected failures) against a process-tree model",
     "random search")

prop("C09", "exec passes program, arguments and environment through unchanged",
     "For every exec variant the new program gets exactly the arguments and environment the application passed (any "
     "number and length of arguments, the environment given or inherited), found by the same search path rules as the "
     "system's exec. A successful exec gives one begin-exit and one process-fini with how exec before the new image "
     "starts; an exec of a program that does not exist or lacks execute permission fails with the same error as without "
     "monitoring, gives no callbacks, and leaves the process running and monitored as before.",
     ["inputs", "programs", "configurations"],
     "every variant, argument count and length, environment, search path (unset, empty, empty components, long)",
     "the tests exec one fixed command per variant with few arguments",
     [F], [("monitor_copy_va_args", F), ("monitor_is_executable", F), ("monitor_execv", F)],
     "differential against the unmonitored system over generated paths, PATHs, argument lists and environments",
     "random search, argument counts up to 590")

prop("C10", "system() behaves as the system's own, plus one pre-fork and one post-fork",
     "system() returns the same status as without monitoring for every command (exit codes, signals, missing commands, "
     "no command), leaves the caller's signal mask and its handling of interrupt and quit as they were, and runs the "
     "command with the caller's environment and original signal settings. Each call with a command gives exactly one "
     "pre-fork and one post-fork callback with that child's pid, also when the fork fails (then with -1), and no "
     "process exit callbacks in the caller; with the override turned off by its environment variable it gives none.",
     ["inputs", "histories", "fault_sequences", "configurations"],
     "every command, every prior signal state, failing forks, from any thread",
     "one test runs a fixed command and checks only that it ran",
     [F], [("monitor_system", F), ("system override", F)],
     "differential against the unmonitored system over generated commands and signal states",
     "random search; concurrent system() calls excluded")

prop("C11", "The client's real functions bypass monitoring and nothing else",
     "The client's versions of system, execve, fork, exit, abort, dlopen and dlclose do what the system's functions do "
     "and cause none of the callbacks the application's calls would. A program started by the real system or execve "
     "is not monitored, and gets exactly the caller's arguments and environment in order, with only the preload "
     "variable missing, however many variables there are and whatever their names.",
     ["inputs", "programs", "configurations"],
     "every environment (including hundreds of variables and names that begin alike), command and argument list",
     "no test looks at the environment of a program started by the real functions",
     [F, M, S, D], [("monitor_copy_environ", F), ("monitor_real_fork", M), ("monitor_real_abort", S),
                    ("monitor_real_dlopen", D)],
     "generated environments, commands and call sequences against an exact model of the child's view",
     "random search, up to 700 environment variables")

prop("C12", "Signal masks behave as without monitoring, except for the reserved signals",
     "After any sequence of sigprocmask and pthread_sigmask calls in any thread, return values, errors, reported old "
     "masks and the mask in effect are those of the same program without monitoring, for every signal that is not "
     "reserved. A reserved signal (the exit signal and those the client has registered or configured) never has its "
     "blocking state changed by the application. New threads inherit their creator's mask, and the real versions given "
     "to the client are unrestricted.",
     ["histories", "inputs", "schedules"],
     "every sequence of mask operations, sets and how values, in any thread, with client registrations in between",
     "the test masks all signals once and checks that the process still exits",
     [S, PT], [("monitor_remove_client_signals", S), ("sigprocmask override", S), ("pthread_sigmask override", PT)],
     "differential and model: mask operations natively, monitored and in a reference model",
     "random search")

prop("C13", "Signal dispositions read back exactly as the application set them",
     "sigaction and signal return the same results and errors as without monitoring, and report as previous "
     "disposition the handler (and, after sigaction, the flags and mask) that the application installed last, for "
     "every signal number, valid or not, whether or not the client has registered a handler for it. A call without a "
     "new action changes nothing.",
     ["histories", "inputs"],
     "every sequence of sigaction and signal calls on every signal number, with client registrations in between",
     "no test reads a disposition back",
     [S], [("monitor_appl_sigaction", S), ("signal override", S)],
     "differential and model over generated sigaction/signal histories",
     "random search; SA_RESTORER and inherited ignored signals excluded")

prop("C14", "Signals reach the client first, then take the application's effect exactly once",
     "A signal for which the client has registered a handler is offered to it first, with its signal information; if "
     "the client accepts it, nothing else happens, otherwise, and for every other signal, it has the effect it would "
     "have without monitoring: the application's handler runs once with the same arguments, in the same thread, with "
     "the same signals blocked, or the signal is ignored, stops the process (as its parent sees it) or terminates it. One-shot, no-defer, "
     "nested, blocked-then-unblocked and queued deliveries behave as without monitoring, and the mask is restored "
     "afterwards.",
     ["histories", "inputs", "schedules"],
     "every sequence of handler installations, mask changes and deliveries by kill, raise, queue, thread-directed "
     "signals and faults",
     "the tests send one signal to one handler",
     [S], [("monitor_signal_handler", S), ("monitor_sigaction", S), ("monitor_adjust_samask", S)],
     "differential of handler traces, native against monitored, plus a model of client acceptance",
     "random search; alternate stacks and restart flags excluded")

prop("C15", "Waiting for signals returns exactly the application's signals",
     "sigwait, sigwaitinfo and sigtimedwait return the signal, information, errors and timeouts they would without "
     "monitoring. A signal that the client has registered and accepts is given to the client once and is never "
     "returned to the application, and the wait goes on; one that the client declines is returned. A thread "
     "waiting for any set of signals still gets its thread-fini when the process exits.",
     ["histories", "inputs", "schedules"],
     "every set of awaited signals, order of pending signals, client registrations and process exits during a wait",
     "one test waits in all threads while the process exits; returned values are not examined",
     [PT, S], [("monitor_sigwait_helper", PT), ("monitor_sigwait_handler", S)],
     "differential and model over generated pending signals and waits",
     "random search; EINTR restarts and full-timeout restarts excluded")

prop("C16", "dlopen and dlclose are transparent and each has one pair of callbacks",
     "Every dlopen by the application gives one callback before and one after the load, with the application's path "
     "and flags and the resulting handle, also when it fails; every dlclose gives one before and one after, with the "
     "handle and the result. Results are those of the system's functions and the library is usable between "
     "them. Loads the client makes through the real functions, and the library's own symbol searches, give none.",
     ["histories", "inputs", "programs"],
     "every sequence of loads and unloads, repeated, failing, nested in constructors, with any flags",
     "no test covers dlopen",
     [D, "src/common.c"], [("dlopen override", D), ("dlclose override", D)],
     "generated load/unload histories against a model of the callbacks",
     "random search")

prop("C17", "MPI programs get one init and one finalize pair per outermost call",
     "Whatever interface initialises MPI (C or any Fortran name form, with or without thread level, profiling names "
     "where supported) and however the MPI library's own entry points call one another, the outermost call gives "
     "one pre-init callback before and one init callback after the library's initialisation, and the outermost "
     "finalize one fini callback before and one post-fini after. Arguments and results pass through unchanged, and "
     "the init callback gets the argument count and vector that the program passed or, from Fortran, the program's own.",
     ["programs", "configurations", "histories"],
     "every interface variant, nesting among entry points, order and result",
     "no MPI library is installed where the tests run, so they skip MPI",
     ["src/mpi.c", "src/pmpi.c", "src/mpi_init_c.c", "src/mpi_final_c.c"],
     [("monitor_mpi_init_count", "src/mpi.c"), ("MPI_Init override", "src/mpi_init_c.c")],
     "generated MPI call sequences over a configurable fake MPI library against a model",
     "random search; the MPI library is a stand-in")

prop("C18", "The MPI size and rank the client sees are those of the first communicator asked",
     "Before the program asks MPI for a rank the client sees size and rank -1, unless it set them itself; from the "
     "first successful rank query on, or once set by the client, both values stay fixed, whatever communicators the "
     "program asks about later. The values the application gets are always those of its own query.",
     ["histories", "programs"],
     "every sequence of rank and size queries over communicators and interfaces, and client settings",
     "no MPI library is installed where the tests run",
     ["src/mpi.c", "src/mpi_comm_c.c", "src/mpi_comm_f0.c"], [("monitor_set_mpi_size_rank", "src/mpi.c")],
     "generated query sequences over a fake MPI library against a model",
     "random search; the MPI library is a stand-in")

prop("C19", "A broadcast signal reaches every other live thread once and the caller never",
     "A successful broadcast sends the signal exactly once to every other thread that is past its thread-init and not "
     "yet in its thread-fini, the main thread included, and not to the caller, to ignored threads or to threads of "
     "other processes. It never blocks: it either does this and returns 0 or sends nothing and returns -1, the latter only while another thread starts or ends. It can be "
     "called from any thread, any callback and from signal handlers.",
     ["schedules", "programs", "histories"],
     "every set of live, starting, finishing and ignored threads and every caller",
     "one test broadcasts from a plain main",
     [PT], [("monitor_broadcast_signal", PT)],
     "generated thread populations with counted deliveries against a model",
     "random search; threads in transition may or may not get it")

prop("C20", "Stack-bottom and bottom-frame queries identify each thread's outermost frame",
     "In every thread, at every call depth, exactly the frame that called the start routine or main is recognised by "
     "the start-function queries (narrow within wide), frames of the application are not, and the process and thread "
     "bottom-frame tests tell the two apart. The reported stack bottom lies between the application's frames and the "
     "outer end of the same thread's stack and stays valid while the thread runs, in the child of a fork too.",
     ["programs", "histories"],
     "every thread, call depth, thread attribute and fork",
     "no test unwinds",
     [M, PT], [("monitor_main_fence1..4", M), ("monitor_thread_fence1..4", PT), ("tn_stack_bottom", "src/pthread_h.h")],
     "generated call depths in generated threads, unwound and compared",
     "random search")

prop("C21", "The exit signal can be chosen freely, and any choice works or is refused",
     "The environment variable that chooses the exit signal is honoured for every signal the system lets a program "
     "handle (other than job-control stops), and any other value falls back to the default choice; whichever results, "
     "the application cannot block it and a process with live threads still gives every thread its thread-fini and "
     "ends with its own status and without errors. With the default choice, signals the client was configured to use "
     "are left alone.",
     ["configurations", "inputs"],
     "every value of the variable, numeric or not, in any state of signal handling",
     "the tests set the variable to no more than one or two values",
     [S], [("monitor_choose_shootdown_early", S), ("monitor_signal_init", S)],
     "generated variable values with live threads at exit against a model of the choice",
     "random search over values (every signal number is tried)")

prop("C22", "A thread that blocks the exit sweep is not finished until it unblocks",
     "Between blocking and unblocking, a thread never gets its thread-fini callback; a thread that unblocks while the "
     "process is exiting gets it promptly afterwards, exactly once, before process-fini. Blocking tells the caller "
     "whether the sweep of threads at process exit has already begun, and affects only the calling thread.",
     ["schedules", "histories"],
     "every interleaving of blocking, unblocking and process exit over several threads",
     "one test blocks in a fixed loop while one thread exits",
     [PT], [("monitor_block_shootdown", PT), ("monitor_shootdown_handler", PT), ("monitor_thread_shootdown", PT)],
     "generated block/unblock histories gated against process exit, checked against a model",
     "random search; threads end only while unblocked")

prop("C23", "New-thread information is available exactly during a thread creation",
     "Inside the callbacks of a thread creation (first-process-init, thread-support, pre-create, stack-size, "
     "post-create) the creating thread's query gives the start routine and a return address inside the function that "
     "called pthread_create; everywhere else, in every other thread, and after the creation has returned, failed or "
     "been ignored, the query reports none. Creations nested within callbacks have their own information and the "
     "outer information is back when they return.",
     ["programs", "schedules", "fault_sequences"],
     "every creation, nested, concurrent, ignored and failing",
     "one test prints the information of plain creations",
     [PT], [("tn_thread_info", "src/pthread_h.h"), ("monitor_get_new_thread_info", PT)],
     "generated creations with queries in every callback against a model",
     "random search")

prop("C24", "monitor-run and monitor-link hand over arguments and choices faithfully",
     "monitor-run runs the named program with exactly the given arguments (spaces, quotes, globs, empty strings, "
     "leading dashes after the program name), standard output, exit status and environment, preloading the client "
     "libraries in the order given, then the library, before any preload already present; its options are recognised in "
     "every documented spelling; a wrong option or a missing file fails with a message and no run, and a missing command "
     "gives the usage text and no run. monitor-link builds a program that "
     "behaves as one built by the same compiler command, with the client's callbacks, and fails when the compiler "
     "fails.",
     ["inputs", "configurations"],
     "every argument vector, option spelling and order, prior preload and link command",
     "the tests use both scripts with fixed simple arguments",
     ["src/monitor-run.in", "src/monitor-link.in"], [("option loop", "src/monitor-run.in"),
                                                     ("option loop", "src/monitor-link.in")],
     "generated command lines run and compared with a model of the scripts' documented interface",
     "random search")

prop("C25", "Signal set descriptions are exact, bounded and never overrun the buffer",
     "The textual description of a signal set or list names exactly the signals in it, in order, with runs of "
     "consecutive signals as ranges, and the count of signals is returned. When fewer than 15 bytes are left for another "
     "item, the last item is replaced by ' and more' and -1 is returned. For every buffer size the text is terminated within the "
     "buffer and nothing outside of the buffer is touched. A missing buffer and a size below one are refused without "
     "touching memory, a size below 15 with an empty text; a missing set gives ' (null)'.",
     ["inputs"],
     "every signal set, list and buffer size",
     "no test calls them",
     ["src/utils.c"], [("monitor_sigset_string", "src/utils.c"), ("monitor_signal_list_string", "src/utils.c")],
     "generated sets, lists and sizes against a reference formatter, buffers fenced by guard pages",
     "random search over all sizes 0..600")

prop("C26", "A monitored program behaves as it does without monitoring",
     "For every program made of threads, forks, waits, exits, mask and handler changes, signals, exec, system and "
     "library loads, the results of its calls, its output, the exit status of every process and the order of effects "
     "in each thread are the same natively, preloaded and statically linked with the library, when the client only "
     "observes (apart from what the library takes for itself: the exit signal, ignored signals across exec, restart "
     "and alternate-stack flags).",
     ["programs", "histories", "configurations"],
     "every program over the overridden interfaces, in both link modes",
     "the tests compare no behaviour with the unmonitored program",
     [M, PT, S, F, D], [("all overrides", "src/*.c")],
     "differential: each generated program natively, preloaded and statically linked",
     "random search; documented deviations excluded")

prop("C27", "Process exit waits for slow threads but gives up on unreachable ones",
     "A thread that takes long over its thread-fini callback is waited for before process-fini begins; a thread "
     "that never answers delays the exit only for a bounded time of about ten seconds, after which process-fini runs, "
     "the process ends with its own status, and no thread-fini begins any more. The other threads are "
     "finished normally in either case.",
     ["schedules", "fault_sequences"],
     "every mix of slow, unreachable and ordinary threads, with lost exit signals injected",
     "the tests have no slow or unreachable threads",
     [PT], [("monitor_thread_shootdown", PT), ("MONITOR_SHOOTDOWN_TIMEOUT", PT)],
     "generated populations on a virtual clock with dropped signals against a model",
     "random search; virtual clock for the polling loop")


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "vp", "checks")) if f.startswith("c")}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            if p["id"] in have:
                f.write(json.dumps(p) + "\n")
    man = {"version": 1, "setup_cmd": "sh tools/setup.sh",
           "checks": [{"property": p["id"], "quick_cmd": "./check %s quick" % p["id"],
                       "thorough_cmd": "./check %s thorough" % p["id"],
                       "technique": "property-based testing: " + tech, "level": "exploration", "level_note": note}
                      for p, tech, note in P if p["id"] in have],
           "not_applicable": []}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
