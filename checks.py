"""What each check builds and runs. cases is per shard in the quick tier."""

def J(variant, cap, shards, cases, **kw):
    d = dict(variant=variant, cap=cap, shards=shards, cases=cases)
    d.update(kw)
    return d

STD = lambda n: [J("sched", 4096, 2, n), J("asan", 4096, 2, n), J("tsan", 4096, 2, n // 2),
                 J("rel", 0, 1, n), J("rel", 65536, 1, n)]

EXPL = "Exploration: the property held on every execution that was run and observed; executions not run are not covered. Trusts the compilers, sanitizers, {fmt} and the kernel. "

CHECKS = {
    "P01": dict(
        technique="randomized stress with injected delays; offline exactly-once checker over the recorded output",
        level_note=EXPL + "Random workloads of up to 4 threads over 6 back-ends in 3 queue sizes, in instrumented builds that delay threads at random and at targeted points. ",
        jobs=STD(150),
        evaluations=["messages_checked"],
        require=["messages_checked"],
        rule="an evaluation is one message looked up in the output; a distinct case is a distinct "
             "interleaving of sinks in the output of one workload",
    ),
    "P02": dict(
        technique="randomized stress with injected delays; offline order and happens-before checker",
        level_note=EXPL + "Per-sink FIFO of every message, and ordering of message blocks across sinks by sync, close and copy. ",
        jobs=STD(150),
        evaluations=["ordered_messages", "happens_before_edges"],
        require=["ordered_messages", "happens_before_edges"],
        rule="an evaluation is one message compared with the order it was logged in, or one pair of message "
             "blocks ordered by a sync, close or copy; a distinct case is a distinct interleaving of sinks in the output",
    ),
    "P03": dict(
        technique="randomized stress with ASan/UBSan/TSan; byte-exact comparison of every line with an independent model",
        level_note=EXPL + "34 kinds of statements with arguments overwritten after the statement. ",
        jobs=STD(150),
        evaluations=["lines_checked"],
        require=["lines_checked"],
        rule="an evaluation is one output line compared byte for byte with what was logged; a distinct case is a "
             "distinct sequence of (sink, log statement) in the output of one workload",
        compile_probes=dict(
            baseline='#include <xtr/logger.hpp>\nint main(){ xtr::logger l; auto s = l.get_sink("s"); std::string x; XTR_LOG(s, "{} {}", 1, x); }\n',
            promised={"an argument with more than pointer alignment together with a string":
                '#include <xtr/logger.hpp>\nint main(){ xtr::logger l; auto s = l.get_sink("s"); std::string x; long double d = 1; XTR_LOG(s, "{} {}", d, x); }\n'}),
    ),
    "P04": dict(
        technique="randomized and boundary-value generation of string arguments; every printed string compared with the one logged; ASan/UBSan/TSan",
        level_note=EXPL + "String lengths around every boundary of three queue capacities, on queues at random positions and fill levels. ",
        jobs=[J("asan", 4096, 2, 150), J("sched", 4096, 2, 150), J("tsan", 4096, 1, 80), J("rel", 0, 1, 60), J("rel", 65536, 2, 100)],
        evaluations=["messages_checked"],
        require=["exact_fits_checked", "strings_whole", "strings_truncated"],
        rule="an evaluation is one message compared with what was logged; a distinct case is a distinct combination "
             "of statement kind, string lengths and outcome (whole or truncated)",
    ),
    "P05": dict(
        technique="exhaustive byte values and random byte strings in every kind of string argument; output compared with an independent escaping model; ASan/UBSan",
        level_note=EXPL + "All 256 byte values in every kind of string argument, alone and in pairs, plus random strings. ",
        jobs=[J("asan", 4096, 3, 8), J("rel", 0, 2, 10), J("dbg", 65536, 2, 8)],
        evaluations=["messages_checked"],
        require=["messages_checked"],
        rule="an evaluation is one output line compared with the escaping model; a distinct case is a distinct "
             "(statement kind, string) hash",
    ),
    "P06": dict(
        technique="fill-level stress with the background thread held at a gate or racing; accounting oracle over attempts, deliveries, drop reports and status replies",
        level_note=EXPL + "15 kinds of non-blocking statements on queues filled to the last byte while the background thread is stopped, and racing with it. ",
        jobs=[J("sched", 4096, 2, 80), J("asan", 4096, 2, 80), J("tsan", 4096, 2, 60), J("rel", 4096, 1, 150), J("rel", 0, 1, 6)],
        evaluations=["attempted"],
        require=["delivered", "dropped", "drop_reports", "status_totals", "held_phases", "flooding_cases", "status_while_dropping"],
        rule="an evaluation is one non-blocking statement accounted for as delivered, truncated or dropped and reported; "
             "a distinct case is a distinct (attempted, dropped) history of a workload's sinks",
    ),
    "P07": dict(
        technique="crash injection at random instructions; recovered files compared with what had been acknowledged; online monitor of the order of write, io_uring completion and fsync",
        level_note=EXPL + "Processes are killed at random points of library code, or abort in a fatal statement, over all storages; a killed process does not lose the page cache, so ordering of fsync is checked by a monitor of the calls instead. ",
        jobs=[J("sched", 4096, 2, 120), J("asan", 4096, 2, 100), J("rel", 65536, 2, 150), J("rel", 0, 1, 100)],
        evaluations=["acked_messages", "fatal_statements", "syncs_with_fsync_order_checked", "syncs_of_custom_backend_checked"],
        require=["crashes", "acked_messages", "fatal_statements", "syncs_with_fsync_order_checked", "syncs_of_custom_backend_checked"],
        rule="an evaluation is one message acknowledged by sync that was looked up after a crash, one fatal statement or one sync whose calls were monitored; "
             "a distinct case is a distinct (storage, crash point, amount of acknowledged output)",
    ),
    "P08": dict(
        technique="system calls of the logging thread trapped by syscall user dispatch, allocator and lock functions interposed, background thread stopped and locks held by other threads during the statements",
        level_note=EXPL + "52 kinds of statements with strings of random lengths, on sinks of every origin, in optimized builds with and without assertions. Spin locks that do not use pthread functions are only seen if the harness can make another thread hold them. ",
        jobs=[J("rel", 4096, 3, 80), J("rel", 65536, 2, 80), J("rel", 0, 1, 60), J("dbg", 4096, 2, 80)],
        evaluations=["statements_observed"],
        require=["statements_observed", "monitor_self_test", "threads_with_syscalls_trapped", "phases_with_background_thread_stopped"],
        rule="an evaluation is one log statement executed with system calls trapped and allocations and locks interposed; "
             "a distinct case is a distinct sequence of statement kinds",
    ),
    "P09": dict(
        technique="random histories of level changes and statements through all 16 macros, compared online (argument evaluation, level()) and offline (output) with a model; forked processes for fatal statements",
        level_note=EXPL + "All combinations of macro, statement level and sink level occur; histories of creation, copying, assignment, set_level and level commands are random. ",
        jobs=[J("asan", 4096, 2, 120), J("rel", 65536, 2, 120), J("sched", 4096, 1, 80), J("rel", 4096, 1, 100, harness="p09n"), J("asan", 4096, 1, 60, harness="p09n")],
        evaluations=["statements_enabled", "statements_discarded", "fatal_statements", "level_names_accepted", "level_names_rejected"],
        require=["statements_enabled", "statements_discarded", "fatal_statements", "level_commands", "level_names_accepted", "level_names_rejected"],
        rule="an evaluation is one statement whose argument evaluations were counted and whose presence in the output was checked; "
             "a distinct case is a distinct (macro, statement level, sink level, argument form) or history of these",
    ),
    "P10": dict(
        technique="random sink life cycles over several loggers and threads against a model; state checked after each operation, outputs after destruction; ASan/UBSan/TSan and injected delays",
        level_note=EXPL + "Histories of up to 200 operations (600 in the thorough tier) by up to 3 threads on 15 sinks of 3 loggers, including loggers being destroyed meanwhile. ",
        jobs=[J("asan", 4096, 2, 150), J("sched", 4096, 2, 150), J("tsan", 4096, 2, 90), J("rel", 65536, 1, 200), J("rel", 0, 1, 100)],
        evaluations=["states_checked", "messages_checked", "destructor_waits_checked"],
        require=["states_checked", "messages_checked", "destructor_waits_checked", "self_assigned", "assigned_open", "assigned_closed", "registered", "renamed"],
        rule="an evaluation is a sink's state compared with the model after an operation, or a message found under the right name in the right output; "
             "a distinct case is a distinct order of sinks in the output",
    ),
    "P11": dict(
        technique="concurrent stress of all logger functions under ThreadSanitizer and injected delays; register-history checker for levels, exactly-once checker for messages",
        level_note=EXPL + "Up to 4 threads call all functions of one logger at once, with commands served and other threads logging. ",
        jobs=[J("tsan", 4096, 3, 80), J("sched", 4096, 2, 120), J("asan", 4096, 1, 100), J("rel", 65536, 1, 150), J("rel", 4096, 1, 150)],
        evaluations=["messages_checked", "level_reads_checked"],
        require=["messages_checked", "level_reads_checked", "get_sink_calls", "register_sink_calls", "set_command_path_calls", "set_log_level_style_calls",
                 "set_default_log_level_calls", "native_handle_calls", "set_level_calls", "level_calls", "level_commands_answered", "status_commands_answered", "final_states_checked"],
        rule="an evaluation is a message looked up in the output or a level read compared with the history of writes; "
             "a distinct case is a distinct interleaving of sinks and level styles in the output",
    ),
    "P12": dict(
        technique="AddressSanitizer, LeakSanitizer and UBSan; registry of live argument objects; ledger of mappings, descriptors, threads and files compared before and after; failure of the n-th system request injected",
        level_note=EXPL + "Argument objects are tracked by address from construction to destruction; resources are compared after each logger's life. ",
        jobs=[J("asan", 4096, 3, 110), J("rel", 4096, 2, 128), J("rel", 65536, 1, 128), J("sched", 4096, 1, 110), J("tsan", 4096, 1, 64)],
        evaluations=["objects_formatted", "conservation_checks"],
        require=["objects_formatted", "dropped", "delivered", "conservation_checks", "failed_constructions", "injected_failures", "growth_rounds", "throwing_copies"],
        rule="an evaluation is one argument object tracked until its message was formatted, or one comparison of all resources before and after; "
             "a distinct case is a distinct (delivered, dropped) history",
    ),
    "P13": dict(
        technique="random histories of sinks and random patterns; every reply and every sink's level compared with a model that matches names itself; interval-based history checker for commands racing with changes; ASan/UBSan/TSan",
        level_note=EXPL + "Replies are compared entry by entry with up to 25 sinks with hostile names; patterns are matched by the model with the C library's regcomp and fnmatch, which are trusted. ",
        jobs=[J("asan", 4096, 2, 240), J("rel", 4096, 2, 300), J("rel", 0, 1, 60), J("tsan", 4096, 1, 120), J("sched", 4096, 2, 150)],
        evaluations=["entries_checked", "levels_checked", "racing_entries_checked"],
        require=["entries_checked", "levels_checked", "racing_entries_checked", "invalid_patterns", "invalid_levels", "malformed_requests",
                 "nonzero_dropped_totals", "matching_no_sink", "level_commands_racing", "sinks_renamed", "sinks_copied", "sinks_assigned"],
        rule="an evaluation is one entry of a reply, or one sink's level after a command, compared with the model; "
             "a distinct case is a distinct (request, expected reply)",
    ),
    "P14": dict(
        technique="fuzzing of the command socket by concurrent hostile clients under ASan/UBSan/TSan, with monitors of other clients' replies, of sinks' levels, descriptors and of exactly-once delivery of what is logged meanwhile",
        level_note=EXPL + "Up to 3 hostile clients with hundreds of connections, random and mutated requests, stalls, shutdowns and disconnections next to well-behaved clients and logging threads; replies of up to 700 entries overflow the sockets of those who do not read. ",
        jobs=[J("asan", 4096, 3, 25), J("rel", 4096, 2, 60), J("rel", 0, 1, 25), J("tsan", 4096, 1, 20), J("sched", 4096, 1, 25)],
        evaluations=["hostile_requests", "polite_commands", "messages_checked"],
        require=["hostile_requests", "polite_commands", "messages_checked", "malformed_requests_checked", "slow_complete_replies", "requests_with_descriptors", "floods"],
        rule="an evaluation is one hostile request sent, one well-behaved client's command whose reply was checked, or one message looked up in the output; "
             "a distinct case is a distinct hostile request",
    ),
    "P15": dict(
        technique="stress of log rotation with injected delays; offline exactly-once, order, whole-line and which-file checker over all rotated files; failing reopens; ASan/UBSan/TSan",
        level_note=EXPL + "Up to 3 threads log while files are renamed, replaced, made impossible to open and reopened, over all file storages with small buffers and queues; each message has a range of files it may be in, from the replies and syncs around it. ",
        jobs=[J("sched", 4096, 2, 110), J("asan", 4096, 2, 110), J("tsan", 4096, 1, 60), J("rel", 0, 2, 160), J("rel", 65536, 1, 160)],
        evaluations=["messages_checked"],
        require=["messages_checked", "rotations", "reopened_same_file", "appended_to_existing", "failed_reopens", "reopens_without_path", "storage_io_uring", "storage_posix", "storage_logger", "storage_make_fd_storage"],
        rule="an evaluation is one message found once, whole, in order and in a file it may be in; "
             "a distinct case is a distinct (storage, distribution of messages over files)",
    ),
    "P16": dict(
        technique="online monitor of every call of a custom back-end against an automaton of the documented protocol; guard pages and fill patterns around buffers, which become inaccessible when submitted; ASan/UBSan/TSan and injected delays",
        level_note=EXPL + "Buffers of 1 byte to 64 KiB, of constant or varying size, under logging threads, syncs, commands, reopens and early destruction. ",
        jobs=[J("asan", 4096, 2, 250), J("sched", 4096, 2, 250), J("tsan", 4096, 1, 120), J("rel", 0, 1, 250), J("rel", 65536, 2, 250)],
        evaluations=["calls_checked"],
        require=["calls_checked", "lines_checked", "idle_flushes_checked", "syncs_checked", "reopen_commands", "buffers"],
        rule="an evaluation is one call of the back-end checked against the protocol; "
             "a distinct case is a distinct sequence of calls of one back-end",
    ),
    "P17": dict(
        technique="fault injection (interposed write, io_uring functions of the protected constructor, throwing back-ends and formatters, real signals, a full device); checker of exactly-once tokens, order, whole lines and bounded loss over the output, and of the errors on stderr; ASan/UBSan/TSan",
        level_note=EXPL + "Every write, submission and completion is a possible fault point, faults are random. POSIX writes are only interposed in builds without ASan or TSan. ",
        jobs=[J("rel", 4096, 2, 1500), J("rel", 65536, 1, 1500), J("sched", 4096, 2, 900), J("asan", 4096, 2, 700), J("tsan", 4096, 1, 350)],
        evaluations=["messages_checked", "tokens_checked"],
        require=["messages_checked", "tokens_checked", "short_writes", "empty_writes", "interrupted_writes", "eagain_writes", "failed_submissions", "interrupted_waits",
                 "hard_errors", "formatter_errors_checked", "backend_exceptions_checked", "throws_of_flush", "signal_cases", "signals", "always_failing_cases", "repeated_appends"],
        rule="an evaluation is one message looked up, or one token of a message checked to be written once; "
             "a distinct case is a distinct (back-end, sequence of faults)",
    ),
    "P18": dict(
        technique="recorded clocks and given times; every printed timestamp compared with an independent calendar model and with the history of clock readings; background thread delayed for clocks read at the statement; injected delays",
        level_note=EXPL + "Random and boundary times from year 1 to 9999 and clocks of 7 resolutions; TSC timestamps are compared with the wall clock with a tolerance of 60 ms; 8 kinds of processor are emulated by CPUID faulting, where the kernel allows it. ",
        jobs=[J("rel", 4096, 2, 600), J("rel", 0, 1, 500), J("dbg", 4096, 1, 500), J("asan", 4096, 2, 350), J("sched", 4096, 1, 350), J("tsan", 4096, 1, 180),
              J("rel", 4096, 1, 18, mode="cpu")],
        evaluations=["given_timestamps_checked", "basic_timestamps_checked", "fresh_basic_timestamps_checked", "rtc_timestamps_checked", "tsc_timestamps_checked", "default_clock_timestamps_checked"],
        require=["given_timestamps_checked", "basic_timestamps_checked", "fresh_basic_timestamps_checked", "rtc_timestamps_checked", "tsc_timestamps_checked", "default_clock_timestamps_checked"],
        rule="an evaluation is one printed timestamp compared with the model; a distinct case is a distinct timestamp",
    ),
    "P19": dict(
        technique="bounded-liveness monitor: bursts followed by complete inactivity, or next to sinks that never stop logging, with the output observed from outside; injected delays, TSan/ASan",
        level_note=EXPL + "Bounded time is judged as 40 s of wall-clock time, extended while the kernel does not run the process's threads. ",
        jobs=[J("rel", 4096, 2, 800), J("rel", 0, 1, 500), J("rel", 65536, 1, 700), J("asan", 4096, 1, 300), J("sched", 4096, 2, 350), J("tsan", 4096, 1, 200)],
        evaluations=["messages_awaited", "busy_rounds_checked"],
        require=["messages_awaited", "quiet_rounds_checked", "busy_rounds_checked", "churn_rounds_checked", "commands_while_busy", "syncs_while_busy",
                 "backend_memory", "backend_posix", "backend_io_uring", "backend_logger", "backend_pipe"],
        rule="an evaluation is one message awaited in the output while nothing, or only other sinks, did anything; "
             "a distinct case is a distinct (back-end, sinks, amount of output)",
    ),
    "P20": dict(
        technique="the real xtrctl (built with ASan/UBSan) run against a recording, misbehaving server and against the real logger; requests, output, exit status and effect compared with a model of the documented command line",
        level_note=EXPL + "Random command lines, including bad ones, and random, malformed and cut-off replies; a server that disconnects at any point, and none at all. ",
        xtrctl="asan",
        jobs=[J("rel", 4096, 4, 300), J("asan", 4096, 2, 150), J("sched", 4096, 2, 150)],
        evaluations=["xtrctl_runs", "entries_checked"],
        require=["xtrctl_runs", "requests_checked", "entries_checked", "levels_checked", "correct_replies", "error_replies", "malformed_replies",
                 "disconnections", "usage_errors", "unreachable_sockets", "help_requests", "real_commands", "real_failures", "real_reopens"],
        rule="an evaluation is one run of xtrctl judged by its request, output and exit status, or one entry of a reply it printed; "
             "a distinct case is a distinct (command line, reply)",
    ),
    "P21": dict(
        technique="byte-exact comparison of what files, pipes, FIFOs and sockets received with what was logged and what the user wrote through their own descriptor, over successive loggers, with io_uring system calls denied by seccomp in some; ASan/UBSan/TSan and injected delays",
        level_note=EXPL + "Random sizes of buffers, queues and batches, file positions (also beyond 4 GiB) and existing contents, slow readers and small pipes. ",
        jobs=[J("rel", 4096, 3, 330), J("rel", 65536, 1, 330), J("asan", 4096, 2, 170), J("sched", 4096, 1, 170), J("tsan", 4096, 1, 90)],
        evaluations=["items_checked"],
        require=["items_checked", "files", "append_files", "pipes", "fifos", "sockets", "positions_inside", "positions_beyond", "large_offsets", "overwritten_inside",
                 "fallbacks", "reopens_without_io_uring", "reopened_to_fifo", "rounds_io_uring", "automatic_io_uring", "batch_larger_than_queue",
                 "user_writes_after_sync", "user_writes_after_destruction"],
        rule="an evaluation is one logged line or one text of the user found at exactly the bytes where it belongs; "
             "a distinct case is a distinct (descriptor, sequence of storages)",
    ),
    "P22": dict(
        technique="random histories of settings next to logging threads and clients; each line is checked against the range of styles it may have from the calls and syncs around it, each new sink against the range of default levels, each path used so far for being served or removed; injected delays, ASan/UBSan/TSan",
        level_note=EXPL + "16 styles, all levels but fatal; paths that are usable, the longest possible, abstract, null, too long, in missing directories, taken by files and by other loggers; changes from two threads at once. ",
        jobs=[J("rel", 4096, 2, 1200), J("rel", 0, 1, 800), J("asan", 4096, 2, 600), J("sched", 4096, 2, 600), J("tsan", 4096, 1, 350)],
        evaluations=["lines_checked", "sink_levels_checked", "concurrent_sinks_checked", "paths_served", "paths_not_served"],
        require=["lines_checked", "lines_with_exact_style", "styles_set", "default_levels_set", "sink_levels_checked", "concurrent_sinks_checked", "paths_served", "paths_not_served",
                 "held_clients_checked", "abstract_paths", "longest_paths", "null_paths", "unusable_paths", "same_path_again", "concurrent_path_changes", "files_removed_by_others", "default_paths_checked"],
        rule="an evaluation is one line's style, one sink's level or one path checked for being served or not; "
             "a distinct case is a distinct history of paths or of settings",
    ),
    "P23": dict(
        technique="byte-exact comparison of every printed message with what {fmt} prints for the same format string and arguments, and of containers with an independent model of their documented form; ASan/UBSan and injected delays",
        level_note=EXPL + "About 110 format statements (specifiers, indexes, dynamic widths, escapes) with random values, and 34 container types nested up to three levels with random contents, changed and destroyed after the statement. What {fmt} prints is trusted. ",
        jobs=[J("asan", 4096, 2, 80), J("rel", 4096, 2, 500), J("rel", 0, 1, 400), J("dbg", 65536, 1, 250), J("sched", 4096, 1, 80)],
        evaluations=["messages_checked"],
        require=["messages_checked", "containers_logged", "nonblocking", "format_statements"],
        rule="an evaluation is one printed message compared with the expected one; a distinct case is a distinct message",
        compile_probes=dict(
            baseline='#include <xtr/logger.hpp>\n#include <xtr/formatters.hpp>\n#include <map>\n#include <vector>\nint main(){ xtr::logger l; auto s = l.get_sink("s"); XTR_LOG(s, "{}", 1); }\n',
            promised={"logging a vector, a map, a pair and a tuple":
                '#include <xtr/logger.hpp>\n#include <xtr/formatters.hpp>\n#include <map>\n#include <vector>\n#include <tuple>\nint main(){ xtr::logger l; auto s = l.get_sink("s"); '
                'XTR_LOG(s, "{} {} {} {}", std::vector<int>(), std::map<int, int>(), std::pair<int, int>(), std::tuple<int, char>()); }\n',
                "logging an empty tuple":
                '#include <xtr/logger.hpp>\n#include <xtr/formatters.hpp>\n#include <tuple>\nint main(){ xtr::logger l; auto s = l.get_sink("s"); XTR_LOG(s, "{}", std::tuple<>()); }\n',
                "logging an iterable type without empty()":
                '#include <xtr/logger.hpp>\n#include <xtr/formatters.hpp>\n#include <valarray>\nint main(){ xtr::logger l; auto s = l.get_sink("s"); XTR_LOG(s, "{}", std::valarray<int>()); }\n'}),
    ),
    "P24": dict(
        technique="the same randomized workloads, commands and provoked errors in every documented way of building the library, each judged by exact models of output, replies and failure behaviour; ASan/UBSan and injected delays",
        level_note=EXPL + "Configurations: default, no exceptions, no io_uring, io_uring polling, capacities that need rounding, and the single header generated from the tree. ",
        jobs=[J("rel", 4096, 1, 300), J("rel", 4096, 1, 300, cfg="noexcept"), J("rel", 4096, 1, 300, cfg="nouring"), J("rel", 4096, 1, 200, cfg="poll"),
              J("rel", 4096, 1, 300, cfg="single", optional=True), J("asan", 4096, 1, 200, cfg="noexcept"), J("sched", 4096, 1, 200, cfg="nouring"),
              J("asan", 4096, 1, 160, cfg="poll"), J("rel", 1000, 1, 120, cfg="rounded"), J("asan", 5000, 1, 100, cfg="rounded")],
        evaluations=["messages_checked", "commands_checked", "errors_checked"],
        require=["messages_default", "messages_no_exceptions", "messages_no_io_uring", "commands_checked", "errors_no_exceptions", "errors_default", "stderr_checked", "capacity_rounded_capacity", "capacity_default"],
        rule="an evaluation is one message found whole, once and in order, one command or one provoked error whose outcome was checked; "
             "a distinct case is a distinct (configuration, interleaving of sinks in the output) or error",
    ),
}
