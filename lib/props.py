"""Which scenarios decide which property, and with what budget."""

# unit (scenario source file) -> library sources it needs (path fragments); the build falls back to all of them
UNITS = {
    "queue": [],
    "tasks": ["fly/task/"],
    "logger": ["fly/task/", "fly/logger/", "fly/config/config.cpp", "fly/coders/", "fly/types/", "fly/system/system.cpp", "fly/system/nix/system_impl.cpp", "fly/parser/"],
    "config": ["fly/task/", "fly/logger/", "fly/config/", "fly/coders/", "fly/types/", "fly/system/system.cpp", "fly/system/nix/system_impl.cpp", "fly/parser/", "fly/path/"],
    "coders": ["fly/task/", "fly/logger/", "fly/config/config.cpp", "fly/coders/", "fly/types/", "fly/system/system.cpp", "fly/system/nix/system_impl.cpp", "fly/parser/"],
    "system": ["fly/task/", "fly/logger/", "fly/config/config.cpp", "fly/coders/", "fly/types/", "fly/system/", "fly/parser/"],
    "signals": ["fly/logger/", "fly/config/config.cpp", "fly/types/", "fly/system/system.cpp", "fly/system/nix/system_impl.cpp", "fly/parser/", "fly/task/", "fly/coders/"],
    "net": ["fly/task/", "fly/logger/", "fly/config/config.cpp", "fly/coders/", "fly/types/", "fly/system/system.cpp", "fly/system/nix/system_impl.cpp", "fly/parser/", "fly/net/"],
    "utility": ["fly/task/", "fly/logger/", "fly/config/config.cpp", "fly/coders/", "fly/types/", "fly/system/system.cpp", "fly/system/nix/system_impl.cpp", "fly/parser/", "fly/net/"],
    "app": ["fly/task/", "fly/logger/", "fly/config/", "fly/coders/", "fly/types/", "fly/system/", "fly/parser/", "fly/path/", "fly/net/"],
    "path": ["fly/task/", "fly/logger/", "fly/config/config.cpp", "fly/coders/", "fly/types/", "fly/system/system.cpp", "fly/system/nix/system_impl.cpp", "fly/parser/", "fly/path/"],
}

PROPS = {}

COMMON = [
    "Threads interleave at synchronisation operations, system calls and (in half of the runs) instrumented memory accesses; hardware memory reordering "
    "is covered only by the data race check (sequentially consistent execution otherwise).",
    "The scheduler is fair in the long run: a runnable thread is not starved for ever.",
    "Code is compiled from /repo at -O1 with compiler instrumentation; other optimisation levels behave alike.",
]
NOTE = ("Seeded sampling of schedules, timing and faults, not exhaustive: a clean batch is evidence, not proof. Trusts the simulator's model of threads, "
        "clocks and system calls (sim/) and the oracle (scen/); every report is replayed in a fresh process before it is printed.")


def prop(pid, units, scenarios, runs, thorough_s, real, stub, assumptions=(), quick_s=120, note=""):
    PROPS[pid] = {
        "units": units, "scenarios": scenarios,
        "quick": {"runs": runs, "seconds": quick_s},
        "thorough": {"runs": runs * 8, "seconds": thorough_s},
        "real": real, "stub": stub, "assumptions": COMMON + list(assumptions),
        "note": (note + " " if note else "") + NOTE,
    }


SCHED = ("thread scheduler, mutexes, condition variables, atomics' interleaving, thread creation and join, "
         "clocks and sleeps (simulated)")

prop("C01", ["queue"], {"queue_linear": 3, "stack_linear": 2}, 40000, 600,
     ["concurrent queue and stack", "the C++ standard library's thread, mutex and condition variable wrappers"], [SCHED])

prop("C02", ["queue"], {"queue_live": 3, "stack_live": 1}, 40000, 600,
     ["concurrent queue and stack", "the C++ standard library's thread, mutex and condition variable wrappers"], [SCHED])

TASK_REAL = ["task manager, sequenced and parallel task runners, concurrent queue", "std::async, std::future, std::thread"]
for pid, scn in (("T01", {"task_once": 6, "task_stop": 2, "task_fair": 1}), ("T02", {"task_sequence": 1}), ("T03", {"task_delay": 9, "task_fair": 1}), ("T04", {"task_reply": 1}),
                 ("T05", {"task_owner": 1}), ("T06", {"task_stop": 1}), ("T07", {"task_parallel": 7, "task_fair": 1}),
                 ("T08", {"task_release": 1})):
    prop(pid, ["tasks"], scn, 60000, 900, TASK_REAL, [SCHED])

LOG_REAL = ["logger, log record, logger registry", "task manager and sequenced task runner", "std::thread, std::future, std::ofstream, std::filesystem"]
prop("L01", ["logger"], {"log_order": 1}, 16000, 900, LOG_REAL, [SCHED, "the sink (a recording one)"],
     ["A sink given to a synchronous logger that is used from several threads is itself thread-safe, as the sink interface documents."])
prop("L02", ["logger"], {"log_fail": 1}, 16000, 900, LOG_REAL, [SCHED, "the sink (a recording one that fails)"],
     ["A sink given to a synchronous logger that is used from several threads is itself thread-safe, as the sink interface documents."])
prop("L03", ["logger"], {"log_registry": 1}, 30000, 600, LOG_REAL, [SCHED, "the sink"],
     ["The default logger is set while no other thread logs to it, as documented."])
prop("L04", ["logger"], {"log_file": 2, "log_file_faults": 4, "log_shared": 1}, 12000, 1200, LOG_REAL + ["file sink, Huffman coder and bit streams"],
     [SCHED, "the disk's failures (system calls on the log directory go to a real tmpfs through a fault injecting seam)"],
     ["The process crash model keeps everything handed to the operating system; power loss is not modelled (the library never syncs)."])
prop("L05", ["logger"], {"log_console": 1}, 60000, 600, LOG_REAL + ["console sink and stream styler", "std::cout and std::cerr (their stream buffers are recording ones)"],
     [SCHED, "the terminal (a pair of recording stream buffers, each write to which is a point where any other thread may run)"],
     ["The default logger is set while no other thread logs to it, as documented.", "Nothing but loggers writes to the standard streams meanwhile."])

PATH_REAL = ["path monitor and its Linux implementation", "task manager and sequenced task runner", "logger", "std::filesystem"]
INOTIFY = ("inotify (watches and event queues are kept by the simulator, fed by the system calls on a real tmpfs; "
           "checked against the kernel's: the same seeds gave the same results with both)")
prop("P01", ["path"], {"path_watch": 3, "path_many": 1}, 14000, 900, PATH_REAL, [SCHED, INOTIFY],
     ["Callbacks do not call back into the path monitor (they run under its mutex).", "The kernel's event queue does not overflow."])
prop("P02", ["path"], {"path_race": 180, "path_life": 100, "path_many": 100, "path_alias": 1}, 30000, 900, PATH_REAL, [SCHED, INOTIFY],
     ["Callbacks do not call back into the path monitor (they run under its mutex).", "The kernel's event queue does not overflow."])

CONFIG_REAL = ["configuration manager and configurations", "path monitor and its Linux implementation", "JSON and INI parsers, JSON type",
               "task manager and sequenced task runner", "logger", "std::ifstream, std::filesystem"]
DISK = "the disk's failures (system calls on the files go to a real tmpfs through a fault injecting seam)"
prop("G01", ["config"], {"config_values": 1, "config_faults": 1}, 12000, 900, CONFIG_REAL, [SCHED, INOTIFY, DISK],
     ["A file that is rewritten in place keeps its length (a reader may otherwise see old and new bytes, which the library cannot know).",
      "The file holds key-value sections (other documents are documented to be ignored)."])
prop("G02", ["config"], {"config_life": 2, "config_faults": 1}, 12000, 900, CONFIG_REAL, [SCHED, INOTIFY, DISK])
prop("R01", ["config"], {"parse_file": 1}, 9000, 600, ["JSON and INI parsers, JSON type, string conversion", "std::ifstream"], [SCHED, DISK])

CODER_REAL = ["Huffman encoder and decoder, Base64 coder", "bit stream reader and writer", "coder and logger configuration", "std::fstream, std::stringstream"]
prop("E01", ["coders"], {"coder_files": 1}, 3500, 900, CODER_REAL, [SCHED, DISK],
     ["Success is judged when the call returns; power loss after it is not modelled (the library never syncs)."])
prop("E02", ["coders"], {"coder_damage": 1}, 9000, 900, CODER_REAL, [SCHED, DISK],
     ["Chunk sizes in damaged headers are limited to 4 MB, so that runs stay short."])
prop("E03", ["coders"], {"bit_streams": 1}, 60000, 600, ["bit stream reader and writer", "std::fstream"],
     [SCHED, DISK, "in-memory stream buffers that deliver and take data in pieces and fail at a chosen byte"],
     ["Values handed to the writer have no bits above their stated width.", "A stream buffer that reports the end of file has ended."])

prop("S01", ["system"], {"system_history": 1}, 3000, 600,
     ["system monitor and its Linux implementation", "task manager and sequenced task runner", "logger", "std::ifstream"],
     [SCHED, DISK, "the counter files, sysinfo() and times() (histories made up by the scenario)"],
     ["A counter file is replaced as a whole: a read sees one state of it, or fails.", "The process uses no more CPU time than there are CPUs."])

prop("S02", ["signals"], {"signal_handler": 1}, 150000, 600,
     ["fly::system::set_signal_handler and the handler it installs", "std::function"],
     [SCHED, "signal dispositions, masks and delivery (signal, sigaction, sigprocmask, raise are served by the simulator, which delivers at any point where the receiving thread runs)"],
     ["Handlers are set by one thread at a time, and not from within a handler.", "The user's handler does only what a signal handler may do."])

NET_REAL = ["socket service, TCP, UDP and listening sockets, socket operations", "task manager and sequenced task runner", "logger"]
NETWORK = ("the network: socket system calls and select() are served by simulated sockets in the process (segments, latency, buffers, backlog, datagram queues), "
           "which split, delay, refuse, reset, drop, duplicate and reorder")
NET_ASSUME = ["Sockets of a service are used on its task runner once they have requests; releasing the last reference is allowed anywhere.",
              "Messages of asynchronous sends stay alive until their completion, as the interface requires.",
              "A listener that fails to accept closes itself, as documented."]
prop("N01", ["net"], {"net_stream": 3, "net_faults": 1, "net_sync": 3}, 3000, 1200, NET_REAL, [SCHED, NETWORK], NET_ASSUME)
prop("N02", ["net"], {"net_stream": 4, "net_faults": 6, "net_fair": 1, "net_own": 2}, 4500, 1200, NET_REAL, [SCHED, NETWORK], NET_ASSUME)
prop("N03", ["net"], {"net_udp": 1}, 8000, 900, NET_REAL, [SCHED, NETWORK], NET_ASSUME)
prop("N04", ["net"], {"net_faults": 3, "net_udp": 1}, 3500, 1200, NET_REAL, [SCHED, NETWORK], NET_ASSUME)
prop("N05", ["net"], {"net_faults": 2, "net_sync": 2, "net_own": 3}, 4000, 1200, NET_REAL, [SCHED, NETWORK], NET_ASSUME)
prop("N06", ["net"], {"net_own": 6, "net_faults": 2, "net_udp": 1}, 9000, 1200, NET_REAL, [SCHED, NETWORK],
     NET_ASSUME + ["select() on a descriptor that its owner has just closed is not counted as a use: it transfers nothing, and the request is dropped."])
prop("N07", ["net"], {"net_bind": 1}, 16000, 900, NET_REAL, [SCHED, NETWORK],
     NET_ASSUME + ["The rules of binding are those of Linux: SO_REUSEADDR on both sides, a listener excludes others, 60 s of TIME_WAIT for the side that closes first.",
                   "A socket is bound for one kind of use: a bind for single use after a failed bind with reuse allowed is not tried."])
prop("U02", ["utility"], {"utility_threads": 1}, 16000, 900,
     ["string formatting, conversion and manipulation", "Unicode conversion", "JSON and INI parsers, JSON values and their serialization", "Huffman and Base64 coders on memory",
      "bit streams", "IP addresses and endpoints", "system helpers"], [SCHED],
     ["Threads use objects of their own, or only read the shared ones.", "The global locale and the environment are not changed meanwhile."])
APP_REAL = ["task manager and runners", "configuration manager, configurations, JSON and INI parsers", "loggers, file sink, Huffman coder", "path monitor", "system monitor", "socket service and UDP sockets"]
APP_ASSUME = ["Configuration files are replaced by rename, so every state of the file is well-formed.", "Time bounds are judged once injected stalls, time jumps and faults have ended."]
prop("X01", ["app"], {"app_configure": 1}, 1200, 1200, APP_REAL, [SCHED, INOTIFY, DISK, NETWORK], APP_ASSUME)
prop("X02", ["app"], {"app_shutdown": 1}, 2400, 1200, APP_REAL, [SCHED, INOTIFY, DISK, NETWORK], APP_ASSUME)
