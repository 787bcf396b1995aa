"""Writes properties.jsonl (the single source of the property texts)."""
import json
import os

P = []


def p(pid, title, statement, over, text, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


S, F, H, I, C, CR = "schedules", "fault_sequences", "histories", "inputs", "configurations", "crash_points"

CC = "fly/types/concurrency/detail/concurrent_container.hpp"
p("C01", "Concurrent queue and stack are linearizable",
  "Every concurrent history of push, pop, timed pop, size and empty on the concurrent queue (or stack) is explained by some sequential "
  "order of the same operations, consistent with their real-time order, on a FIFO (or LIFO) container. Every pushed item is delivered to "
  "exactly one successful pop or is still in the container, and a timed pop that reports failure took nothing and did not give up early.",
  [S, H], "All interleavings of any number of producers, consumers and observers, with spurious wakeups and timeouts that coincide with pushes.",
  "The unit tests run two fixed thread patterns and look at the multiset of delivered items; they sample one interleaving per run and never "
  "check order, timeouts racing with pushes, or observers.",
  [CC, "fly/types/concurrency/concurrent_queue.hpp", "fly/types/concurrency/concurrent_stack.hpp"],
  [("one mutex around every container access", CC), ("predicate re-checked after every wait", CC)],
  [("m_container", "items pushed and not yet popped", CC)])
p("C02", "Blocked consumers are woken: no lost wakeups, timeouts honoured",
  "While an item is in the concurrent queue or stack, no consumer stays blocked in pop: once threads are free to run, a waiting pop "
  "returns an available item within bounded time. A timed pop returns within bounded time after its duration even if nothing is ever pushed.",
  [S, F], "All interleavings of several waiting consumers (timed and untimed) with single and batched pushes, spurious wakeups, delays between unlock and wakeup.",
  "Lost wakeups need a specific order of wait, push and notify between at least three threads; the tests use one consumer at a time and cannot choose the order.",
  [CC], [("a notification per push", CC), ("condition variable wait on the container mutex", CC)])

TM, TR = "fly/task/task_manager.cpp", "fly/task/task_runner.cpp"
p("T01", "Every accepted task runs exactly once, also across stop and restart",
  "Every task whose post was accepted is executed exactly once within bounded time while the task manager is running, whatever the number "
  "of workers and posting threads, and also when tasks post further tasks. A task that was accepted but not executed when the manager is "
  "stopped is executed after the manager is started again, and task runners keep working after the restart. Once the task manager is gone, posts to a task runner with nothing left to execute are rejected.",
  [S, H], "All interleavings of posting threads, workers, the timer and start/stop; parallel, sequenced and several runners sharing one manager.",
  "The tests post a handful of tasks from one thread and wait; a loss that needs stop to coincide with a worker having taken a task, or two posters to collide, is not reachable.",
  [TM, TR, "fly/task/task_runner.hpp"],
  [("pending queue of the runner, handed to workers through the manager's queue", TM), ("re-post of a runner after each executed task", TR)],
  [("m_tasks", "tasks ready to run", TM), ("m_has_running_task", "sequenced runner has a task in flight", TR)])
p("T02", "Sequenced runners execute in post order, one task at a time",
  "Tasks posted to one sequenced task runner never overlap in time, and a task whose post returned before another's post began executes before it. "
  "This holds with any number of workers, for tasks posted from outside, from within tasks and via replies, and memory effects of one task are visible to the next.",
  [S, H], "All interleavings of several posting threads, several sequenced runners and workers.",
  "The tests check an order of a few tasks with one poster; overlap or reordering needs a poster and a finishing worker to meet at a specific instruction.",
  [TR, TM], [("at most one pending task of the runner with the manager", TR), ("FIFO pending queue", TR)])
p("T03", "Delayed tasks never run early and run within a bounded time of their delay",
  "A task posted with a delay starts no earlier than the delay after the post (steady clock), and within a bounded time after it once threads are free to run, "
  "regardless of wall-clock jumps, other delayed tasks and immediate tasks. Delayed tasks are executed exactly once and obey the sequencing of their runner.",
  [S, F, H], "Delays from zero to seconds, any number outstanding, wall clock steps, stalled threads, late timer wakeups.",
  "The tests sleep for one delay and compare with a tolerance; they cannot step clocks, stall the timer or overlap delays.",
  [TM], [("timer thread compares steady-clock schedules", TM)], [("m_delayed_tasks", "tasks waiting for their time", TM)])
p("T04", "Replies run exactly once, after their task, with its result, on the same runner",
  "For a task posted with a reply, the reply runs exactly once, after the task completed, on the same task runner, and receives exactly the value the task returned; "
  "with a sequenced runner the reply counts as posted when the task completes. With an owner, the reply is skipped if and only if the owner has expired by then.",
  [S, H], "All interleavings of posters, workers, and owners released at any moment; value and void results.",
  "The tests cover one task and one reply at a time, on an idle manager.",
  ["fly/task/task_runner.hpp", TR], [("task wrapper posts the reply with the result", "fly/task/task_runner.hpp")])
p("T05", "Tasks of an expired owner never run; an owner lives while its task runs",
  "A task posted under weak ownership never starts after the last reference to its owner has been released, and always runs if the owner stays alive. "
  "While such a task runs its owner is kept alive, and likewise a task runner is kept alive while a task of its runs; tasks of a destroyed runner are dropped, not executed.",
  [S, H], "The last owner or runner reference is released at any moment relative to queueing, timer expiry and execution.",
  "The tests release the owner before or long after execution, never at the instant a worker examines it.",
  ["fly/task/task_runner.hpp", TM], [("weak reference locked for the duration of the call", "fly/task/task_runner.hpp"), ("weak reference to the runner in queued items", TM)])
p("T06", "Stopping waits for running tasks; start and stop change state exactly once",
  "After stop returns true no task is running and none starts until the next successful start. Alternating or repeated start and stop calls return true exactly "
  "when they change the state, stop returns within bounded time after running tasks end (also with idle workers and outstanding delayed tasks), and nothing is leaked or deadlocked. "
  "A start that fails because the system refuses to create a thread leaves the manager stopped and no thread behind.",
  [S, F, H], "Stop at any point of task execution, of worker startup and of timer activity; any sequence of starts and stops; thread creation refused at any thread.",
  "The tests stop an idle manager.",
  [TM], [("worker threads and timer joined on stop", TM)])
p("T07", "Independent tasks make progress in parallel",
  "As long as fewer tasks are blocked than there are workers, every other accepted task is executed within bounded time: a blocked task delays neither tasks of a "
  "parallel runner nor tasks of other runners nor delayed tasks.",
  [S], "Any pattern of blocked tasks smaller than the number of workers, mixed over parallel and sequenced runners.",
  "No test holds a task while others are expected to progress.",
  [TM, TR], [("all workers share one queue of ready tasks", TM)])

p("T08", "What a task captured is released once it ran or can no longer run",
  "Everything captured by a task, its reply and its result is destroyed, exactly once and within bounded time, after the task was executed or after it can no longer be executed because its runner is gone (a delayed one at the latest when it is due), however idle the task manager is. "
  "It is destroyed where no lock of the library is held: the destructors may post tasks, delayed or not, and may acquire locks under which other threads are posting tasks, without deadlock.",
  [S, H], "Any kind of task and reply, delayed or not; runners released at any time; captured objects whose destructors post tasks, block or acquire locks; any interleaving with workers, timer, stop and restart.",
  "Tests capture plain values and references; an object that stays alive too long, or is destroyed within a lock, goes unnoticed.",
  [TM, TR, "fly/task/types.hpp"], [("tasks are taken out of the queues and destroyed outside of the locks", TM), ("a runner releases a task before it goes on to the next", TR)])

LG, FS = "fly/logger/logger.cpp", "fly/logger/detail/file_sink.cpp"
p("L01", "Log records reach the sink exactly once, in order, unmodified",
  "Every record logged to a working logger reaches its sink exactly once with its level and trace unmodified and its message unmodified up to the configured maximum size; records of one thread arrive in the order logged. "
  "Record indices are unique and contiguous and, for an asynchronous logger, equal to the arrival order, and calls into the sink of an asynchronous logger never overlap.",
  [S, H], "Any number of logging threads, messages of any size, all interleavings with the logger's task runner.",
  "The tests log from a single thread and inspect one record at a time.",
  [LG, "fly/logger/logger.hpp"], [("sequenced task runner in front of the sink", LG)], [("m_index", "next record index", LG)])
p("L02", "A failing sink stops its logger for good and affects nothing else",
  "After a sink reports failure for a record, or fails to initialise, no further record reaches that sink; other loggers keep delivering all of their records.",
  [S, F], "The failing record at any position, with records of other threads queued behind it.",
  "The tests fail the sink once with nothing else queued.",
  [LG], [("runner released on first failure", LG)])
p("L03", "Logger registry: unique names, retrievable while alive",
  "A logger that was created successfully is retrievable by its name for as long as it is referenced, no second logger of that name can be created meanwhile (attempts fail without side effects on the first), "
  "and the name becomes available again after the last reference is gone. This holds under concurrent creation, failed creation, lookup and release.",
  [S, H], "All interleavings of creation, failed creation, lookup and release of equally named loggers.",
  "The tests create and look up sequentially.",
  ["fly/logger/detail/registry.cpp", LG], [("registry mutex and weak references", "fly/logger/detail/registry.cpp")])
p("L04", "File logger keeps every record across rotation, compression and disk faults",
  "Every record a file logger accepted is found exactly once, complete and in order, in the union of its current file, rotated files and compressed rotated files, and no file exceeds the configured size by more than one record. "
  "When a disk fault makes the logger fail or stop, records written before the fault are still there, and an original log is never deleted unless its compressed replacement decodes to it.",
  [F, S, H], "Any sequence of records, rotation sizes and compression settings, with open, write, close and remove failures, full disks and torn writes at any system call.",
  "The tests rotate on a healthy disk, and mock one failing call at a time without looking at the files left behind.",
  [FS, "fly/coders/coder.cpp", "fly/types/bit_stream/bit_stream_writer.cpp"], [("rotation on size", FS), ("compression replaces the rotated file", FS)])
CS = "fly/logger/detail/console_sink.cpp"
p("L05", "Console loggers print every record once, whole and on its stream",
  "Every record logged to a console logger, the default logger included, is printed exactly once as one whole line with its level's styling, trace and message, debug and info records on the standard output and warnings and errors on the standard error stream. "
  "This holds when several threads and several console loggers, synchronous and asynchronous, log at the same time: lines are never mixed and the records of one thread to one logger appear in order.",
  [S, H], "All interleavings of any number of threads and console loggers at every write to a stream.",
  "The tests log from a single thread, where no line can be interrupted.",
  [CS, LG], [("the process's two output streams", CS)])

PM, PI = "fly/path/path_monitor.cpp", "fly/path/nix/path_monitor_impl.cpp"
p("P01", "Every change below a monitored path is reported, correctly and in order",
  "While a directory or file is monitored, every creation, deletion and change of its files is reported to the registered callback with the right path and kind, in order per file, within bounded time; nothing that did not happen is reported. "
  "A callback for a specific file takes precedence over the directory's callback for that file. After transient read or poll failures monitoring continues.",
  [S, F, H], "Any sequence of file operations relative to the monitor's polls, split event batches, late readiness, interrupted or failing polls and reads.",
  "The tests perform one operation and wait; they cannot control event batching or make polls fail between events.",
  [PM, PI], [("watch descriptors mapped to paths", PI), ("polling task re-posted after each poll", PM)])
p("P02", "Path registrations are atomic: none lost, no callback after removal",
  "After a successful add, events are delivered until the matching remove; after remove returns, no callback of that registration runs or starts. "
  "This holds when different threads add and remove files and directories concurrently, including callbacks that are being delivered at that moment. "
  "A removed registration leaves nothing behind: no watch of the operating system stays in use, and nothing that happened while a directory had no registration is reported to a later one.",
  [S, H], "All interleavings of add_file, add_path, remove_file, remove_path, remove_all and event delivery.",
  "The tests call these from one thread with no event in flight.",
  [PM, PI], [("one mutex over registrations and delivery", PM)])

CM, CO = "fly/config/config_manager.cpp", "fly/config/config.cpp"
p("G01", "Configuration values follow the file and are never torn",
  "Within bounded time after the last modification that the configuration file sees during the manager's life, every configuration object returns the value in the file for each key that is present and well-typed, and the caller's default otherwise. "
  "Every single read at any time returns the default or a value that some state of the file contained, never a mixture.",
  [S, H], "Readers on any thread while the file is rewritten, replaced, corrupted, deleted and recreated in any order.",
  "The tests write the file once and sleep; readers never overlap with a reload.",
  [CO, CM], [("values replaced under the configuration's lock", CO), ("file monitor triggers a reload", CM)])
p("G02", "Configuration manager survives I/O errors and can be released at any time",
  "Read failures, unreadable or deleted files and directories never crash or wedge the configuration manager: it falls back to defaults and picks the file up again with its next modification that can be read. "
  "Creating the same configuration repeatedly or concurrently yields the same object while it is referenced, and the manager can be released at any moment without deadlock or callbacks into freed state.",
  [S, F], "Faults at any read or open; last references dropped at any point of a reload.",
  "The tests delete the manager when idle, and never make a read fail.",
  [CM, "fly/parser/parser.cpp"], [("weak self in callbacks", CM)])

p("S01", "System metrics are always in range and monitoring recovers from faults",
  "For any history of system counters - including no progress, going backwards, resets, and missing or malformed files - every reported CPU usage is a number between 0 and 100 percent (CPU time of all cores considered), and memory values and the CPU count are those of the last successful sample. "
  "After a failed sample monitoring continues and reports correct values again within bounded time. A monitor can be released at any moment, which ends its polling.",
  [F, H, S], "Any counter history and any failing or short read between polls.",
  "The tests sample the real system once, and mock a failure without looking at later samples.",
  ["fly/system/system_monitor.cpp", "fly/system/nix/system_monitor_impl.cpp"], [("deltas between successive counter samples", "fly/system/nix/system_monitor_impl.cpp")])
p("S02", "A signal at any moment runs the current handler or takes its default effect",
  "While the program's signal handler is installed, replaced or removed, every terminal signal that arrives, on any thread and at any moment, either runs a handler that was set at some time between its arrival and its handling, or takes the default effect if no handler was set then; exactly one of the two. "
  "A running handler and what it owns stay valid until it returns, even when it is replaced meanwhile; once setting a handler has returned, signals that arrive later only have the new effect.",
  [S, I], "Any sequence of handlers and any arrival of any of the signals, on any thread including the one that sets the handler and in the middle of setting it.",
  "The tests raise signals synchronously, never while the handler changes.",
  ["fly/system/system.cpp"], [("the process-wide handler and its installation for each signal", "fly/system/system.cpp")])

SS, TS, US, BS = ("fly/net/socket/socket_service.cpp", "fly/net/socket/tcp_socket.cpp", "fly/net/socket/udp_socket.cpp", "fly/net/socket/detail/base_socket.cpp")
NO = "fly/net/socket/detail/nix/socket_operations.cpp"
p("N01", "TCP data arrives complete, in order and uncorrupted",
  "The bytes a TCP peer receives are exactly a prefix of the bytes sent on that connection, in order; when both sides finish without an error they are all of them. "
  "This holds for synchronous and asynchronous transfers, however the network splits, delays or blocks them.",
  [S, F, I], "Any message sizes, partial sends and receives, would-block results, segment delays and packet sizes, any number of concurrent connections.",
  "Loopback tests transfer a few messages that fit in socket buffers; partial sends only happen under pressure the tests do not produce.",
  [TS, NO, SS], [("resume at the sent offset after partial sends", TS)])
p("N02", "Asynchronous socket requests complete exactly once with accurate results",
  "Every accepted asynchronous connect, accept, send and receive completes exactly once with a result that matches what happened on the wire, on the socket service's task runner, as long as the service lives; while the socket is open, completions of one direction come in request order. Requests still pending when their socket is closed or fails may be dropped, but never complete twice. A request that nobody could complete (no callback, no socket service, or one that is gone) is rejected. "
  "Once the network makes progress possible, a pending request completes within bounded time.",
  [S, F, H], "Several sockets and requests outstanding in both directions, late and spurious readiness, partial transfers, resets.",
  "The tests have one outstanding request per socket.",
  [SS, TS, US, "fly/net/socket/listen_socket.cpp"], [("one-shot readiness requests re-armed until done", SS)])
p("N03", "UDP datagrams keep their boundaries and content",
  "Every datagram received through a UDP socket equals one datagram sent to its address (up to the configured packet size); datagrams are neither merged, invented nor delivered to another socket, and one that the network delivers is received. "
  "A message longer than the packet size is sent as consecutive datagrams of that size. Loss, duplication, reordering and empty datagrams that arrive do not break the socket.",
  [F, S], "Any sequence of datagrams and network behaviours, synchronous and asynchronous.",
  "Loopback neither loses, duplicates, reorders nor blocks.",
  [US, NO], [("one system call per datagram", NO)])
p("N04", "A socket error closes that socket once and disturbs no other",
  "When an operation on a socket fails for good, its callback is told exactly once and the socket is closed; pending requests of other sockets are unaffected and no event of the closed socket is ever delivered to another socket that reuses its descriptor.",
  [F, S, H], "Errors at any call, descriptor reuse directly after a close, any number of other sockets with pending requests.",
  "No test closes a socket while another has requests pending.",
  [SS, BS, TS], [("requests hold weak references to sockets", SS)])
p("N05", "Connection state reflects reality",
  "A TCP socket reports connected only between a successfully established connection and its close or failure, a listener reports listening only while it accepts, and a connect - synchronous or asynchronous - reports success exactly when the peer accepted. "
  "Refused, timed-out or interrupted connects never look connected.",
  [F, S, H], "Any outcome and timing of connection establishment.",
  "Loopback connects succeed or are refused at once.",
  [TS, "fly/net/socket/listen_socket.cpp", NO], [("connect state machine", TS)])
p("N06", "Sockets own their descriptor: closed exactly once, never used after close",
  "Every descriptor a socket acquires (by construction, accept or move) is closed exactly once, at the latest when the last owner of the socket is gone; no transfer or change of state is attempted on a descriptor after it was closed. A moved socket takes its descriptor, its connection state and its settings (packet size) along, and leaves a closed socket behind that can be assigned to again.",
  [F, H, S], "Any sequence of construct, move, accept, fail, close and destroy, with failing system calls.",
  "The tests do not count descriptors.",
  [BS, NO], [("handle ownership in the base socket", BS)])

p("N07", "Bound addresses are exclusive, true, and can be taken over once closed",
  "A socket bound for single use shares its address with nobody: while another socket of the same kind is open at an overlapping address (the same one, or any address with the same port), or a connection of that port still lingers in the network, the bind fails and leaves both sockets as they were; of several simultaneous binds for single use at most one succeeds. "
  "With reuse allowed a listener can be bound again as soon as its predecessor has been closed, whatever became of the connections accepted from it (open, closing, lingering), and these go on working. A bind fails only for such a reason or an error of the system. A host name stands for the address it resolves to, and a name that does not resolve makes the call fail without effect. "
  "Sockets report the endpoints they really have: the bound one, also when the system chose the port, and the two sides of a connection each other's.",
  [S, H, F], "Any sequence of binding, listening, connecting, closing, releasing and waiting over any number of sockets, addresses and names; lingering depends on which side closed first and on the time since then (simulated clock).",
  "The tests bind each address once, mostly with reuse allowed; they neither take over the address of a listener whose connections linger nor bind the same address twice.",
  [BS, NO, "fly/net/socket/listen_socket.cpp"], [("bind() sets SO_REUSEADDR only if reuse is allowed, before binding", NO), ("names are resolved before binding or connecting", BS)])

p("U02", "Utilities give every thread the same results as a thread alone",
  "Formatting, conversion and manipulation of strings, Unicode conversion, JSON and INI parsing, JSON values and their serialization, coders, bit streams, IP addresses, random strings and system helpers may be used by any number of threads at once, "
  "each on its own objects or only reading shared ones: every use returns exactly what it returns when it is alone, whatever the same thread or other threads did before or do meanwhile, and nothing they share inside is accessed without synchronisation.",
  [S, H], "Any interleaving of any uses; results that depend on what was left in internal buffers by earlier uses.",
  "The tests use the utilities from one thread at a time, each once, in a fixed order.",
  ["fly/types/string/formatters.hpp", "fly/types/string/string.hpp", "fly/types/json/json.cpp", "fly/system/nix/system_impl.cpp"],
  [("buffers for the conversion of numbers, and the random number generator, are kept per thread", "fly/types/string/formatters.hpp"), ("hidden state of random strings", "fly/types/string/string.hpp")])

p("X01", "Running components follow their configuration file",
  "Loggers (message limit, size and compression of log files), path and system monitors (poll intervals), sockets (packet size, I/O wait time) and coders (chunk size, code length) which were created with configurations of a configuration manager go by the values in the file, "
  "or by the defaults of values which are not in it (or of a removed file), within bounded time after every change, without being created anew; until then every operation goes by a value that was in force at some time. "
  "A change of the configuration loses, doubles or damages no log record, path event, datagram or task.",
  [S, H, I], "Any sequence and timing of changes of any values in both formats, removal and return of the file, while every component is in use by several threads.",
  "The tests construct each component with fixed values; none changes a file under running components.",
  ["fly/config/config_manager.cpp", "fly/logger/detail/file_sink.cpp", "fly/logger/logger.cpp", "fly/path/path_monitor.cpp", "fly/system/system_monitor.cpp", "fly/net/socket/detail/base_socket.cpp", "fly/net/socket/socket_service.cpp"],
  [("configurations are updated in place and read at every use", "fly/config/config.hpp"), ("poll intervals are read anew for each poll", "fly/system/system_monitor.cpp"), ("packet size per receive", "fly/net/socket/detail/base_socket.cpp")])
p("X02", "Components share a task manager, and can be taken down in any order at any time",
  "All components of an application may share one task manager and its task runners, and may be released in any order, before or after the task manager is stopped, while their callbacks, tasks and transfers are in flight: nothing deadlocks or crashes, no callback or record comes after the manager was stopped, "
  "releasing everything destroys every object, joins every thread and closes every descriptor, and the same application can be started again in the same process. While all are running, each makes progress in bounded time whatever load is on the others.",
  [S, H, F], "Any order of release, any instant with respect to the activity of all components, any number of worker threads (one included).",
  "The tests run one component at a time, and take it down in one order when it is idle.",
  ["fly/task/task_manager.cpp", "fly/task/task_runner.cpp", "fly/config/config_manager.cpp", "fly/path/path_monitor.cpp", "fly/system/system_monitor.cpp", "fly/net/socket/socket_service.cpp", "fly/logger/logger.cpp", "fly/logger/detail/registry.cpp"],
  [("tasks hold components only weakly", "fly/task/task_runner.hpp"), ("recurring polls end with their component", "fly/system/system_monitor.cpp"), ("registry of logger names", "fly/logger/detail/registry.cpp")])

CD = "fly/coders/coder.cpp"
p("E01", "A coder reports success only if the output really decodes to the input",
  "If encoding (or decoding) a file or stream with the Huffman or Base64 coder reports success, the output completely and exactly represents the input, whatever read, write, open or close failures and short reads or writes occurred. "
  "Otherwise it reports failure: it does not throw, hang or crash.",
  [F, I], "An I/O fault at any system call of the operation, disks filling up at any byte, short and interrupted reads and writes, any input.",
  "The round-trip tests run on a healthy disk.",
  [CD, "fly/coders/huffman/huffman_encoder.cpp", "fly/coders/huffman/huffman_decoder.cpp", "fly/coders/base64/base64_coder.cpp", "fly/types/bit_stream/bit_stream_writer.cpp"],
  [("stream state checked at the end of the operation", CD)])
p("E02", "Decoding damaged data is memory-safe and terminates",
  "Decoding any truncated, torn or bit-flipped Huffman or Base64 file terminates, stays within its buffers and never crashes; it either reports failure, or the file was well formed after all and the output is what it stands for - success is never reported for data that violate the format or end in the middle of a symbol.",
  [F, I], "Any truncation point and any corruption of a stored file, in header, code table and body.",
  "The tests decode a few hand-written invalid headers.",
  ["fly/coders/huffman/huffman_decoder.cpp", "fly/types/bit_stream/bit_stream_reader.cpp"], [("header and table validation", "fly/coders/huffman/huffman_decoder.cpp")])
p("E03", "Bit streams return the bits written, however the stream delivers bytes",
  "Reading a bit stream returns exactly the sequence of bits written, for any split into reads and peeks and any chunking, short or interrupted reads of the underlying stream, and reports the end or a read error instead of inventing bits.",
  [F, I], "Any chunking of the underlying stream, errors and end of file at any byte.",
  "The tests read from in-memory streams that deliver everything at once.",
  ["fly/types/bit_stream/bit_stream_reader.cpp", "fly/types/bit_stream/bit_stream_reader.hpp", "fly/types/bit_stream/bit_stream_writer.cpp"],
  [("buffer refill", "fly/types/bit_stream/bit_stream_reader.cpp")])
p("R01", "Parsing a file either yields its whole content or reports failure",
  "Parsing a JSON or INI file yields exactly what parsing its complete content yields, or no value: a read error, a directory, or a file replaced while being opened never results in a partially parsed document, an exception or a hang.",
  [F, I], "A fault at any open or read of the file; short and interrupted reads.",
  "The tests parse healthy files and one missing file.",
  ["fly/parser/parser.cpp", "fly/parser/json_parser.cpp", "fly/parser/ini_parser.cpp"], [("stream state checked after parsing", "fly/parser/parser.cpp")])

# Pure functions of their input: listed for completeness, not simulation targets.
def pure(pid, title, statement, files, mech):
    p(pid, title, statement, [I], "All inputs.", "The tests check examples only.", files, [(mech, files[0])])

pure("J01", "JSON values round-trip through their text form",
     "Serializing any JSON value and parsing the result yields an equal value, and parsing accepts exactly the JSON grammar plus the documented extensions.",
     ["fly/types/json/json.cpp", "fly/parser/json_parser.cpp"], "serialization and parsing")
pure("J02", "JSON container operations match a reference container",
     "Any sequence of accessors, modifiers and iterations on a JSON value behaves as on the standard containers it wraps, and misuse raises the documented exception.",
     ["fly/types/json/json.hpp", "fly/types/json/json.cpp"], "variant of standard containers")
pure("U01", "Unicode conversions round-trip and reject ill-formed input",
     "Converting any well-formed string between UTF-8, UTF-16 and UTF-32 and back yields the same string; ill-formed input is reported as failure, never read out of bounds.",
     ["fly/types/string/detail/unicode.hpp"], "codepoint decoder and encoder")
pure("F01", "String formatting matches the documented format specification",
     "Formatting any value with any valid format specifier produces the documented text; invalid specifiers are rejected.",
     ["fly/types/string/string.hpp", "fly/types/string/formatters.hpp"], "formatters")
pure("A01", "IP addresses and endpoints round-trip through their text form",
     "Converting any IPv4 or IPv6 address or endpoint to text and parsing it yields an equal value, and malformed text is rejected.",
     ["fly/net/ipv4_address.hpp", "fly/net/ipv6_address.hpp", "fly/net/endpoint.hpp"], "text conversion")
pure("B01", "Base64 and Huffman coding are mutually inverse on healthy streams",
     "Decoding the encoding of any byte sequence yields the sequence for all coder configurations.",
     ["fly/coders/base64/base64_coder.cpp", "fly/coders/huffman/huffman_encoder.cpp"], "coder pair")

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
