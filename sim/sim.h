// Public interface of the deterministic simulator, used by the scenarios.
#pragma once
#include <cstdint>
#include <cstddef>

extern "C" {

enum SimFault : int
{
    SF_NONE = 0,
    // scheduling / time
    SF_TIME_JUMP,        // the whole process is held up: the clock advances to / past a deadline
    SF_STALL,            // one thread is held up for a while
    SF_SPURIOUS,         // spurious condition variable / futex wakeup
    SF_CLOCK_STEP,       // wall clock (CLOCK_REALTIME) steps forwards or backwards
    // files
    SF_OPEN_FAIL,        // open fails (EMFILE / EACCES / ENOSPC)
    SF_READ_EIO,         // read fails with EIO
    SF_READ_SHORT,       // read returns fewer bytes than asked
    SF_EINTR,            // interrupted system call
    SF_WRITE_ENOSPC,     // disk full: the write stores nothing (persists until lifted)
    SF_WRITE_SHORT,      // disk full in the middle of a write: torn write, then ENOSPC
    SF_WRITE_EIO,        // write fails with EIO
    SF_CLOSE_FAIL,       // close fails with EIO
    SF_UNLINK_FAIL,      // unlink / remove fails
    // inotify
    SF_POLL_DELAY,       // readiness is reported late
    SF_POLL_FAIL,        // poll / select fails
    SF_READ_EAGAIN,      // read on a ready descriptor would block after all
    SF_EVENT_SPLIT,      // fewer events per read
    SF_WATCH_FAIL,       // inotify_init / inotify_add_watch fails
    // network
    SF_NET_DELAY,        // segment / datagram delayed
    SF_NET_PARTIAL,      // short send / short recv
    SF_NET_AGAIN,        // spurious EAGAIN
    SF_NET_RESET,        // connection reset
    SF_NET_DROP,         // datagram lost
    SF_NET_DUP,          // datagram duplicated
    SF_NET_REORDER,      // datagram reordered
    SF_NET_REFUSE,       // connection refused / timed out
    SF_NET_ERR,          // socket call fails with another errno
    SF_SELECT_SPUR,      // select reports readiness that is gone by the time of the call
    // system calls
    SF_SYSINFO_FAIL,
    SF_THREAD_FAIL,
    SF_SIGNAL,           // a signal arrives
    // scenario-level
    SF_USER0, SF_USER1, SF_USER2, SF_USER3,
    SF_MAX
};

// ---- decisions (all replayable) -----------------------------------------------------------------
// Plan parameters and operations: drawn from the plan generator; a replay file can override params
// and disable operations.
int64_t sim_param(char const *name, int64_t lo, int64_t hi);
uint64_t sim_plan_rand(void);                 // raw draw from the plan generator
uint64_t sim_plan_range(uint64_t lo, uint64_t hi);
int sim_op(char const *fmt, ...) __attribute__((format(printf, 1, 2))); // declare one op; 0 if disabled

// Fault decision at a point in the run: 0 = no fault; otherwise a value in [1, n].
// Fires with the configured per-mille rate for that fault kind.
uint32_t sim_fault(int kind, uint32_t n);
void sim_fault_rate(int kind, int permille10);   // rate in 1/10000
void sim_fault_cap(int kind, int max_fires);
void sim_faults_enable(int on);                  // master switch (off by default)
uint32_t sim_choose(uint32_t n);                 // scenario-level run-time choice: default 0, in [0,n)
void sim_sched_quiet(int on);                    // on: no scheduling deviations (drain phase)
void sim_drain(void);                            // no more faults, fair schedule, no time jumps

// ---- run state ----------------------------------------------------------------------------------
int64_t sim_now(void);                           // virtual monotonic ns
uint64_t sim_seq(void);                          // global event number (strictly increasing)
int sim_tid(void);
void sim_sleep_ns(int64_t ns);                   // virtual sleep
void sim_point(void);                            // explicit preemption point
int sim_active(void);
void sim_note(char const *fmt, ...) __attribute__((format(printf, 1, 2)));   // into the event log
void sim_probe(int index);                       // count a "rare condition reached" probe
void sim_hash(uint64_t v);                       // mix into the run's state hash
void sim_fail(char const *cls, char const *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
void sim_stop(void);                             // end of the concurrent part: deactivates the scheduler
void sim_ignore_begin(void);                     // harness bookkeeping: no preemption, no race checks
void sim_ignore_end(void);
void sim_nopreempt_begin(void);                  // no preemption; accesses are still recorded
void sim_nopreempt_end(void);
void sim_time_budget(int64_t ns);                // simulated time limit of the run
void sim_step_budget(uint64_t steps);
int sim_tracing(void);
void sim_allow_races(int on);
char const *sim_scratch(void);                   // private scratch directory of this run
int sim_thread_blocked(int tid);                 // is the thread blocked (not runnable)?
int sim_threads_alive(void);                      // threads that were created and did not end
uint64_t sim_steps(void);
void sim_clock_step(int64_t ns);                 // step CLOCK_REALTIME

// ---- files --------------------------------------------------------------------------------------
void sim_fs_prefix(char const *prefix);          // file faults apply below this path
void sim_fs_redirect(char const *from, char const *to);
void sim_fs_full(int on);                        // disk full condition (explicit)
int sim_fs_is_full(void);
void sim_io_kick(void);                          // wake pollers to re-evaluate real descriptors
int sim_file_faults(void);                       // number of file faults fired so far
int sim_fault_count(int kind);
void sim_fs_exempt_begin(void);                  // this thread's own file I/O is fault free
void sim_fs_exempt_end(void);

// ---- system -------------------------------------------------------------------------------------
void sim_set_cores(int n); // what the machine pretends to have (2)
void sim_set_sysinfo(uint64_t total, uint64_t avail, int fail);
void sim_set_sysinfo_unit(uint64_t bytes);
void sim_set_cpu_rate(int user, int system);     // CPU time used by the process, in 1/1000 of one CPU

// ---- signals ------------------------------------------------------------------------------------
int sim_kill(int sig);                           // to the process; 1 + the thread that gets it, 0 if it merges or nobody can
void sim_signals_accept(int on);                 // this thread can be chosen
void sim_signal_default(void (*fn)(int sig, uint64_t sent)); // called instead of the default effect
uint64_t sim_signals_delivered(void);
uint64_t sim_signal_sent(void);                  // sim_seq() of the sending of the signal being handled

// ---- network ------------------------------------------------------------------------------------
int sim_net_open_fds(void);                      // number of open virtual sockets
uint64_t sim_net_created(void);
uint64_t sim_net_closed(void);
uint64_t sim_net_selects(void);                  // calls of select(), and of poll() with sockets
int sim_net_bad_use(void);                       // number of calls on closed descriptors
void sim_net_set_addr(char const *name, uint32_t ipv4);
void sim_net_params(int64_t latency, uint32_t segment_size, uint32_t buffer);
void sim_net_fd_base(int n);                     // sockets get descriptors from this number on
uint64_t sim_net_id(int fd);                     // identity of the socket open at the descriptor; 0: none
int64_t sim_net_info(uint64_t id, int what);
enum
{
    SN_SENT,        // bytes / datagrams taken from the sender
    SN_RECEIVED,    // bytes / datagrams given to the receiver
    SN_ESTABLISHED, // the connection was established
    SN_CLOSES,
    SN_ERRORS,      // fatal errors told to the owner
    SN_RESET,
    SN_EOF,         // the end of the peer's data was told to the owner
    SN_LOST,        // bytes sent to a peer that had gone
    SN_ACCEPTED,
    SN_CONN_FAILED, // errno of a failed connection attempt
    SN_DELIVERED,   // datagrams put into the receiver's queue
    SN_PEER = 100, SN_OPEN, SN_LISTENING, SN_CONNECTED, SN_UNREAD
};
}

struct SimIgnore
{
    SimIgnore() { sim_ignore_begin(); }
    ~SimIgnore() { sim_ignore_end(); }
};

// ---- scenario registration ----------------------------------------------------------------------
struct SimScenario
{
    char const *name;
    void (*run)(void);
    int weight;
    SimScenario *next;
    char const *const *probes; // null-terminated names
};
extern SimScenario *g_scenarios;
struct SimRegister
{
    explicit SimRegister(SimScenario *s) { s->next = g_scenarios; g_scenarios = s; }
};
#define SIM_SCENARIO(id, weight_, ...)                                                             \
    static void sim_run_##id(void);                                                                \
    static char const *const sim_probes_##id[] = {__VA_ARGS__ __VA_OPT__(, ) nullptr};             \
    static SimScenario sim_scn_##id {#id, sim_run_##id, weight_, nullptr, sim_probes_##id};        \
    static SimRegister sim_reg_##id {&sim_scn_##id};                                               \
    static void sim_run_##id(void)
