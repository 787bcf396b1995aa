// Internal interface of the simulator runtime. The runtime is compiled without instrumentation and
// instantiates no standard library templates (they would be shared with instrumented code).
#pragma once
#include "sim.h"
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <pthread.h>
#include <time.h>

static constexpr int MAXT = 64;
static constexpr int64_t FOREVER = INT64_MAX;

struct VC { uint32_t c[MAXT]; };

enum WaitKind : int { W_NONE, W_MUTEX, W_COND, W_FUTEX, W_SLEEP, W_JOIN, W_RW, W_POLL, W_ONCE, W_SEM };

enum DevKind : int { D_SCHED = 0, D_BLOCK, D_TIME, D_STALL, D_MEM, D_SIGNAL, D_CHOOSE, D_FAULT = 16, D_MAX = D_FAULT + SF_MAX };

struct Dev { uint32_t tid; uint32_t kind; uint64_t cnt; int64_t val; };

struct Dtor { void (*fn)(void *); void *obj; };

struct Thread
{
    int id;
    bool used, done, detached, started;
    int baton;
    WaitKind wk;
    void *wobj;
    uint64_t wseq;
    int64_t deadline;
    bool timedout;
    int wowner;              // explicit "waits for thread" (join / once), -1 if none
    int64_t stall_until;
    int ignore, nopreempt, exempt;
    uint64_t cnt[D_MAX];
    uint64_t memcount, next_mem;
    uint64_t quantum;        // steps since last scheduled in
    VC vc;
    pthread_t real;
    void *(*fn)(void *);
    void *arg;
    void *ret;
    int64_t prio;
    Dtor dtors[32];
    int ndtors;
    uint32_t stk[256];
    int depth;
    size_t replay_mem_pos;
    uint64_t sigpend, sigmask, sigcur; // signals: pending, blocked; when the one being handled was sent
    uint64_t sigseq[65];
    bool sigaccept;
};

struct SyncObj
{
    uintptr_t addr;
    int owner;               // mutex owner / once runner, -1 none
    int count;               // recursion / readers / semaphore
    int id;                  // first-seen order
    int state;
    VC *vc;                  // release clock
    VC *rvc;                 // readers' release clock
};

static constexpr int CLS_LEN = 256, MSG_LEN = 4096, NOTE_LEN = 1 << 16;
static constexpr int MAX_DEVS = 1 << 17;
static constexpr int MAX_OPS = 512, OPTXT = 112;
static constexpr int MAX_PARAMS = 64;

struct Param { char name[32]; int64_t lo, hi, val; };

struct RunResult
{
    volatile int finished;   // 1: ended normally, 2: failed
    char cls[CLS_LEN];
    char msg[MSG_LEN];
    uint64_t hash;           // interleaving hash
    uint64_t steps, accesses, switches;
    int64_t simtime;
    int nthreads;
    int fault_fired[SF_MAX];
    int probes[64];
    int nparams;
    Param params[MAX_PARAMS];
    int nops;
    int nops_enabled;
    char ops[MAX_OPS][OPTXT];
    int ndevs;
    int devs_overflow;
    int strategy;
    uint32_t racepc[4];
    int nstk;
    uint32_t stk[64];
    int nstk2;
    uint32_t stk2[64];
    int note_len;
    char notes[NOTE_LEN];
    Dev devs[MAX_DEVS];
};

struct RunInput
{
    uint64_t seed;
    int replay;              // 1: decisions come from devs
    int ndevs;
    Dev *devs;
    int noverride;
    struct { int idx; int64_t val; } over[MAX_PARAMS];
    unsigned char op_disabled[MAX_OPS];
    int trace;
    char scratch[128];
};

extern RunResult *g_res;
extern RunInput g_in;
extern int g_active;
extern int64_t g_now;
extern int64_t g_rt_off;
extern Thread g_thr[MAXT];
extern int g_nthr;
extern int g_drain, g_fired[SF_MAX];
extern uint64_t g_seq;
extern __thread Thread *tls_self __attribute__((tls_model("initial-exec")));

static inline Thread *self() { return (g_active) ? tls_self : nullptr; }

void rt_init_real();
void rt_prepare_run();
void rt_mem_start_run();
void sched_point(int kind, void *obj);
void rt_deliver_signals(Thread *t);
void rt_sig_start_run();
// Block the current thread until woken or until the deadline. Returns true if timed out.
bool block_on(WaitKind wk, void *obj, int64_t deadline, int owner = -1);
void wake_all(WaitKind wk, void *obj);
int wake_n(WaitKind wk, void *obj, int n);
SyncObj *sync_obj(void const *addr);
void hb_acquire(Thread *t, SyncObj *o);
void hb_release(Thread *t, SyncObj *o);
void range_access(void const *p, size_t n, bool write, uintptr_t pc);
void mem_preempt(Thread *t);
void trace(char const *fmt, ...) __attribute__((format(printf, 1, 2)));
void mix(uint64_t v);
void record_dev(Thread *t, int kind, uint64_t cnt, int64_t val);
uint32_t fault_decide(int kind, uint32_t n);
void sim_failv(char const *cls, char const *fmt, va_list ap) __attribute__((noreturn));
void wake_pollers();
uint64_t rng_sched();
uint64_t rng_fault();

// real functions
extern "C" {
struct pollfd;
}
void *rt_real(char const *name);

// network hooks used by the I/O layer (rt_net.cpp)
bool net_is_fd(int fd);
void net_count_poll();
void net_forget(int fd);      // the descriptor is a file's now
void net_check_close(int fd); // reports a second close of a socket's descriptor
int net_close(int fd);
int net_poll_revents(int fd, int events);
int64_t net_next_event();
