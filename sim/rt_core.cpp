// Scheduler, virtual time, and interception of threads and synchronisation primitives.
#include "rt_int.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <semaphore.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <sched.h>

RunResult *g_res;
RunInput g_in;
int g_active;
int64_t g_now;
int64_t g_rt_off;
Thread g_thr[MAXT];
int g_nthr;
int g_drain;
uint64_t g_seq;
__thread Thread *tls_self __attribute__((tls_model("initial-exec")));

static uint64_t g_steps, g_switches;
static uint64_t g_hash;
static int g_quiet;
static int g_faults_on;
int g_rate[SF_MAX], g_cap[SF_MAX], g_fired[SF_MAX];
static int64_t g_time_budget = FOREVER;
static uint64_t g_step_budget = 3000000;
static int g_allow_races_;
int g_allow_races() { return g_allow_races_; }
static uint64_t g_waitseq;

static int64_t const STEP_NS = 200;
static int64_t const RT_BASE = 1700000000LL * 1000000000LL;
static int64_t const MONO_BASE = 1000LL * 1000000000LL;
static uint64_t const QUANTUM = 4000;

// ---- PRNGs --------------------------------------------------------------------------------------
struct Rng
{
    uint64_t s[2];
    void seed(uint64_t x)
    {
        for (int i = 0; i < 2; ++i)
        {
            x += 0x9e3779b97f4a7c15ULL;
            uint64_t z = x;
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
            s[i] = z ^ (z >> 31);
        }
        if (!s[0] && !s[1]) s[0] = 1;
    }
    uint64_t next()
    {
        uint64_t s1 = s[0], s0 = s[1];
        uint64_t r = s0 + s1;
        s[0] = s0;
        s1 ^= s1 << 23;
        s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
        r ^= r >> 29; r *= 0xbf58476d1ce4e5b9ULL; r ^= r >> 32;
        return r;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};
static Rng g_rs, g_rf, g_rp;
uint64_t rng_sched() { return g_rs.next(); }
uint64_t rng_fault() { return g_rf.next(); }

// ---- strategy -----------------------------------------------------------------------------------
enum { S_RANDOM, S_PCT, S_RANDOM_MEM, S_PCT_MEM, S_SERIAL, S_NSTRAT };
static int g_strat;
static uint32_t g_pswitch;     // /1024
static uint64_t g_mem_mean;
static uint32_t g_ptime;       // /65536 per sync point
static uint32_t g_pstall;
static int g_nchange;
static uint64_t g_change[16];
static uint64_t g_mchange[16];
static int g_nmchange;
static uint64_t g_sync_steps, g_mem_steps;
static int64_t g_lowprio;

static void setup_strategy()
{
    g_strat = (int)g_rs.below(16);
    if (g_strat < 5) g_strat = S_RANDOM;
    else if (g_strat < 9) g_strat = S_PCT;
    else if (g_strat < 12) g_strat = S_RANDOM_MEM;
    else if (g_strat < 15) g_strat = S_PCT_MEM;
    else g_strat = S_SERIAL;

    static uint32_t const sw[] = {30, 100, 300, 600, 1024};
    static uint64_t const mm[] = {20, 60, 200, 1000, 5000};
    static uint32_t const pt[] = {0, 0, 60, 300, 1200};
    static uint32_t const ps[] = {0, 0, 0, 30, 200};
    static uint64_t const lens[] = {60, 200, 600, 2000, 8000};
    static uint64_t const mlens[] = {500, 3000, 15000, 80000};
    g_pswitch = sw[g_rs.below(5)];
    g_mem_mean = mm[g_rs.below(5)];
    g_ptime = pt[g_rs.below(5)];
    g_pstall = ps[g_rs.below(5)];
    g_nchange = (int)g_rs.below(5);
    uint64_t len = lens[g_rs.below(5)];
    for (int i = 0; i < g_nchange; ++i) g_change[i] = 1 + g_rs.below(len);
    g_nmchange = (int)(1 + g_rs.below(5));
    len = mlens[g_rs.below(4)];
    for (int i = 0; i < g_nmchange; ++i) g_mchange[i] = 1 + g_rs.below(len);
    g_lowprio = 0;
    g_res->strategy = g_strat;
}

static bool pct() { return g_strat == S_PCT || g_strat == S_PCT_MEM; }

static void next_mem_target(Thread *t)
{
    if (g_in.replay)
    {
        // devs for D_MEM of this thread are sorted by count
        t->next_mem = UINT64_MAX;
        for (; t->replay_mem_pos < (size_t)g_in.ndevs; ++t->replay_mem_pos)
        {
            Dev const &d = g_in.devs[t->replay_mem_pos];
            if (d.kind == D_MEM && d.tid == (uint32_t)t->id && d.cnt > t->memcount)
            {
                t->next_mem = d.cnt;
                return;
            }
        }
        return;
    }
    if (g_strat == S_RANDOM_MEM)
        t->next_mem = t->memcount + 1 + g_rs.below(2 * g_mem_mean);
    else
        t->next_mem = UINT64_MAX;
}

// ---- replay lookup ------------------------------------------------------------------------------
struct DevSlot { uint32_t idx; };
static uint32_t *g_devtab;
static uint32_t g_devmask;

static uint64_t devkey(uint32_t tid, uint32_t kind, uint64_t cnt)
{
    uint64_t h = (uint64_t)tid * 0x9e3779b97f4a7c15ULL ^ (uint64_t)kind * 0xc2b2ae3d27d4eb4fULL ^
        cnt * 0x165667b19e3779f9ULL;
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32;
    return h;
}

static void build_devtab()
{
    uint32_t n = 64;
    while (n < (uint32_t)g_in.ndevs * 2 + 2) n <<= 1;
    g_devtab = (uint32_t *)mmap(nullptr, n * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    g_devmask = n - 1;
    for (int i = 0; i < g_in.ndevs; ++i)
    {
        uint64_t h = devkey(g_in.devs[i].tid, g_in.devs[i].kind, g_in.devs[i].cnt);
        while (g_devtab[h & g_devmask]) ++h;
        g_devtab[h & g_devmask] = (uint32_t)i + 1;
    }
}

static bool lookup_dev(Thread *t, int kind, uint64_t cnt, int64_t *val)
{
    uint64_t h = devkey((uint32_t)t->id, (uint32_t)kind, cnt);
    while (uint32_t i = g_devtab[h & g_devmask])
    {
        Dev const &d = g_in.devs[i - 1];
        if (d.tid == (uint32_t)t->id && d.kind == (uint32_t)kind && d.cnt == cnt)
        {
            *val = d.val;
            return true;
        }
        ++h;
    }
    return false;
}

void record_dev(Thread *t, int kind, uint64_t cnt, int64_t val)
{
    if (g_res->ndevs < MAX_DEVS)
        g_res->devs[g_res->ndevs++] = {(uint32_t)t->id, (uint32_t)kind, cnt, val};
    else
        g_res->devs_overflow = 1;
}

// ---- output -------------------------------------------------------------------------------------
void mix(uint64_t v)
{
    g_hash = (g_hash ^ v) * 0x100000001b3ULL;
    g_hash ^= g_hash >> 29;
}

void trace(char const *fmt, ...)
{
    if (!g_in.trace) return;
    char buf[512];
    Thread *t = tls_self;
    int n = snprintf(buf, sizeof buf, "[%10.6f t%d #%lu] ", g_now / 1e9, t ? t->id : -1, (unsigned long)g_steps);
    va_list ap;
    va_start(ap, fmt);
    n += vsnprintf(buf + n, sizeof buf - (size_t)n - 2, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof buf - 2) n = (int)sizeof buf - 2;
    buf[n++] = '\n';
    syscall(SYS_write, 2, buf, n);
}

static char const *const wk_names[] = {"running", "mutex", "cond", "futex", "sleep", "join", "rwlock", "poll", "once", "sem"};

static void finish_common()
{
    g_res->hash = g_hash;
    g_res->steps = g_steps;
    g_res->switches = g_switches;
    g_res->simtime = g_now;
    g_res->nthreads = g_nthr;
    for (int i = 0; i < SF_MAX; ++i) g_res->fault_fired[i] = g_fired[i];
}

static void note_raw(char const *buf, int n)
{
    if (g_res->note_len + n + 1 < NOTE_LEN)
    {
        memcpy(g_res->notes + g_res->note_len, buf, (size_t)n);
        g_res->note_len += n;
        g_res->notes[g_res->note_len] = 0;
    }
}

static void thread_states()
{
    char b[160];
    for (int i = 0; i < g_nthr; ++i)
    {
        Thread &t = g_thr[i];
        if (!t.used) continue;
        int own = -1;
        if (t.wk == W_MUTEX || t.wk == W_RW) own = sync_obj(t.wobj)->owner;
        int n = snprintf(b, sizeof b, "  thread %d: %s%s owner=%d\n", t.id, t.done ? "done" : wk_names[t.wk],
            (t.wk != W_NONE && t.deadline != FOREVER) ? " (timed)" : "", own);
        note_raw(b, n);
    }
}

void sim_failv(char const *cls, char const *fmt, va_list ap)
{
    g_active = 0;
    finish_common();
    strncpy(g_res->cls, cls, CLS_LEN - 1);
    vsnprintf(g_res->msg, MSG_LEN, fmt, ap);
    Thread *t = tls_self;
    if (t && g_res->nstk == 0)
    {
        int n = 0;
        for (int d = (t->depth < 256 ? t->depth : 256) - 1; d >= 0 && n < 64; --d)
            g_res->stk[n++] = t->stk[d];
        g_res->nstk = n;
    }
    thread_states();
    if (g_in.trace) { fprintf(stderr, "FAIL %s: %s\n", g_res->cls, g_res->msg); }
    g_res->finished = 2;
    syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}

extern "C" void sim_fail(char const *cls, char const *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    sim_failv(cls, fmt, ap);
}

// ---- scheduling ---------------------------------------------------------------------------------
static inline bool runnable(Thread const &t)
{
    return t.used && !t.done && t.wk == W_NONE && t.stall_until <= g_now;
}

static void wake_thread(Thread &t, bool timedout)
{
    t.wk = W_NONE;
    t.wobj = nullptr;
    t.timedout = timedout;
    t.deadline = FOREVER;
    t.wowner = -1;
}

static void fire_timers()
{
    for (int i = 0; i < g_nthr; ++i)
    {
        Thread &t = g_thr[i];
        if (t.used && !t.done && t.wk != W_NONE && t.deadline <= g_now) wake_thread(t, true);
    }
}

static int64_t next_deadline()
{
    int64_t d = FOREVER;
    for (int i = 0; i < g_nthr; ++i)
    {
        Thread &t = g_thr[i];
        if (!t.used || t.done) continue;
        if (t.wk != W_NONE) { if (t.deadline < d) d = t.deadline; }
        else if (t.stall_until > g_now && t.stall_until < d) d = t.stall_until;
    }
    return d;
}

static void futex_wait_real(int *w)
{
    while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0)
        syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}

static void futex_wake_real(int *w)
{
    __atomic_store_n(w, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

// g_cur is implied: only the thread holding the baton executes runtime code.
static void switch_to(Thread *from, Thread *to, bool wait)
{
    ++g_switches;
    mix(0x5157ULL ^ (uint64_t)to->id << 8);
    if (g_in.trace > 1) trace("switch -> t%d", to->id);
    to->quantum = 0;
    int e = errno;
    futex_wake_real(&to->baton);
    if (wait) futex_wait_real(&from->baton);
    errno = e;
}

static Thread *cyclic_next(Thread *t)
{
    for (int k = 1; k <= g_nthr; ++k)
    {
        Thread &c = g_thr[(t->id + k) % g_nthr];
        if (runnable(c)) return &c;
    }
    return nullptr;
}

static Thread *best_prio()
{
    Thread *b = nullptr;
    for (int i = 0; i < g_nthr; ++i)
        if (runnable(g_thr[i]) && (!b || g_thr[i].prio > b->prio)) b = &g_thr[i];
    return b;
}

static Thread *random_runnable()
{
    int n = 0;
    Thread *c[MAXT];
    for (int i = 0; i < g_nthr; ++i)
        if (runnable(g_thr[i])) c[n++] = &g_thr[i];
    return n ? c[g_rs.below((uint64_t)n)] : nullptr;
}

static void check_budget()
{
    if (g_now > g_time_budget) sim_fail("hang:time", "simulated time budget exceeded");
    if (g_steps > g_step_budget) sim_fail("hang:steps", "step budget exceeded");
    if (g_steps > g_step_budget / 2) g_quiet |= 2;
}

static void do_stall(Thread *t, int64_t ns)
{
    if (!g_in.replay) g_fired[SF_STALL]++;
    else g_fired[SF_STALL]++;
    t->stall_until = g_now + ns;
}

static void yield_running(Thread *t, Thread *next)
{
    if (next && next != t) switch_to(t, next, true);
}

// pick a thread when t itself cannot run (blocked, stalled)
static Thread *pick_when_blocked(Thread *t)
{
    for (;;)
    {
        fire_timers();
        Thread *def = cyclic_next(t);
        if (!def)
        {
            int64_t d = next_deadline();
            if (d == FOREVER)
            {
                int blocked = 0;
                for (int i = 0; i < g_nthr; ++i)
                    if (g_thr[i].used && !g_thr[i].done) ++blocked;
                sim_fail("deadlock:global", "no thread can run: %d blocked", blocked);
            }
            if (d > g_now) g_now = d;
            check_budget();
            continue;
        }
        uint64_t c = t->cnt[D_BLOCK]++;
        if (g_quiet || g_drain) return def;
        if (g_in.replay)
        {
            int64_t v;
            if (lookup_dev(t, D_BLOCK, c, &v) && v >= 0 && v < g_nthr && runnable(g_thr[v])) def = &g_thr[v];
            return def;
        }
        Thread *n = def;
        if (pct()) n = best_prio();
        else if (g_strat != S_SERIAL) n = random_runnable();
        if (n != def) record_dev(t, D_BLOCK, c, n->id);
        return n;
    }
}

static void sched_point_(int kind, void *obj)
{
    Thread *t = tls_self;
    ++g_steps;
    ++g_seq;
    g_now += STEP_NS;
    if (t->ignore || t->nopreempt) return;
    mix(((uint64_t)kind << 8) ^ (uint64_t)t->id);
    (void)obj;
    check_budget();
    ++t->quantum;
    ++g_sync_steps;
    fire_timers();

    uint64_t c = t->cnt[D_SCHED]++;
    if (g_quiet || g_drain)
    {
        if (t->quantum > QUANTUM) { t->quantum = 0; yield_running(t, cyclic_next(t)); }
        return;
    }

    if (g_in.replay)
    {
        int64_t v;
        if (lookup_dev(t, D_TIME, c, &v))
        {
            g_fired[SF_TIME_JUMP]++;
            g_now += v;
            fire_timers();
        }
        if (lookup_dev(t, D_STALL, c, &v)) do_stall(t, v);
        if (t->stall_until > g_now)
        {
            Thread *n = pick_when_blocked(t);
            if (n != t) switch_to(t, n, true);
            return;
        }
        if (lookup_dev(t, D_SCHED, c, &v) && v >= 0 && v < g_nthr && runnable(g_thr[v]))
        {
            yield_running(t, &g_thr[v]);
            return;
        }
        if (t->quantum > QUANTUM) { t->quantum = 0; yield_running(t, cyclic_next(t)); }
        return;
    }

    if (g_faults_on)
    {
        if (g_ptime && (g_rs.next() & 0xffff) < g_ptime)
        {
            int64_t d = next_deadline();
            int64_t v;
            uint64_t how = g_rs.below(4);
            if (how < 2 && d != FOREVER && d > g_now) v = d - g_now + (how == 0 ? 0 : (int64_t)g_rs.below(2000000));
            else if (how == 2) v = (int64_t)g_rs.below(1000000);
            else v = (int64_t)g_rs.below(60000000);
            record_dev(t, D_TIME, c, v);
            g_fired[SF_TIME_JUMP]++;
            g_now += v;
            fire_timers();
        }
        if (g_pstall && (g_rs.next() & 0xffff) < g_pstall)
        {
            int64_t v = 1 + (int64_t)g_rs.below(g_rs.below(2) ? 2000000 : 60000000);
            record_dev(t, D_STALL, c, v);
            do_stall(t, v);
            Thread *n = pick_when_blocked(t);
            if (n != t) switch_to(t, n, true);
            return;
        }
    }

    Thread *n = t;
    if (pct())
    {
        for (int i = 0; i < g_nchange; ++i)
            if (g_change[i] == g_sync_steps) t->prio = --g_lowprio;
        n = best_prio();
    }
    else if (g_strat == S_RANDOM || g_strat == S_RANDOM_MEM)
    {
        if ((g_rs.next() & 1023) < g_pswitch) n = random_runnable();
    }
    if (n && n != t) { record_dev(t, D_SCHED, c, n->id); yield_running(t, n); return; }
    if (t->quantum > QUANTUM) { t->quantum = 0; yield_running(t, cyclic_next(t)); }
}

void sched_point(int kind, void *obj)
{
    sched_point_(kind, obj);
    if (__builtin_expect(tls_self->sigpend != 0, 0)) rt_deliver_signals(tls_self);
}

// called when t->memcount == t->next_mem (random / replay), or at a PCT-mem change point
void mem_preempt(Thread *t)
{
    if (t->ignore || t->nopreempt || g_quiet || g_drain) { next_mem_target(t); return; }
    Thread *n = nullptr;
    fire_timers();
    if (g_in.replay)
    {
        int64_t v;
        if (lookup_dev(t, D_MEM, t->memcount, &v) && v >= 0 && v < g_nthr && runnable(g_thr[v])) n = &g_thr[v];
    }
    else
    {
        if (pct()) { t->prio = --g_lowprio; n = best_prio(); }
        else n = random_runnable();
        if (n && n != t) record_dev(t, D_MEM, t->memcount, n->id);
    }
    next_mem_target(t);
    if (n && n != t)
    {
        ++g_seq;
        mix(0xA11ULL ^ ((uint64_t)t->id << 16));
        yield_running(t, n);
    }
    if (__builtin_expect(t->sigpend != 0, 0)) rt_deliver_signals(t);
}

int rt_mem_tick_pct()
{
    // returns 1 if a PCT-mem change point is reached at this access
    ++g_mem_steps;
    for (int i = 0; i < g_nmchange; ++i)
        if (g_mchange[i] == g_mem_steps) return 1;
    return 0;
}
int rt_pct_mem() { return !g_in.replay && g_strat == S_PCT_MEM; }

static int waits_for(Thread const &t)
{
    if (t.done || t.wk == W_NONE || t.deadline != FOREVER) return -1;
    if (t.wk == W_MUTEX || t.wk == W_RW) return sync_obj(t.wobj)->owner;
    if (t.wk == W_JOIN || t.wk == W_ONCE) return t.wowner;
    return -1;
}

bool block_on(WaitKind wk, void *obj, int64_t deadline, int owner)
{
    Thread *t = tls_self;
    t->wk = wk;
    t->wobj = obj;
    t->wseq = ++g_waitseq;
    t->deadline = deadline;
    t->timedout = false;
    t->wowner = owner;
    // cycle detection
    if (deadline == FOREVER && (wk == W_MUTEX || wk == W_RW || wk == W_JOIN || wk == W_ONCE))
    {
        int cur = waits_for(*t), hops = 0;
        char path[256];
        int n = snprintf(path, sizeof path, "t%d(%s)", t->id, wk_names[wk]);
        while (cur >= 0 && hops++ < MAXT)
        {
            n += snprintf(path + n, sizeof path - (size_t)n, " -> t%d(%s)", cur, wk_names[g_thr[cur].wk]);
            if (n > 200) n = 200;
            if (cur == t->id) sim_fail("deadlock:cycle", "threads wait for each other: %s", path);
            cur = waits_for(g_thr[cur]);
        }
    }
    Thread *n = pick_when_blocked(t);
    if (n != t) switch_to(t, n, true);
    return t->timedout;
}

void wake_all(WaitKind wk, void *obj)
{
    for (int i = 0; i < g_nthr; ++i)
        if (g_thr[i].used && !g_thr[i].done && g_thr[i].wk == wk && g_thr[i].wobj == obj) wake_thread(g_thr[i], false);
}

void wake_pollers()
{
    for (int i = 0; i < g_nthr; ++i)
        if (g_thr[i].used && !g_thr[i].done && g_thr[i].wk == W_POLL) wake_thread(g_thr[i], false);
}

// wake up to n waiters, oldest first by default
int wake_n(WaitKind wk, void *obj, int n)
{
    Thread *t = tls_self;
    int woken = 0;
    while (woken < n)
    {
        Thread *w[MAXT];
        int k = 0;
        for (int i = 0; i < g_nthr; ++i)
            if (g_thr[i].used && !g_thr[i].done && g_thr[i].wk == wk && g_thr[i].wobj == obj) w[k++] = &g_thr[i];
        if (!k) break;
        for (int i = 1; i < k; ++i)
            for (int j = i; j > 0 && w[j]->wseq < w[j - 1]->wseq; --j) { Thread *x = w[j]; w[j] = w[j - 1]; w[j - 1] = x; }
        int sel = 0;
        uint64_t c = t->cnt[D_SIGNAL]++;
        if (k > 1 && !g_quiet && !g_drain)
        {
            if (g_in.replay)
            {
                int64_t v;
                if (lookup_dev(t, D_SIGNAL, c, &v) && v < k) sel = (int)v;
            }
            else if (g_strat != S_SERIAL && g_rs.below(2))
            {
                sel = (int)g_rs.below((uint64_t)k);
                if (sel) record_dev(t, D_SIGNAL, c, sel);
            }
        }
        wake_thread(*w[sel], false);
        ++woken;
    }
    return woken;
}

// ---- decisions ----------------------------------------------------------------------------------
uint32_t fault_decide(int kind, uint32_t n)
{
    Thread *t = self();
    if (!t || n == 0) return 0;
    uint64_t c = t->cnt[D_FAULT + kind]++;
    if (!g_faults_on || g_drain || t->exempt || t->ignore) return 0;
    if (g_cap[kind] >= 0 && g_fired[kind] >= g_cap[kind]) return 0;
    uint32_t r = 0;
    if (g_in.replay)
    {
        int64_t v;
        if (lookup_dev(t, D_FAULT + kind, c, &v)) r = (uint32_t)((uint64_t)(v - 1) % n) + 1;
    }
    else if (g_rate[kind] > 0 && (int)(g_rf.next() % 10000) < g_rate[kind])
    {
        r = (uint32_t)g_rf.below(n) + 1;
        record_dev(t, D_FAULT + kind, c, r);
    }
    if (r)
    {
        g_fired[kind]++;
        mix(0xFA000ULL + (uint64_t)kind * 64 + r);
        trace("FAULT kind=%d value=%u", kind, r);
    }
    return r;
}

extern "C" uint32_t sim_fault(int kind, uint32_t n) { return fault_decide(kind, n); }
extern "C" void sim_fault_rate(int kind, int p) { g_rate[kind] = p; }
extern "C" void sim_fault_cap(int kind, int c) { g_cap[kind] = c; }
extern "C" void sim_faults_enable(int on) { g_faults_on = on; }
extern "C" int sim_fault_count(int kind) { return g_fired[kind]; }
extern "C" uint32_t sim_choose(uint32_t n)
{
    Thread *t = self();
    if (!t || n <= 1) return 0;
    uint64_t c = t->cnt[D_CHOOSE]++;
    uint32_t r = 0;
    if (g_in.replay)
    {
        int64_t v;
        if (lookup_dev(t, D_CHOOSE, c, &v)) r = (uint32_t)((uint64_t)v % n);
    }
    else
    {
        r = (uint32_t)g_rf.below(n);
        if (r) record_dev(t, D_CHOOSE, c, r);
    }
    mix(0xC0000ULL + r);
    return r;
}
extern "C" void sim_sched_quiet(int on) { if (on) g_quiet |= 1; else g_quiet &= ~1; }
extern "C" void sim_drain(void)
{
    g_drain = 1;
    g_faults_on = 0;
    for (int i = 0; i < g_nthr; ++i) g_thr[i].stall_until = 0;
    trace("drain");
}

// ---- plan ---------------------------------------------------------------------------------------
extern "C" uint64_t sim_plan_rand(void) { return g_rp.next(); }
extern "C" uint64_t sim_plan_range(uint64_t lo, uint64_t hi) { return lo + g_rp.below(hi - lo + 1); }
extern "C" int64_t sim_param(char const *name, int64_t lo, int64_t hi)
{
    int64_t v = lo + (int64_t)g_rp.below((uint64_t)(hi - lo + 1));
    int idx = g_res->nparams;
    if (idx >= MAX_PARAMS) return v;
    for (int i = 0; i < g_in.noverride; ++i)
        if (g_in.over[i].idx == idx && g_in.over[i].val >= lo && g_in.over[i].val <= hi) v = g_in.over[i].val;
    Param &p = g_res->params[idx];
    strncpy(p.name, name, 31);
    p.lo = lo;
    p.hi = hi;
    p.val = v;
    g_res->nparams = idx + 1;
    return v;
}
extern "C" int sim_op(char const *fmt, ...)
{
    int i = g_res->nops;
    if (i >= MAX_OPS) return 0;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(g_res->ops[i], OPTXT, fmt, ap);
    va_end(ap);
    g_res->nops = i + 1;
    int en = !g_in.op_disabled[i];
    g_res->nops_enabled += en;
    return en;
}

// ---- misc API -----------------------------------------------------------------------------------
extern "C" int64_t sim_now(void) { return g_now; }
extern "C" uint64_t sim_seq(void) { return ++g_seq; }
extern "C" uint64_t sim_steps(void) { return g_steps; }
extern "C" int sim_tid(void) { return tls_self ? tls_self->id : -1; }
extern "C" int sim_active(void) { return g_active; }
extern "C" int sim_tracing(void) { return g_in.trace; }
extern "C" char const *sim_scratch(void) { return g_in.scratch; }
extern "C" void sim_probe(int i) { if (i >= 0 && i < 64) g_res->probes[i]++; }
extern "C" void sim_hash(uint64_t v) { mix(v); }
extern "C" void sim_time_budget(int64_t ns) { g_time_budget = ns; }
extern "C" void sim_step_budget(uint64_t s) { g_step_budget = s; }
extern "C" void sim_allow_races(int on) { g_allow_races_ = on; }
extern "C" void sim_ignore_begin(void) { if (tls_self) tls_self->ignore++; }
extern "C" void sim_ignore_end(void) { if (tls_self) tls_self->ignore--; }
extern "C" void sim_nopreempt_begin(void) { if (tls_self) tls_self->nopreempt++; }
extern "C" void sim_nopreempt_end(void) { if (tls_self) tls_self->nopreempt--; }
extern "C" int sim_threads_alive(void)
{
    int n = 0;
    for (int i = 0; i < g_nthr; ++i)
        if (g_thr[i].used && !g_thr[i].done) ++n;
    return n;
}

extern "C" int sim_thread_blocked(int tid) { return g_thr[tid].wk != W_NONE; }
extern "C" void sim_fs_exempt_begin(void) { if (tls_self) tls_self->exempt++; }
extern "C" void sim_fs_exempt_end(void) { if (tls_self) tls_self->exempt--; }
extern "C" void sim_clock_step(int64_t ns) { g_rt_off += ns; trace("wall clock steps by %ld ns", (long)ns); }
extern "C" void sim_point(void) { if (self()) sched_point(1, nullptr); }
extern "C" void sim_sleep_ns(int64_t ns)
{
    if (!self()) return;
    block_on(W_SLEEP, nullptr, g_now + (ns > 0 ? ns : 0));
}
extern "C" void sim_note(char const *fmt, ...)
{
    char b[400];
    int n = snprintf(b, sizeof b, "%.6f t%d %lu ", g_now / 1e9, sim_tid(), (unsigned long)g_seq);
    va_list ap;
    va_start(ap, fmt);
    n += vsnprintf(b + n, sizeof b - (size_t)n - 2, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b - 2) n = (int)sizeof b - 2;
    b[n++] = '\n';
    b[n] = 0;
    for (int i = 0; i < n; ++i) if ((i & 7) == 0) mix((unsigned char)b[i]);
    note_raw(b, n);
    if (g_in.trace) trace("NOTE %.*s", n - 1, b);
}

// ---- sync objects -------------------------------------------------------------------------------
static constexpr uint32_t OBJ_CAP = 1 << 17;
static SyncObj *g_objs;      // open addressing
static uint32_t g_nobjs;
static char *g_vcpool;
static size_t g_vcpos;

static VC *new_vc()
{
    VC *v = (VC *)(g_vcpool + g_vcpos);
    g_vcpos += sizeof(VC);
    if (g_vcpos > (size_t)OBJ_CAP * sizeof(VC) * 2 - sizeof(VC)) sim_fail("resource:memory", "too many clocks");
    return v;
}

SyncObj *sync_obj(void const *addr)
{
    uint64_t h = (uint64_t)addr * 0x9e3779b97f4a7c15ULL >> 40;
    for (;;)
    {
        SyncObj &o = g_objs[h & (OBJ_CAP - 1)];
        if (o.addr == (uintptr_t)addr) return &o;
        if (!o.addr)
        {
            if (g_nobjs > OBJ_CAP * 3 / 4) sim_fail("resource:memory", "too many synchronisation objects");
            o.addr = (uintptr_t)addr;
            o.owner = -1;
            o.id = (int)++g_nobjs;
            return &o;
        }
        ++h;
    }
}

static SyncObj *sync_find(void const *addr)
{
    for (uint64_t h = (uint64_t)addr * 0x9e3779b97f4a7c15ULL >> 40;; ++h)
    {
        SyncObj &o = g_objs[h & (OBJ_CAP - 1)];
        if (o.addr == (uintptr_t)addr) return &o;
        if (!o.addr) return nullptr;
    }
}

static void vc_join(VC &a, VC const &b)
{
    for (int i = 0; i < g_nthr; ++i)
        if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
void hb_acquire(Thread *t, SyncObj *o) { if (o->vc) vc_join(t->vc, *o->vc); }
void hb_release(Thread *t, SyncObj *o)
{
    if (!o->vc) o->vc = new_vc();
    vc_join(*o->vc, t->vc);
    t->vc.c[t->id]++;
}

// ---- run start ----------------------------------------------------------------------------------
static constexpr uintptr_t STACK_BASE = 0x200000000000ULL;
static constexpr size_t STACK_STRIDE = 4u << 20, STACK_SIZE = 512u << 10;

static Thread *new_thread()
{
    if (g_nthr >= MAXT) sim_fail("resource:threads", "the run starts more and more threads");
    Thread &t = g_thr[g_nthr];
    memset(&t, 0, sizeof t);
    t.id = g_nthr++;
    t.used = true;
    t.deadline = FOREVER;
    t.wowner = -1;
    t.vc.c[t.id] = 1;
    t.prio = 1000000 + (int64_t)(g_in.replay ? 0 : g_rs.below(1000000));
    next_mem_target(&t);
    return &t;
}

static void *thread_stack(int id)
{
    void *want = (void *)(STACK_BASE + (size_t)id * STACK_STRIDE);
    void *p = mmap(want, STACK_SIZE, PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != want) sim_fail("sim:stack", "cannot map a stack");
    return p;
}

typedef int (*pthread_create_t)(pthread_t *, pthread_attr_t const *, void *(*)(void *), void *);
static pthread_create_t real_create;
static int (*real_mutex_lock)(pthread_mutex_t *);
static int (*real_mutex_trylock)(pthread_mutex_t *);
static int (*real_mutex_unlock)(pthread_mutex_t *);
static int (*real_cond_signal)(pthread_cond_t *);
static int (*real_cond_broadcast)(pthread_cond_t *);
static int (*real_join)(pthread_t, void **);
static int (*real_detach)(pthread_t);
static int (*real_clock_gettime)(clockid_t, struct timespec *);
static int (*real_nanosleep)(struct timespec const *, struct timespec *);

void *rt_real(char const *name)
{
    void *p = dlsym(RTLD_NEXT, name);
    if (!p) { fprintf(stderr, "sim: no real %s\n", name); _exit(3); }
    return p;
}

__attribute__((constructor(101))) static void init_real_core()
{
    real_create = (pthread_create_t)rt_real("pthread_create");
    real_mutex_lock = (int (*)(pthread_mutex_t *))rt_real("pthread_mutex_lock");
    real_mutex_trylock = (int (*)(pthread_mutex_t *))rt_real("pthread_mutex_trylock");
    real_mutex_unlock = (int (*)(pthread_mutex_t *))rt_real("pthread_mutex_unlock");
    real_cond_signal = (int (*)(pthread_cond_t *))rt_real("pthread_cond_signal");
    real_cond_broadcast = (int (*)(pthread_cond_t *))rt_real("pthread_cond_broadcast");
    real_join = (int (*)(pthread_t, void **))rt_real("pthread_join");
    real_detach = (int (*)(pthread_t))rt_real("pthread_detach");
    real_clock_gettime = (int (*)(clockid_t, struct timespec *))rt_real("clock_gettime");
    real_nanosleep = (int (*)(struct timespec const *, struct timespec *))rt_real("nanosleep");
}

static void *thread_main(void *p)
{
    Thread *t = (Thread *)p;
    futex_wait_real(&t->baton);
    tls_self = t;
    t->started = true;
    t->ret = t->fn(t->arg);
    while (t->ndtors > 0)
    {
        Dtor d = t->dtors[--t->ndtors];
        d.fn(d.obj);
    }
    if (!g_active)
    {
        tls_self = nullptr;
        return t->ret;
    }
    sched_point(2, nullptr);
    trace("thread exit");
    t->done = true;
    SyncObj *o = sync_obj(t);
    hb_release(t, o);
    for (int i = 0; i < g_nthr; ++i)
        if (g_thr[i].used && g_thr[i].wk == W_JOIN && g_thr[i].wobj == (void *)t) wake_thread(g_thr[i], false);
    Thread *n = pick_when_blocked(t);
    tls_self = nullptr;
    switch_to(t, n, false);
    return t->ret;
}

void rt_io_start_run();
void rt_net_start_run();

// Runs fn in a fresh simulated thread 0 and returns when it has returned.
void rt_run(void (*fn)(void))
{
    size_t objsz = sizeof(SyncObj) * OBJ_CAP;
    g_objs = (SyncObj *)mmap(nullptr, objsz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_vcpool = (char *)mmap(nullptr, (size_t)OBJ_CAP * sizeof(VC) * 2, PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    uint64_t s = g_in.seed;
    g_rs.seed(s * 3 + 1);
    g_rf.seed(s * 3 + 2);
    g_rp.seed(s * 3 + 3);
    for (int i = 0; i < SF_MAX; ++i) g_cap[i] = -1;
    if (g_in.replay) build_devtab();
    setup_strategy();
    rt_mem_start_run();
    rt_io_start_run();
    rt_net_start_run();
    rt_sig_start_run();

    Thread *t = new_thread();
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, thread_stack(0), STACK_SIZE);
    t->fn = [](void *p) -> void * { ((void (*)())p)(); return nullptr; };
    t->arg = (void *)fn;
    g_active = 1;
    t->baton = 1;
    pthread_t th;
    int rc = real_create(&th, &a, thread_main, t);
    if (rc) { fprintf(stderr, "sim: thread creation failed %d\n", rc); _exit(3); }
    real_join(th, nullptr);
    finish_common();
    g_res->finished = 1;
}

extern "C" void sim_stop(void)
{
    Thread *t = tls_self;
    if (t) t->ignore++;
    g_active = 0;
    trace("stop");
}

// ---- threads ------------------------------------------------------------------------------------
extern "C" int pthread_create(pthread_t *th, pthread_attr_t const *attr, void *(*fn)(void *), void *arg)
{
    Thread *t = self();
    if (!t) return real_create(th, attr, fn, arg);
    sched_point(3, nullptr);
    if (fault_decide(SF_THREAD_FAIL, 1)) return EAGAIN;
    Thread *n = new_thread();
    n->fn = fn;
    n->arg = arg;
    for (int i = 0; i < MAXT; ++i) n->vc.c[i] = t->vc.c[i];
    n->vc.c[n->id] = 1;
    t->vc.c[t->id]++;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, thread_stack(n->id), STACK_SIZE);
    int rc = real_create(&n->real, &a, thread_main, n);
    if (rc) sim_fail("sim:create", "thread creation failed %d", rc);
    *th = n->real;
    trace("create thread t%d", n->id);
    sched_point(4, nullptr);
    return 0;
}

static Thread *find_thread(pthread_t th)
{
    for (int i = 0; i < g_nthr; ++i)
        if (g_thr[i].used && g_thr[i].real == th) return &g_thr[i];
    return nullptr;
}

extern "C" int pthread_join(pthread_t th, void **ret)
{
    Thread *t = self();
    if (!t) return real_join(th, ret);
    sched_point(5, nullptr);
    Thread *o = find_thread(th);
    if (!o) return ESRCH;
    if (o == t) return EDEADLK;
    while (!o->done) block_on(W_JOIN, o, FOREVER, o->id);
    hb_acquire(t, sync_obj(o));
    if (ret) *ret = o->ret;
    return 0;
}

extern "C" int pthread_detach(pthread_t th)
{
    if (!self()) return real_detach(th);
    if (Thread *o = find_thread(th)) o->detached = true;
    return 0;
}

// thread_local destructors run under the scheduler
extern "C" int __cxa_thread_atexit(void (*fn)(void *), void *obj, void *dso)
{
    Thread *t = self();
    if (t && t->ndtors < 32) { t->dtors[t->ndtors++] = {fn, obj}; return 0; }
    (void)dso;
    return 0;
}

// ---- mutex --------------------------------------------------------------------------------------
static int mkind(pthread_mutex_t *m) { return m->__data.__kind & 3; }

static int lock_common(Thread *t, pthread_mutex_t *m, int64_t deadline, bool tryonly)
{
    SyncObj *o = sync_obj(m);
    if (o->owner == t->id)
    {
        if (mkind(m) == PTHREAD_MUTEX_RECURSIVE_NP) { ++o->count; return 0; }
        if (mkind(m) == PTHREAD_MUTEX_ERRORCHECK_NP) return tryonly ? EBUSY : EDEADLK;
        if (tryonly) return EBUSY;
        if (deadline == FOREVER)
            sim_fail("deadlock:self", "thread %d locks a mutex it already holds", t->id);
    }
    while (o->owner != -1)
    {
        if (tryonly) return EBUSY;
        if (block_on(W_MUTEX, m, deadline) && o->owner != -1) return ETIMEDOUT;
    }
    o->owner = t->id;
    o->count = 1;
    hb_acquire(t, o);
    return 0;
}

static void unlock_common(Thread *t, pthread_mutex_t *m)
{
    SyncObj *o = sync_obj(m);
    if (o->owner == t->id && --o->count > 0) return;
    o->owner = -1;
    o->count = 0;
    hb_release(t, o);
    wake_all(W_MUTEX, m);
}

extern "C" int pthread_mutex_lock(pthread_mutex_t *m)
{
    Thread *t = self();
    if (!t) return (g_active || tls_self) ? 0 : real_mutex_lock(m);
    range_access(m, 1, false, (uintptr_t)__builtin_return_address(0));
    sched_point(10, m);
    int r = lock_common(t, m, FOREVER, false);
    if (g_in.trace > 1) trace("lock m%d", sync_obj(m)->id);
    return r;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t *m)
{
    Thread *t = self();
    if (!t) return (g_active || tls_self) ? 0 : real_mutex_trylock(m);
    sched_point(11, m);
    return lock_common(t, m, FOREVER, true);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m)
{
    Thread *t = self();
    if (!t) return (g_active || tls_self) ? 0 : real_mutex_unlock(m);
    if (g_in.trace > 1) trace("unlock m%d", sync_obj(m)->id);
    unlock_common(t, m);
    sched_point(12, m);
    return 0;
}
extern "C" int pthread_mutex_init(pthread_mutex_t *m, pthread_mutexattr_t const *a)
{
    memset(m, 0, sizeof *m);
    if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; }
    if (g_active) { SyncObj *o = sync_obj(m); o->owner = -1; o->count = 0; }
    return 0;
}
extern "C" int pthread_mutex_destroy(pthread_mutex_t *m)
{
    if (g_active) { SyncObj *o = sync_obj(m); o->owner = -1; o->count = 0; }
    return 0;
}

static int64_t abs_deadline(clockid_t c, struct timespec const *ts)
{
    __int128 v = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec;
    v -= (c == CLOCK_MONOTONIC) ? MONO_BASE : (RT_BASE + g_rt_off);
    if (v > (__int128)4000000000000000000LL) return 4000000000000000000LL;
    if (v < 0) v = 0;
    return (int64_t)v;
}

extern "C" int pthread_mutex_timedlock(pthread_mutex_t *m, struct timespec const *ts)
{
    Thread *t = self();
    if (!t) return 0;
    sched_point(13, m);
    return lock_common(t, m, abs_deadline(CLOCK_REALTIME, ts), false);
}
extern "C" int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, struct timespec const *ts)
{
    Thread *t = self();
    if (!t) return 0;
    sched_point(13, m);
    return lock_common(t, m, abs_deadline(c, ts), false);
}

// ---- condition variables ------------------------------------------------------------------------
static int cond_wait_common(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline)
{
    Thread *t = self();
    sched_point(20, c);
    bool spurious = fault_decide(SF_SPURIOUS, 1) != 0;
    unlock_common(t, m);
    int r = 0;
    if (spurious)
    {
        sched_point(21, c);
    }
    else if (deadline <= g_now)
    {
        r = ETIMEDOUT;
        sched_point(22, c);
    }
    else if (block_on(W_COND, c, deadline))
    {
        r = ETIMEDOUT;
    }
    if (g_in.trace > 1) trace("cond %d wakes: %s", sync_obj(c)->id, r ? "timeout" : "signal");
    sched_point(23, c);
    lock_common(t, m, FOREVER, false);
    return r;
}
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if (!self()) return 0;
    return cond_wait_common(c, m, FOREVER);
}
extern "C" int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, struct timespec const *ts)
{
    if (!self()) return ETIMEDOUT;
    return cond_wait_common(c, m, abs_deadline(CLOCK_REALTIME, ts));
}
extern "C" int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, struct timespec const *ts)
{
    if (!self()) return ETIMEDOUT;
    return cond_wait_common(c, m, abs_deadline(k, ts));
}
extern "C" int pthread_cond_signal(pthread_cond_t *c)
{
    if (!self()) return (g_active || tls_self) ? 0 : real_cond_signal(c);
    range_access(c, 1, false, (uintptr_t)__builtin_return_address(0));
    sched_point(24, c);
    int n = wake_n(W_COND, c, 1);
    if (g_in.trace > 1) trace("cond %d signal -> %d", sync_obj(c)->id, n);
    sched_point(25, c);
    return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t *c)
{
    if (!self()) return (g_active || tls_self) ? 0 : real_cond_broadcast(c);
    sched_point(26, c);
    wake_all(W_COND, c);
    sched_point(27, c);
    return 0;
}
extern "C" int pthread_cond_init(pthread_cond_t *c, pthread_condattr_t const *)
{
    memset(c, 0, sizeof *c);
    return 0;
}
extern "C" int pthread_cond_destroy(pthread_cond_t *) { return 0; }

// ---- rwlock (writer: owner; readers: count) -------------------------------------------------------
static int rw_lock(pthread_rwlock_t *l, bool wr, bool tryonly, int64_t deadline)
{
    Thread *t = self();
    sched_point(30, l);
    SyncObj *o = sync_obj(l);
    if (o->owner == t->id)
    {
        if (tryonly) return EBUSY;
        if (deadline == FOREVER) sim_fail("deadlock:self", "thread %d locks a shared mutex it already owns", t->id);
    }
    while (o->owner != -1 || (wr && o->count > 0))
    {
        if (tryonly) return EBUSY;
        if (block_on(W_RW, l, deadline) && (o->owner != -1 || (wr && o->count > 0))) return ETIMEDOUT;
    }
    if (wr)
    {
        o->owner = t->id;
        hb_acquire(t, o);
        if (o->rvc) for (int i = 0; i < g_nthr; ++i) if (o->rvc->c[i] > t->vc.c[i]) t->vc.c[i] = o->rvc->c[i];
    }
    else
    {
        ++o->count;
        hb_acquire(t, o);
    }
    return 0;
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return self() ? rw_lock(l, false, false, FOREVER) : 0; }
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return self() ? rw_lock(l, true, false, FOREVER) : 0; }
extern "C" int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return self() ? rw_lock(l, false, true, FOREVER) : 0; }
extern "C" int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return self() ? rw_lock(l, true, true, FOREVER) : 0; }
extern "C" int pthread_rwlock_timedrdlock(pthread_rwlock_t *l, struct timespec const *ts)
{ return self() ? rw_lock(l, false, false, abs_deadline(CLOCK_REALTIME, ts)) : 0; }
extern "C" int pthread_rwlock_timedwrlock(pthread_rwlock_t *l, struct timespec const *ts)
{ return self() ? rw_lock(l, true, false, abs_deadline(CLOCK_REALTIME, ts)) : 0; }
extern "C" int pthread_rwlock_clockrdlock(pthread_rwlock_t *l, clockid_t c, struct timespec const *ts)
{ return self() ? rw_lock(l, false, false, abs_deadline(c, ts)) : 0; }
extern "C" int pthread_rwlock_clockwrlock(pthread_rwlock_t *l, clockid_t c, struct timespec const *ts)
{ return self() ? rw_lock(l, true, false, abs_deadline(c, ts)) : 0; }
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t *l)
{
    Thread *t = self();
    if (!t) return 0;
    SyncObj *o = sync_obj(l);
    if (o->owner == t->id)
    {
        o->owner = -1;
        hb_release(t, o);
    }
    else
    {
        if (o->count > 0) --o->count;
        if (!o->rvc) o->rvc = new_vc();
        for (int i = 0; i < g_nthr; ++i) if (t->vc.c[i] > o->rvc->c[i]) o->rvc->c[i] = t->vc.c[i];
        t->vc.c[t->id]++;
    }
    wake_all(W_RW, l);
    sched_point(31, l);
    return 0;
}
extern "C" int pthread_rwlock_init(pthread_rwlock_t *l, pthread_rwlockattr_t const *) { memset(l, 0, sizeof *l); return 0; }
extern "C" int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }

// ---- semaphores ---------------------------------------------------------------------------------
extern "C" int sem_init(sem_t *s, int, unsigned v) { memset(s, 0, sizeof *s); *(unsigned *)s = v; return 0; }
extern "C" int sem_destroy(sem_t *) { return 0; }
static int sem_common(sem_t *s, int64_t deadline, bool tryonly)
{
    Thread *t = self();
    unsigned *c = (unsigned *)s;
    if (t) sched_point(35, s);
    while (*c == 0)
    {
        if (tryonly) { errno = EAGAIN; return -1; }
        if (block_on(W_SEM, s, deadline) && *c == 0) { errno = ETIMEDOUT; return -1; }
    }
    --*c;
    if (t) hb_acquire(t, sync_obj(s));
    return 0;
}
extern "C" int sem_wait(sem_t *s) { return sem_common(s, FOREVER, false); }
extern "C" int sem_trywait(sem_t *s) { return sem_common(s, FOREVER, true); }
extern "C" int sem_timedwait(sem_t *s, struct timespec const *ts) { return sem_common(s, abs_deadline(CLOCK_REALTIME, ts), false); }
extern "C" int sem_clockwait(sem_t *s, clockid_t k, struct timespec const *ts) { return sem_common(s, abs_deadline(k, ts), false); }
extern "C" int sem_post(sem_t *s)
{
    ++*(unsigned *)s;
    if (Thread *t = self())
    {
        hb_release(t, sync_obj(s));
        wake_n(W_SEM, s, 1);
        sched_point(36, s);
    }
    return 0;
}

// ---- once / static guards -----------------------------------------------------------------------
extern "C" int pthread_once(pthread_once_t *ctl, void (*fn)(void))
{
    Thread *t = self();
    if (!t)
    {
        if (*ctl != 2) { *ctl = 2; fn(); }
        return 0;
    }
    sched_point(40, ctl);
    SyncObj *o = sync_obj(ctl);
    for (;;)
    {
        if (*ctl == 2) { hb_acquire(t, o); return 0; }
        if (o->state == 0) break;
        block_on(W_ONCE, ctl, FOREVER, o->owner);
    }
    o->state = 1;
    o->owner = t->id;
    struct Undo
    {
        SyncObj *o; void *ctl; bool ok = false;
        ~Undo() { o->state = 0; o->owner = -1; wake_all(W_ONCE, ctl); (void)ok; }
    } undo {o, ctl};
    fn();
    *ctl = 2;
    hb_release(t, o);
    return 0;
}
extern "C" int __cxa_guard_acquire(uint64_t *g)
{
    Thread *t = self();
    if (!t) return *(char *)g ? 0 : 1;
    sched_point(41, g);
    SyncObj *o = sync_obj((char *)g + 4);
    for (;;)
    {
        if (*(char *)g) { hb_acquire(t, o); return 0; }
        if (o->state == 0) break;
        block_on(W_ONCE, o, FOREVER, o->owner);
    }
    o->state = 1;
    o->owner = t->id;
    return 1;
}
extern "C" void __cxa_guard_release(uint64_t *g)
{
    *(char *)g = 1;
    Thread *t = self();
    if (!t) return;
    SyncObj *o = sync_obj((char *)g + 4);
    o->state = 0;
    o->owner = -1;
    hb_release(t, o);
    // the fast path of later callers is an (instrumented) atomic load of the first guard byte
    hb_release(t, sync_obj(g));
    wake_all(W_ONCE, o);
    sched_point(42, g);
}
extern "C" void __cxa_guard_abort(uint64_t *g)
{
    Thread *t = self();
    if (!t) return;
    SyncObj *o = sync_obj((char *)g + 4);
    o->state = 0;
    o->owner = -1;
    wake_all(W_ONCE, o);
}

// ---- futex --------------------------------------------------------------------------------------
extern "C" long syscall(long nr, ...) noexcept
{
    va_list ap;
    va_start(ap, nr);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
         e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    Thread *t = (nr == SYS_futex) ? self() : nullptr;
    // The runtime's own futex calls use the thread batons, which lie inside g_thr.
    if (t && !((uintptr_t)a >= (uintptr_t)g_thr && (uintptr_t)a < (uintptr_t)(g_thr + MAXT)))
    {
        int op = (int)b & 0x7f;
        int rt = (int)b & FUTEX_CLOCK_REALTIME;
        void *addr = (void *)a;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            sched_point(50, addr);
            if (*(int volatile *)addr != (int)c) { hb_acquire(t, sync_obj(addr)); errno = EAGAIN; return -1; }
            int64_t dl = FOREVER;
            if (d)
            {
                struct timespec const *ts = (struct timespec const *)d;
                if (op == FUTEX_WAIT) dl = g_now + ts->tv_sec * 1000000000LL + ts->tv_nsec;
                else dl = abs_deadline(rt ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
            }
            if (fault_decide(SF_SPURIOUS, 1)) { sched_point(51, addr); return 0; }
            bool to = block_on(W_FUTEX, addr, dl);
            hb_acquire(t, sync_obj(addr));
            if (to) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
        {
            hb_release(t, sync_obj(addr));
            sched_point(52, addr);
            int n = wake_n(W_FUTEX, addr, (int)c);
            sched_point(53, addr);
            return n;
        }
    }
    long ret;
    register long r10 asm("r10") = d;
    register long r8 asm("r8") = e;
    register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(ret) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) { errno = (int)-ret; return -1; }
    return ret;
}

// ---- time ---------------------------------------------------------------------------------------
extern "C" int clock_gettime(clockid_t c, struct timespec *ts) noexcept
{
    if (!g_res || (!g_active && !tls_self)) return real_clock_gettime ? real_clock_gettime(c, ts) : -1;
    int64_t v = g_now + ((c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_BOOTTIME ||
                          c == CLOCK_MONOTONIC_COARSE || c == CLOCK_PROCESS_CPUTIME_ID)
                             ? MONO_BASE
                             : RT_BASE + g_rt_off);
    ts->tv_sec = v / 1000000000;
    ts->tv_nsec = v % 1000000000;
    if (Thread *t = self()) { g_now += 50; (void)t; }
    return 0;
}
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept
{
    struct timespec ts = {0, 0};
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
extern "C" time_t time(time_t *p) noexcept
{
    struct timespec ts = {0, 0};
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p) *p = ts.tv_sec;
    return ts.tv_sec;
}
extern "C" clock_t clock(void) noexcept { return (clock_t)(g_now / 1000); }

static int sleep_until(int64_t dl)
{
    sched_point(60, nullptr);
    block_on(W_SLEEP, nullptr, dl);
    return 0;
}
extern "C" int nanosleep(struct timespec const *ts, struct timespec *rem)
{
    if (!self()) return real_nanosleep(ts, rem);
    return sleep_until(g_now + ts->tv_sec * 1000000000LL + ts->tv_nsec);
}
extern "C" int clock_nanosleep(clockid_t c, int flags, struct timespec const *ts, struct timespec *rem)
{
    if (!self()) return real_nanosleep(ts, rem);
    if (flags & TIMER_ABSTIME) return sleep_until(abs_deadline(c, ts));
    return sleep_until(g_now + ts->tv_sec * 1000000000LL + ts->tv_nsec);
}
extern "C" int usleep(useconds_t us)
{
    struct timespec ts {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
extern "C" unsigned sleep(unsigned s)
{
    struct timespec ts {(time_t)s, 0};
    nanosleep(&ts, nullptr);
    return 0;
}
extern "C" int sched_yield(void) noexcept
{
    Thread *t = self();
    if (!t) return 0;
    sched_point(61, nullptr);
    // a yield lets others run: hand over by default
    if (!t->ignore && !t->nopreempt) { fire_timers(); yield_running(t, cyclic_next(t)); g_now += 1000; }
    return 0;
}

// ---- atomics (the memory access itself is race free; ordering edges are recorded) ------------------
static inline void at_pre(void const *a, size_t n, uintptr_t pc, bool wr);
void atomic_access(void const *p, size_t n, bool write, uintptr_t pc);
static inline void at_pre(void const *a, size_t n, uintptr_t pc, bool wr)
{
    Thread *t = self();
    if (!t || t->ignore) return;
    sched_point(70, const_cast<void *>(a));
    atomic_access(a, n, wr, pc);
}
static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline void at_acq(void const *a, int mo)
{
    Thread *t = self();
    if (t && acq(mo)) hb_acquire(t, sync_obj(a));
}
// a 64 bit load may read two adjacent 32 bit atomics at once (the counts of a shared pointer)
static inline void at_acq_high(void const *a, int mo)
{
    Thread *t = self();
    if (!t || !acq(mo)) return;
    if (SyncObj *o = sync_find((char const *)a + 4)) hb_acquire(t, o);
}
static inline void at_rel(void const *a, int mo)
{
    Thread *t = self();
    if (t && rel(mo)) hb_release(t, sync_obj(a));
}
#define PC ((uintptr_t)__builtin_return_address(0))
#define ATOMICS(N, T)                                                                              \
    extern "C" T __tsan_atomic##N##_load(T const volatile *a, int mo)                              \
    { at_pre((void const *)a, sizeof(T), PC, false); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); at_acq((void const *)a, mo); if (sizeof(T) == 8) at_acq_high((void const *)a, mo); return v; } \
    extern "C" void __tsan_atomic##N##_store(T volatile *a, T v, int mo)                           \
    { at_pre((void const *)a, sizeof(T), PC, true); at_rel((void const *)a, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    extern "C" T __tsan_atomic##N##_exchange(T volatile *a, T v, int mo)                           \
    { at_pre((void const *)a, sizeof(T), PC, true); at_acq((void const *)a, mo); at_rel((void const *)a, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    extern "C" T __tsan_atomic##N##_fetch_add(T volatile *a, T v, int mo)                          \
    { at_pre((void const *)a, sizeof(T), PC, true); at_acq((void const *)a, mo); at_rel((void const *)a, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    extern "C" T __tsan_atomic##N##_fetch_sub(T volatile *a, T v, int mo)                          \
    { at_pre((void const *)a, sizeof(T), PC, true); at_acq((void const *)a, mo); at_rel((void const *)a, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    extern "C" T __tsan_atomic##N##_fetch_and(T volatile *a, T v, int mo)                          \
    { at_pre((void const *)a, sizeof(T), PC, true); at_acq((void const *)a, mo); at_rel((void const *)a, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    extern "C" T __tsan_atomic##N##_fetch_or(T volatile *a, T v, int mo)                           \
    { at_pre((void const *)a, sizeof(T), PC, true); at_acq((void const *)a, mo); at_rel((void const *)a, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    extern "C" T __tsan_atomic##N##_fetch_xor(T volatile *a, T v, int mo)                          \
    { at_pre((void const *)a, sizeof(T), PC, true); at_acq((void const *)a, mo); at_rel((void const *)a, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    extern "C" T __tsan_atomic##N##_fetch_nand(T volatile *a, T v, int mo)                         \
    { at_pre((void const *)a, sizeof(T), PC, true); at_acq((void const *)a, mo); at_rel((void const *)a, mo); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    extern "C" int __tsan_atomic##N##_compare_exchange_strong(T volatile *a, T *c, T v, int mo, int) \
    { at_pre((void const *)a, sizeof(T), PC, true); at_acq((void const *)a, mo); bool r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (r) at_rel((void const *)a, mo); return r; } \
    extern "C" int __tsan_atomic##N##_compare_exchange_weak(T volatile *a, T *c, T v, int mo, int) \
    { at_pre((void const *)a, sizeof(T), PC, true); at_acq((void const *)a, mo); bool r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (r) at_rel((void const *)a, mo); return r; } \
    extern "C" T __tsan_atomic##N##_compare_exchange_val(T volatile *a, T c, T v, int mo, int)     \
    { at_pre((void const *)a, sizeof(T), PC, true); at_acq((void const *)a, mo); T cc = c; bool r = __atomic_compare_exchange_n(a, &cc, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (r) at_rel((void const *)a, mo); return cc; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
static char g_fence;
extern "C" void __tsan_atomic_thread_fence(int mo) { if (self()) { at_acq(&g_fence, mo); at_rel(&g_fence, mo); } }
extern "C" void __tsan_atomic_signal_fence(int) {}

// ---- crash capture ------------------------------------------------------------------------------
static char g_altstack[64 << 10];
extern char **environ;

static void crash_handler(int sig, siginfo_t *si, void *)
{
    if (!g_res || g_res->finished) _exit(4);
    g_active = 0;
    char cls[64];
    snprintf(cls, sizeof cls, "crash:%s",
        sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : "SIGILL");
    if (g_res->cls[0] == 0) sim_fail(cls, "signal %d at address %p", sig, si->si_addr);
    _exit(4);
}

char const *rt_terminate_message();

extern "C" void abort(void) noexcept
{
    if (g_res && !g_res->finished && tls_self)
    {
        g_active = 0;
        sim_fail("crash:abort", "abort: %s", rt_terminate_message());
    }
    signal(SIGABRT, SIG_DFL);
    syscall(SYS_tgkill, getpid(), (int)syscall(SYS_gettid), SIGABRT);
    _exit(134);
}

void rt_install_crash_handlers()
{
    stack_t ss {};
    ss.ss_sp = g_altstack;
    ss.ss_size = sizeof g_altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa {};
    sa.sa_sigaction = crash_handler;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT};
    for (int s : sigs) sigaction(s, &sa, nullptr);
    signal(SIGPIPE, SIG_IGN);
}
