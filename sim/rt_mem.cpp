// Allocator without reuse (use-after-free and overflow detection), happens-before race detection,
// and the memory access callbacks of the instrumented code (possible preemption points).
#include "rt_int.h"
#include <errno.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <sys/syscall.h>

static constexpr uintptr_t ARENA = 0x100000000000ULL;
static constexpr size_t ARENA_SIZE = (1ULL << 30) + (192ULL << 20);
static constexpr uintptr_t RUN_OFFSET = 1ULL << 30;    // allocations of a run start here
static constexpr uintptr_t ASHADOW = 0x110000000000ULL; // 1 byte per 8
static constexpr uintptr_t RSHADOW = 0x120000000000ULL; // 64 bytes per 8

struct Cell { uint64_t s[4]; uint32_t pc[4]; uint32_t fn[4]; };
static_assert(sizeof(Cell) == 64);

struct Chunk
{
    uint64_t magic;
    size_t size;
    uint32_t alloc_pc[4];
    uint32_t free_pc[4];
    int alloc_tid, free_tid;
    uint64_t pad;
};
static_assert(sizeof(Chunk) == 64);
static constexpr uint64_t MAGIC_LIVE = 0x51a110c5a11eL, MAGIC_FREE = 0xf4eedf4eedL;

static uintptr_t g_pos;
static int g_spin;
static int g_mapped;
static int g_checking;   // addressability is checked
static uint64_t g_accesses;
static uint64_t g_access_budget = 200000000;
uint64_t rt_accesses() { return g_accesses; }

int g_allow_races();
int rt_mem_tick_pct();
int rt_pct_mem();

enum : uint8_t { A_OK = 0, A_FREED = 0xfd, A_RED = 0xfa, A_NONE = 0xff };

static void map_arena()
{
    if (g_mapped) return;
    g_mapped = 1;
    auto m = [](uintptr_t a, size_t n) {
        void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE,
            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void *)a) { char const e[] = "sim: cannot map the arena\n"; (void)!write(2, e, sizeof e - 1); _exit(3); }
    };
    m(ARENA, ARENA_SIZE);
    m(ASHADOW, ARENA_SIZE / 8);
    m(RSHADOW, ARENA_SIZE * 8);
    g_pos = ARENA + 4096;
}

static inline bool in_arena(uintptr_t a) { return a - ARENA < ARENA_SIZE; }
static inline uint8_t *ash(uintptr_t a) { return (uint8_t *)(ASHADOW + ((a - ARENA) >> 3)); }

void rt_mem_start_run()
{
    map_arena();
    if (g_pos > ARENA + RUN_OFFSET) { fprintf(stderr, "sim: arena prefix exhausted\n"); _exit(3); }
    g_pos = ARENA + RUN_OFFSET;
    g_checking = 1;
}

static void lock() { while (__atomic_exchange_n(&g_spin, 1, __ATOMIC_ACQUIRE)) syscall(SYS_sched_yield); }
static void unlock() { __atomic_store_n(&g_spin, 0, __ATOMIC_RELEASE); }

static void grab_pcs(uint32_t *pcs, uintptr_t pc)
{
    pcs[0] = (uint32_t)pc;
    pcs[1] = pcs[2] = pcs[3] = 0;
    Thread *t = tls_self;
    if (!g_active || !t) return;
    for (int i = 1; i < 4; ++i)
    {
        int d = t->depth - i;
        if (d >= 0 && d < 256) pcs[i] = t->stk[d];
    }
}

// Freed memory is not handed out again, so that any later use of it is seen. Only when a long run has
// used up most of the arena, large blocks are taken again, the one freed first first; a run which
// still exhausts the arena holds on to what it allocates.
static constexpr size_t REUSE_AFTER = 128ULL << 20, REUSE_MIN = 256, REUSE_CLASSES = 64, REUSE_RING = 1 << 14;
static struct { size_t size; uint32_t head, count; void *at[REUSE_RING]; } g_freed[REUSE_CLASSES];

static void remember_freed(void *p, size_t n)
{
    lock();
    for (auto &c : g_freed)
    {
        if (c.size && c.size != n) continue;
        c.size = n;
        if (c.count < REUSE_RING) c.at[(c.head + c.count++) % REUSE_RING] = p;
        break;
    }
    unlock();
}
static void *take_freed(size_t n)
{
    void *p = nullptr;
    lock();
    for (auto &c : g_freed)
    {
        if (!c.size) break;
        if (c.size != n) continue;
        if (c.count) { p = c.at[c.head]; c.head = (c.head + 1) % REUSE_RING; --c.count; }
        break;
    }
    unlock();
    return p;
}
static void forget_accesses(uintptr_t p, size_t n);

static void *alloc(size_t n, size_t align, uintptr_t pc)
{
    map_arena();
    if (align < 16) align = 16;
    if (n > (1ULL << 30)) { errno = ENOMEM; return nullptr; }
    if (g_checking && n >= REUSE_MIN && align == 16 && g_pos > ARENA + RUN_OFFSET + REUSE_AFTER)
    {
        if (void *q = take_freed(n))
        {
            Chunk *c = (Chunk *)q - 1;
            c->magic = MAGIC_LIVE;
            c->alloc_tid = tls_self ? tls_self->id : -1;
            grab_pcs(c->alloc_pc, pc);
            __builtin_memset(q, 0, n);
            __builtin_memset(ash((uintptr_t)q), A_OK, (n + 7) >> 3);
            if (n & 7) *ash((uintptr_t)q + (n & ~(size_t)7)) = (uint8_t)(n & 7);
            forget_accesses((uintptr_t)q, n);
            return q;
        }
    }
    lock();
    uintptr_t p = g_pos + sizeof(Chunk) + 16;
    p = (p + align - 1) & ~(uintptr_t)(align - 1);
    uintptr_t end = p + ((n + 7) & ~(size_t)7);
    if (end + 4096 > ARENA + ARENA_SIZE || (!g_checking && end + 4096 > ARENA + RUN_OFFSET))
    {
        unlock();
        if (g_active) sim_fail("resource:memory", "the run allocates more and more memory");
        errno = ENOMEM;
        return nullptr;
    }
    uintptr_t start = g_pos;
    g_pos = (end + 16 + 15) & ~(uintptr_t)15;
    unlock();
    Chunk *c = (Chunk *)(p - sizeof(Chunk));
    c->magic = MAGIC_LIVE;
    c->size = n;
    c->alloc_tid = tls_self ? tls_self->id : -1;
    grab_pcs(c->alloc_pc, pc);
    __builtin_memset(ash(start), A_RED, (p - start) >> 3);
    __builtin_memset(ash(p), A_OK, (end - p) >> 3);
    if (n & 7) *ash(end - 8) = (uint8_t)(n & 7);
    if (n == 0 ) *ash(p) = A_RED;
    __builtin_memset(ash(end), A_RED, (g_pos - end) >> 3);
    return (void *)p;
}

static size_t chunk_size(void *p) { return ((Chunk *)p - 1)->size; }

static void bad_free(void *p, char const *what)
{
    if (!g_active || !tls_self) return;
    Chunk *c = (Chunk *)p - 1;
    for (int i = 0; i < 4; ++i) g_res->stk2[i] = (what[0] == 'd') ? c->free_pc[i] : 0;
    g_res->nstk2 = 4;
    sim_fail("memory:bad-free", "%s of %p", what, p);
}

static void dealloc(void *p, uintptr_t pc)
{
    if (!p || !in_arena((uintptr_t)p)) return;
    Chunk *c = (Chunk *)p - 1;
    if (c->magic == MAGIC_FREE) { bad_free(p, "double free"); return; }
    if (c->magic != MAGIC_LIVE) { bad_free(p, "invalid free"); return; }
    Thread *t = self();
    if (t && !t->ignore && c->size && c->size <= 65536) range_access(p, c->size, true, pc);
    c->magic = MAGIC_FREE;
    c->free_tid = tls_self ? tls_self->id : -1;
    grab_pcs(c->free_pc, pc);
    if (!g_checking) return;
    __builtin_memset(ash((uintptr_t)p), A_FREED, (c->size + 7) >> 3);
    if (c->size >= REUSE_MIN && (uintptr_t)p > ARENA + RUN_OFFSET) remember_freed(p, c->size);
}

#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void *malloc(size_t n) { return alloc(n, 16, PC); }
void free(void *p) { dealloc(p, PC); }
void *calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    return alloc(n, 16, PC); // fresh arena memory is zero
}
void *realloc(void *p, size_t n)
{
    if (!p) return alloc(n, 16, PC);
    if (n == 0) { dealloc(p, PC); return nullptr; }
    size_t o = chunk_size(p);
    void *q = alloc(n, 16, PC);
    if (!q) return nullptr;
    size_t k = o < n ? o : n;
    char *d = (char *)q; char const *s = (char const *)p;
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(k) : : "memory");
    dealloc(p, PC);
    return q;
}
void *memalign(size_t a, size_t n) { return alloc(n, a, PC); }
void *aligned_alloc(size_t a, size_t n) { return alloc(n, a, PC); }
int posix_memalign(void **out, size_t a, size_t n)
{
    void *p = alloc(n, a, PC);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
void *valloc(size_t n) { return alloc(n, 4096, PC); }
size_t malloc_usable_size(void *p) { return p ? chunk_size(p) : 0; }
}
// operator new / delete: keep the caller's pc
static void *op_new(size_t n, size_t al, uintptr_t pc);
void *operator new(size_t n) { return op_new(n, 16, PC); }
void *operator new[](size_t n) { return op_new(n, 16, PC); }
namespace std { struct nothrow_t; enum class align_val_t : size_t; }
void *operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a, PC); }
void *operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a, PC); }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return alloc(n, 16, PC); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return alloc(n, 16, PC); }
void operator delete(void *p) noexcept { dealloc(p, PC); }
void operator delete[](void *p) noexcept { dealloc(p, PC); }
void operator delete(void *p, size_t) noexcept { dealloc(p, PC); }
void operator delete[](void *p, size_t) noexcept { dealloc(p, PC); }
void operator delete(void *p, std::align_val_t) noexcept { dealloc(p, PC); }
void operator delete[](void *p, std::align_val_t) noexcept { dealloc(p, PC); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { dealloc(p, PC); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { dealloc(p, PC); }
void operator delete(void *p, std::nothrow_t const &) noexcept { dealloc(p, PC); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { dealloc(p, PC); }
void rt_throw_bad_alloc();
static void *op_new(size_t n, size_t al, uintptr_t pc)
{
    void *p = alloc(n, al, pc);
    if (!p) rt_throw_bad_alloc();
    return p;
}

// ---- race shadow --------------------------------------------------------------------------------
// other memory (globals, stacks): two-level table of shadow pages
static constexpr size_t HT = 1 << 14;
static struct { uintptr_t page; Cell *cells; } g_pages[HT];
static char *g_cellpool;
static size_t g_cellpos, g_cellcap;
static uintptr_t g_lastpage;
static Cell *g_lastcells;

static Cell *page_cells(uintptr_t page)
{
    if (page == g_lastpage) return g_lastcells;
    uint64_t h = (page * 0x9e3779b97f4a7c15ULL) >> 50;
    for (;; ++h)
    {
        auto &e = g_pages[h & (HT - 1)];
        if (e.page == page) { g_lastpage = page; return g_lastcells = e.cells; }
        if (!e.page)
        {
            if (!g_cellpool)
            {
                g_cellcap = 1ULL << 30;
                g_cellpool = (char *)mmap(nullptr, g_cellcap, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            }
            if (g_cellpos + 512 * sizeof(Cell) > g_cellcap) sim_fail("resource:memory", "the run uses more and more memory");
            e.page = page;
            e.cells = (Cell *)(g_cellpool + g_cellpos);
            g_cellpos += 512 * sizeof(Cell);
            g_lastpage = page;
            return g_lastcells = e.cells;
        }
    }
}

static inline Cell *cell_of(uintptr_t a)
{
    if (in_arena(a)) return (Cell *)(RSHADOW + ((a - ARENA) >> 3) * sizeof(Cell));
    return page_cells(a >> 12) + ((a & 4095) >> 3);
}

static void forget_accesses(uintptr_t p, size_t n) { __builtin_memset(cell_of(p), 0, ((n + 7) >> 3) * sizeof(Cell)); }

static inline uint64_t mk(int tid, uint32_t clk, uint8_t mask, bool w, bool at)
{
    return ((uint64_t)clk << 32) | ((uint64_t)mask << 16) | ((uint64_t)(tid + 1) << 8) | (w ? 1 : 0) | (at ? 2 : 0);
}

static void report_race(Thread *t, Cell *c, int i, uintptr_t a, bool w, bool at, uintptr_t pc)
{
    if (g_allow_races()) return;
    uint64_t s = c->s[i];
    int otid = (int)((s >> 8) & 0xff) - 1;
    g_res->racepc[0] = (uint32_t)pc;
    g_res->racepc[1] = t->depth > 0 ? t->stk[(t->depth - 1) & 255] : 0;
    g_res->racepc[2] = c->pc[i];
    g_res->racepc[3] = c->fn[i];
    g_res->nstk2 = 2;
    g_res->stk2[0] = c->pc[i];
    g_res->stk2[1] = c->fn[i];
    int n = 0;
    g_res->stk[n++] = (uint32_t)pc;
    for (int d = (t->depth < 256 ? t->depth : 256) - 1; d >= 0 && n < 64; --d) g_res->stk[n++] = t->stk[d];
    g_res->nstk = n;
    uint32_t p = (uint32_t)pc, q = c->pc[i];
    char cls[96];
    snprintf(cls, sizeof cls, "race:%x:%x", p < q ? p : q, p < q ? q : p);
    sim_fail(cls, "data race on %p: %s%s by thread %d, earlier %s%s by thread %d", (void *)a, at ? "atomic " : "",
        w ? "write" : "read", t->id, (s & 2) ? "atomic " : "", (s & 1) ? "write" : "read", otid);
}

static inline void race_check(Thread *t, uintptr_t a, size_t n, bool w, bool at, uintptr_t pc)
{
    // a .. a+n within one 8-byte cell
    Cell *c = cell_of(a);
    uint8_t mask = (uint8_t)(((1u << n) - 1) << (a & 7));
    uint64_t cur = mk(t->id, t->vc.c[t->id], mask, w, at);
    int slot = -1, empty = -1;
    for (int i = 0; i < 4; ++i)
    {
        uint64_t s = c->s[i];
        if (s == cur) return;
        if (!s) { if (empty < 0) empty = i; continue; }
        int otid = (int)((s >> 8) & 0xff) - 1;
        uint8_t om = (uint8_t)(s >> 16);
        bool ow = s & 1, oat = s & 2;
        if (otid == t->id)
        {
            // replace own entries that are not stronger
            if ((om & mask) == om && (w || !ow) && (!at || oat) && slot < 0) slot = i;
            continue;
        }
        if (!(om & mask)) continue;
        if (!(w || ow)) continue;
        if (at && oat) continue;
        if ((uint32_t)(s >> 32) > t->vc.c[otid]) report_race(t, c, i, a, w, at, pc);
    }
    if (slot < 0) slot = empty;
    if (slot < 0)
    {
        // evict an entry that happens before the current access if there is one
        for (int i = 0; i < 4 && slot < 0; ++i)
        {
            uint64_t s = c->s[i];
            int otid = (int)((s >> 8) & 0xff) - 1;
            if ((uint32_t)(s >> 32) <= t->vc.c[otid] && (w || !(s & 1))) slot = i;
        }
        if (slot < 0) slot = (int)(g_accesses & 3);
    }
    c->s[slot] = cur;
    c->pc[slot] = (uint32_t)pc;
    c->fn[slot] = t->depth > 0 ? t->stk[(t->depth - 1) & 255] : 0;
}

static void report_memory(Thread *t, uintptr_t a, size_t n, bool w, uintptr_t pc)
{
    uint8_t s = *ash(a);
    uintptr_t q = a & ~(uintptr_t)15;
    Chunk *c = nullptr;
    for (int i = 0; i < 1 << 16 && q > ARENA + 128; ++i, q -= 16)
    {
        uint64_t m = ((Chunk *)q)->magic;
        if (m == MAGIC_LIVE || m == MAGIC_FREE) { c = (Chunk *)q; break; }
    }
    int k = 0;
    g_res->stk[k++] = (uint32_t)pc;
    for (int d = (t->depth < 256 ? t->depth : 256) - 1; d >= 0 && k < 64; --d) g_res->stk[k++] = t->stk[d];
    g_res->nstk = k;
    char const *what = (c && c->magic == MAGIC_FREE) ? "use-after-free" : "overflow";
    if (c)
    {
        bool fr = c->magic == MAGIC_FREE;
        for (int i = 0; i < 4; ++i) g_res->stk2[i] = fr ? c->free_pc[i] : c->alloc_pc[i];
        g_res->nstk2 = 4;
    }
    char cls[96];
    snprintf(cls, sizeof cls, "memory:%s:%x", what, (uint32_t)pc);
    sim_fail(cls, "%s: %s of %zu bytes at %p (state %02x), chunk of %zu bytes at offset %ld, %s by thread %d", what,
        w ? "write" : "read", n, (void *)a, s, c ? c->size : 0, c ? (long)(a - (uintptr_t)(c + 1)) : 0L,
        c && c->magic == MAGIC_FREE ? "freed" : "allocated", c ? (c->magic == MAGIC_FREE ? c->free_tid : c->alloc_tid) : -1);
}

static inline void addr_check(Thread *t, uintptr_t a, size_t n, bool w, uintptr_t pc)
{
    // within one cell
    uint8_t s = *ash(a);
    if (__builtin_expect(s != 0, 0))
    {
        if (s < 8 && (a & 7) + n <= s) return;
        report_memory(t, a, n, w, pc);
    }
}

static inline void one(Thread *t, uintptr_t a, size_t n, bool w, bool at, uintptr_t pc)
{
    if (in_arena(a)) addr_check(t, a, n, w, pc);
    race_check(t, a, n, w, at, pc);
}

static void spread(Thread *t, uintptr_t a, size_t n, bool w, bool at, uintptr_t pc)
{
    while (n)
    {
        size_t k = 8 - (a & 7);
        if (k > n) k = n;
        one(t, a, k, w, at, pc);
        a += k;
        n -= k;
    }
}

static inline void access(uintptr_t a, size_t n, bool w, uintptr_t pc)
{
    Thread *t = self();
    if (!t || t->ignore) return;
    ++t->memcount;
    if (__builtin_expect(++g_accesses > g_access_budget, 0)) sim_fail("hang:accesses", "memory access budget exceeded");
    if (__builtin_expect(t->memcount >= t->next_mem, 0)) mem_preempt(t);
    else if (rt_pct_mem() && rt_mem_tick_pct()) mem_preempt(t);
    if (a < 4096) sim_fail("crash:null", "access to address %p", (void *)a);
    if (((a & 7) + n) <= 8) one(t, a, n, w, false, pc);
    else spread(t, a, n, w, false, pc);
}

void range_access(void const *p, size_t n, bool w, uintptr_t pc)
{
    Thread *t = self();
    if (!t || t->ignore || n == 0) return;
    g_accesses += 1 + n / 64;
    if (g_accesses > g_access_budget) sim_fail("hang:accesses", "memory access budget exceeded");
    ++t->memcount;
    if (t->memcount >= t->next_mem) mem_preempt(t);
    spread(t, (uintptr_t)p, n, w, false, pc);
}

void atomic_access(void const *p, size_t n, bool w, uintptr_t pc)
{
    Thread *t = tls_self;
    ++t->memcount;
    ++g_accesses;
    if (t->memcount >= t->next_mem) mem_preempt(t);
    spread(t, (uintptr_t)p, n, w, true, pc);
}

extern "C" {
void __tsan_init() {}
#define RW(N)                                                                                      \
    void __tsan_read##N(void *p) { access((uintptr_t)p, N, false, PC); }                            \
    void __tsan_write##N(void *p) { access((uintptr_t)p, N, true, PC); }                            \
    void __tsan_unaligned_read##N(void *p) { access((uintptr_t)p, N, false, PC); }                  \
    void __tsan_unaligned_write##N(void *p) { access((uintptr_t)p, N, true, PC); }                  \
    void __tsan_volatile_read##N(void *p) { access((uintptr_t)p, N, false, PC); }                   \
    void __tsan_volatile_write##N(void *p) { access((uintptr_t)p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { range_access(p, n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { range_access(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access((uintptr_t)p, 8, true, PC); }
void __tsan_vptr_read(void **p) { access((uintptr_t)p, 8, false, PC); }
void __tsan_func_entry(void *pc)
{
    Thread *t = self();
    if (!t) return;
    if (t->depth < 256) t->stk[t->depth] = (uint32_t)(uintptr_t)pc;
    ++t->depth;
}
void __tsan_func_exit() { Thread *t = self(); if (t && t->depth > 0) --t->depth; }

}

extern "C" char *__strtok_r(char *, char const *, char **) noexcept;

// The functions of the C library which answer in a static object: the object is written where the race detector sees it.
static struct tm g_tm;
static char g_time_text[64];
static char *g_strtok;

extern "C" struct tm *localtime(time_t const *t) noexcept
{
    struct tm v;
    if (!localtime_r(t, &v)) return nullptr;
    range_access(&g_tm, sizeof(g_tm), true, PC);
    g_tm = v;
    return &g_tm;
}
extern "C" struct tm *gmtime(time_t const *t) noexcept
{
    struct tm v;
    if (!gmtime_r(t, &v)) return nullptr;
    range_access(&g_tm, sizeof(g_tm), true, PC);
    g_tm = v;
    return &g_tm;
}
extern "C" char *asctime(struct tm const *t) noexcept
{
    range_access((void *)t, sizeof(*t), false, PC);
    char v[64];
    if (!asctime_r(t, v)) return nullptr;
    range_access(g_time_text, sizeof(g_time_text), true, PC);
    __builtin_memcpy(g_time_text, v, sizeof(v));
    return g_time_text;
}
extern "C" char *ctime(time_t const *t) noexcept
{
    char v[64];
    if (!ctime_r(t, v)) return nullptr;
    range_access(g_time_text, sizeof(g_time_text), true, PC);
    __builtin_memcpy(g_time_text, v, sizeof(v));
    return g_time_text;
}
extern "C" char *strtok(char *s, char const *delim) noexcept
{
    range_access(&g_strtok, sizeof(g_strtok), true, PC);
    return __strtok_r(s, delim, &g_strtok);
}
