// Process driver: pristine zygote, one forked child per run, batch / single / server modes.
// C style on purpose: no library templates shared with instrumented code.
#include "rt_int.h"
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

SimScenario *g_scenarios;
void rt_run(void (*fn)(void));
void rt_install_crash_handlers();
void rt_install_terminate();
uint64_t rt_accesses();

static char g_base[128]; // absolute scratch base of this process

static double wall()
{
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + ts.tv_nsec / 1e9;
}

static uint64_t hash64(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

static SimScenario *find_scenario(char const *name)
{
    for (SimScenario *s = g_scenarios; s; s = s->next)
        if (!strcmp(s->name, name)) return s;
    return nullptr;
}

// No opendir(): the arena allocator of this process never gives memory back.
static void rm_tree(int dfd, char const *name)
{
    int fd = openat(dfd, name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
    if (fd < 0) { unlinkat(dfd, name, 0); return; }
    struct Ent { uint64_t ino; int64_t off; unsigned short len; unsigned char type; char name[1]; };
    for (int round = 0; round < 100; ++round)
    {
        alignas(8) char buf[4096];
        lseek(fd, 0, SEEK_SET);
        int removed = 0;
        long n;
        while ((n = syscall(SYS_getdents64, fd, buf, sizeof buf)) > 0)
            for (long o = 0; o < n;)
            {
                Ent *e = (Ent *)(buf + o);
                o += e->len;
                if (!strcmp(e->name, ".") || !strcmp(e->name, "..")) continue;
                ++removed;
                if (unlinkat(fd, e->name, 0) != 0) rm_tree(fd, e->name);
            }
        if (!removed) break;
    }
    close(fd);
    unlinkat(dfd, name, AT_REMOVEDIR);
}

static void make_base()
{
    char const *root = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    snprintf(g_base, sizeof g_base, "%s/libfly-sim.%d", root, (int)getpid());
    if (mkdir(g_base, 0700) != 0 && errno != EEXIST) { perror("mkdir scratch"); _exit(3); }
}
static pid_t g_owner;
static void drop_base()
{
    if (getpid() != g_owner) return;
    if (chdir("/") != 0) return;
    char parent[128];
    strcpy(parent, g_base);
    char *sl = strrchr(parent, '/');
    *sl = 0;
    int fd = open(parent, O_RDONLY | O_DIRECTORY);
    if (fd >= 0) { rm_tree(fd, sl + 1); close(fd); }
}

// Waits while the machine is short of memory (address spaces of finished runs not yet torn down).
static void throttle()
{
    for (int i = 0; i < 600; ++i)
    {
        char buf[512];
        int fd = open("/proc/meminfo", O_RDONLY);
        if (fd < 0) return;
        ssize_t n = read(fd, buf, sizeof buf - 1);
        close(fd);
        if (n <= 0) return;
        buf[n] = 0;
        char *p = strstr(buf, "MemAvailable:");
        if (!p) return;
        if (strtol(p + 13, nullptr, 10) > 6L << 20) return;
        usleep(100000);
    }
}

static RunResult *new_result()
{
    return (RunResult *)mmap(nullptr, sizeof(RunResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}

// Runs one case in a forked child. Result in g_res (shared).
static void run_case(SimScenario *s)
{
    memset(g_res, 0, offsetof(RunResult, notes));
    g_res->notes[0] = 0;
    rm_tree(AT_FDCWD, "r");
    mkdir("r", 0700);
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(3); }
    if (p == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        // Global futex hash: a private one that is resized makes the kernel tear down the address space
        // asynchronously, and thousands of them pile up.
        prctl(78 /* PR_FUTEX_HASH */, 1 /* PR_FUTEX_HASH_SET_SLOTS */, 0, 0, 0);
        // The same descriptor numbers however the run is started.
        syscall(SYS_close_range, 3U, ~0U, 0U);
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        rl.rlim_cur = rl.rlim_max = 1 << 30;
        setrlimit(RLIMIT_FSIZE, &rl);
        struct itimerval it = {{0, 0}, {60, 0}};
        syscall(SYS_setitimer, ITIMER_REAL, &it, nullptr);
        strcpy(g_in.scratch, "r");
        rt_install_crash_handlers();
        rt_install_terminate();
        rt_run(s->run);
        g_res->accesses = rt_accesses();
        syscall(SYS_exit_group, 0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!g_res->finished)
    {
        g_res->finished = 2;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) strcpy(g_res->cls, "hang:real");
        else snprintf(g_res->cls, CLS_LEN, "sim:child-status-%x", st);
        snprintf(g_res->msg, MSG_LEN, "the run's process ended with status 0x%x", st);
    }
}

static void one_line(FILE *f, char const *s)
{
    for (; *s; ++s) fputc(*s == '\n' ? ' ' : *s, f);
    fputc('\n', f);
}

static void dump_result(FILE *f, SimScenario *s, int with_notes)
{
    fprintf(f, "scenario %s\nseed %lu\n", s->name, (unsigned long)g_in.seed);
    fprintf(f, "finished %d\ncls ", g_res->finished);
    one_line(f, g_res->cls);
    fprintf(f, "msg ");
    one_line(f, g_res->msg);
    fprintf(f, "hash %016lx\nsteps %lu\nswitches %lu\nsimtime %ld\nthreads %d\nstrategy %d\noverflow %d\n",
        (unsigned long)g_res->hash, (unsigned long)g_res->steps, (unsigned long)g_res->switches, (long)g_res->simtime,
        g_res->nthreads, g_res->strategy, g_res->devs_overflow);
    for (int i = 0; i < g_res->nparams; ++i)
    {
        Param &p = g_res->params[i];
        fprintf(f, "param %d %s %ld %ld %ld\n", i, p.name, (long)p.lo, (long)p.hi, (long)p.val);
    }
    for (int i = 0; i < g_res->nops; ++i)
    {
        fprintf(f, "op %d %d ", i, !g_in.op_disabled[i]);
        one_line(f, g_res->ops[i]);
    }
    for (int i = 0; i < SF_MAX; ++i)
        if (g_res->fault_fired[i]) fprintf(f, "fault %d %d\n", i, g_res->fault_fired[i]);
    for (int i = 0; i < 64; ++i)
        if (g_res->probes[i]) fprintf(f, "probe %d %d\n", i, g_res->probes[i]);
    fprintf(f, "stk");
    for (int i = 0; i < g_res->nstk; ++i) fprintf(f, " %x", g_res->stk[i]);
    fprintf(f, "\nstk2");
    for (int i = 0; i < g_res->nstk2; ++i) fprintf(f, " %x", g_res->stk2[i]);
    fprintf(f, "\n");
    if (g_in.replay)
        for (int i = 0; i < g_in.ndevs; ++i)
            fprintf(f, "dev %u %u %lu %ld\n", g_in.devs[i].tid, g_in.devs[i].kind, (unsigned long)g_in.devs[i].cnt, (long)g_in.devs[i].val);
    else
        for (int i = 0; i < g_res->ndevs; ++i)
            fprintf(f, "dev %u %u %lu %ld\n", g_res->devs[i].tid, g_res->devs[i].kind, (unsigned long)g_res->devs[i].cnt, (long)g_res->devs[i].val);
    if (with_notes) fprintf(f, "notes\n%s", g_res->notes);
}

static Dev g_devbuf[MAX_DEVS];

static SimScenario *load_replay(char const *path)
{
    FILE *f = fopen(path, "r");
    if (!f) { fprintf(stderr, "cannot open %s\n", path); return nullptr; }
    char line[1024];
    SimScenario *s = nullptr;
    memset(g_in.op_disabled, 0, sizeof g_in.op_disabled);
    g_in.noverride = 0;
    g_in.ndevs = 0;
    g_in.devs = g_devbuf;
    g_in.replay = 1;
    while (fgets(line, sizeof line, f))
    {
        char w[256];
        unsigned long a, b, c;
        long v;
        if (sscanf(line, "scenario %255s", w) == 1) s = find_scenario(w);
        else if (sscanf(line, "seed %lu", &a) == 1) g_in.seed = a;
        else if (sscanf(line, "random %lu", &a) == 1) g_in.replay = !a;
        else if (sscanf(line, "param %lu %ld", &a, &v) == 2)
        {
            if (g_in.noverride < MAX_PARAMS) { g_in.over[g_in.noverride].idx = (int)a; g_in.over[g_in.noverride++].val = v; }
        }
        else if (sscanf(line, "opoff %lu", &a) == 1) { if (a < MAX_OPS) g_in.op_disabled[a] = 1; }
        else if (sscanf(line, "dev %lu %lu %lu %ld", &a, &b, &c, &v) == 4)
        {
            if (g_in.ndevs < MAX_DEVS) g_devbuf[g_in.ndevs++] = {(uint32_t)a, (uint32_t)b, c, v};
        }
    }
    fclose(f);
    return s;
}

static void pin(int k)
{
    cpu_set_t all;
    if (sched_getaffinity(0, sizeof all, &all) != 0) return;
    int n = CPU_COUNT(&all), want = k % n;
    for (int c = 0; c < CPU_SETSIZE; ++c)
        if (CPU_ISSET(c, &all) && want-- == 0)
        {
            cpu_set_t one;
            CPU_ZERO(&one);
            CPU_SET(c, &one);
            sched_setaffinity(0, sizeof one, &one);
            return;
        }
}

struct Stats
{
    uint64_t runs, steps, accesses, switches, violations, ops, nontrivial;
    double simtime;
    uint64_t faults[SF_MAX], strat[8], fault_runs;
    uint64_t max_threads;
};

static uint64_t g_probe_counts[64][64]; // by scenario number
static uint64_t g_most[64][4];           // by scenario number: accesses, steps, simulated ms, threads of one run

static int scenario_number(SimScenario const *s)
{
    int n = 0;
    for (SimScenario *i = g_scenarios; i && i != s; i = i->next) ++n;
    return n & 63;
}

static int do_batch(char **argv)
{
    // batch SCN:W,SCN:W base_seed nruns workers seconds outprefix
    char list[1024];
    strncpy(list, argv[2], sizeof list - 1);
    uint64_t base = strtoull(argv[3], nullptr, 10);
    long n = atol(argv[4]);
    int workers = atoi(argv[5]);
    double limit = atof(argv[6]);
    char const *out = argv[7];
    SimScenario *tab[4096];
    int nt = 0;
    for (char *p = strtok(list, ","); p; p = strtok(nullptr, ","))
    {
        int w = 1;
        if (char *c = strchr(p, ':')) { *c = 0; w = atoi(c + 1); }
        SimScenario *s = find_scenario(p);
        if (!s) { fprintf(stderr, "no scenario %s\n", p); return 3; }
        if (nt + w > 4096) { fprintf(stderr, "the weights are too large\n"); return 3; }
        for (int i = 0; i < w; ++i) tab[nt++] = s;
    }
    double t0 = wall();
    for (int w = 0; w < workers; ++w)
    {
        if (fork() == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            pin(w);
            char dir[256];
            snprintf(dir, sizeof dir, "%s/w%d", g_base, w);
            mkdir(dir, 0700);
            if (chdir(dir) != 0) _exit(3);
            g_res = new_result();
            char fn[512];
            snprintf(fn, sizeof fn, "%s.%d.txt", out, w);
            FILE *f = fopen(fn, "w");
            snprintf(fn, sizeof fn, "%s.%d.hash", out, w);
            FILE *fh = fopen(fn, "w");
            if (!f || !fh) _exit(3);
            Stats st;
            memset(&st, 0, sizeof st);
            int nviol = 0;
            for (long i = w; i < n; i += workers)
            {
                if (wall() - t0 > limit) break;
                SimScenario *s = tab[hash64(base * 31 + (uint64_t)i * 7 + 5) % (uint64_t)nt];
                g_in.seed = hash64(base * 1000003ULL + (uint64_t)i);
                g_in.replay = 0;
                if (st.runs % 64 == 63) throttle();
                run_case(s);
                ++st.runs;
                st.steps += g_res->steps;
                st.accesses += g_res->accesses;
                st.switches += g_res->switches;
                st.ops += (uint64_t)g_res->nops_enabled;
                st.simtime += (double)g_res->simtime / 1e9;
                st.strat[g_res->strategy & 7]++;
                if ((uint64_t)g_res->nthreads > st.max_threads) st.max_threads = (uint64_t)g_res->nthreads;
                uint64_t nf = 0;
                for (int k = 0; k < SF_MAX; ++k) { st.faults[k] += (uint64_t)g_res->fault_fired[k]; nf += (uint64_t)g_res->fault_fired[k]; }
                if (nf) st.fault_runs++;
                {
                    uint64_t *pc = g_probe_counts[scenario_number(s)];
                    for (int k = 0; k < 64; ++k) pc[k] += (uint64_t)g_res->probes[k];
                    uint64_t const use[4] = {g_res->accesses, g_res->steps, (uint64_t)g_res->simtime / 1000000, (uint64_t)g_res->nthreads};
                    for (int k = 0; k < 4; ++k)
                        if (use[k] > g_most[scenario_number(s)][k]) g_most[scenario_number(s)][k] = use[k];
                }
                int nontriv = g_res->switches >= 2 || nf > 0;
                st.nontrivial += (uint64_t)nontriv;
                if (nontriv)
                {
                    uint64_t h = hash64(g_res->hash ^ hash64((uint64_t)(uintptr_t)s));
                    fwrite(&h, 8, 1, fh);
                }
                if (g_res->finished == 2)
                {
                    ++st.violations;
                    fprintf(f, "viol %ld %s %lu ", i, s->name, (unsigned long)g_in.seed);
                    fprintf(f, "%s|", g_res->cls);
                    for (int k = 0; k < g_res->nstk; ++k) fprintf(f, "%x ", g_res->stk[k]);
                    fprintf(f, "|");
                    for (int k = 0; k < g_res->nstk2; ++k) fprintf(f, "%x ", g_res->stk2[k]);
                    fprintf(f, "|");
                    one_line(f, g_res->msg);
                    if (++nviol >= 60) break;
                }
            }
            fprintf(f, "stats runs %lu steps %lu accesses %lu switches %lu violations %lu ops %lu nontrivial %lu simtime %.3f faultruns %lu maxthreads %lu\n",
                st.runs, st.steps, st.accesses, st.switches, st.violations, st.ops, st.nontrivial, st.simtime, st.fault_runs, st.max_threads);
            for (int k = 0; k < SF_MAX; ++k) if (st.faults[k]) fprintf(f, "fault %d %lu\n", k, st.faults[k]);
            for (SimScenario *i = g_scenarios; i; i = i->next)
                for (int k = 0; k < 64; ++k)
                    if (uint64_t v = g_probe_counts[scenario_number(i)][k]) fprintf(f, "probe %s %d %lu\n", i->name, k, v);
            for (SimScenario *i = g_scenarios; i; i = i->next)
                for (int k = 0; k < 4; ++k) fprintf(f, "most %s %d %lu\n", i->name, k, g_most[scenario_number(i)][k]);
            for (int k = 0; k < 8; ++k) if (st.strat[k]) fprintf(f, "strat %d %lu\n", k, st.strat[k]);
            fprintf(f, "done\n");
            fclose(f);
            fclose(fh);
            syscall(SYS_exit_group, 0);
        }
    }
    int bad = 0, st;
    while (wait(&st) > 0)
        if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = 3;
    printf("wall %.3f\n", wall() - t0);
    return bad;
}

int main(int argc, char **argv)
{
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC"))
    {
        personality((unsigned long)personality(0xffffffff) | ADDR_NO_RANDOMIZE);
        char *env[] = {(char *)"SIM_REEXEC=1", (char *)"LC_ALL=C", (char *)"TZ=UTC", (char *)"PATH=/usr/bin:/bin", nullptr};
        execve("/proc/self/exe", argv, env);
        perror("execve");
        return 3;
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    g_owner = getpid();
    if (argc < 2)
    {
        for (SimScenario *s = g_scenarios; s; s = s->next) printf("%s %d\n", s->name, s->weight);
        return 0;
    }
    make_base();
    tzset();
    int rc = 0;
    if (!strcmp(argv[1], "batch") && argc == 8) rc = do_batch(argv);
    else if (!strcmp(argv[1], "list"))
    {
        for (SimScenario *s = g_scenarios; s; s = s->next)
        {
            printf("%s %d", s->name, s->weight);
            for (char const *const *p = s->probes; *p; ++p) printf(" %s", *p);
            printf("\n");
        }
    }
    else if (!strcmp(argv[1], "one") && argc >= 4)
    {
        // one FILE OUT [trace level]
        pin((int)getpid());
        g_res = new_result();
        SimScenario *s = load_replay(argv[2]);
        char *outp = argv[3];
        char cwd[512];
        char absout[1024];
        if (outp[0] == '/' || !getcwd(cwd, sizeof cwd)) snprintf(absout, sizeof absout, "%s", outp);
        else snprintf(absout, sizeof absout, "%s/%s", cwd, outp);
        if (argc > 4) g_in.trace = atoi(argv[4]);
        if (!s) rc = 3;
        else
        {
            if (chdir(g_base) != 0) return 3;
            run_case(s);
            FILE *f = strcmp(outp, "-") ? fopen(absout, "w") : stdout;
            if (!f) return 3;
            dump_result(f, s, 1);
            if (f != stdout) fclose(f);
        }
    }
    else if (!strcmp(argv[1], "server"))
    {
        // lines "FILE OUT" on stdin
        pin(argc > 2 ? atoi(argv[2]) : 0);
        g_res = new_result();
        char line[2048], a[1000], b[1000];
        if (chdir(g_base) != 0) return 3;
        while (fgets(line, sizeof line, stdin))
        {
            if (sscanf(line, "%999s %999s", a, b) != 2) break;
            SimScenario *s = load_replay(a);
            if (!s) { printf("error\n"); fflush(stdout); continue; }
            run_case(s);
            FILE *f = fopen(b, "w");
            dump_result(f, s, 1);
            fclose(f);
            printf("ok\n");
            fflush(stdout);
        }
    }
    else { fprintf(stderr, "usage\n"); rc = 3; }
    drop_base();
    fflush(stdout);
    _exit(rc);
}
