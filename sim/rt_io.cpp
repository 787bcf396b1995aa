// Interception of file, inotify and system calls; fault injection on them.
#include "rt_int.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/inotify.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/sysinfo.h>
#include <sys/times.h>
#include <sys/uio.h>
#include <unistd.h>

static constexpr int MAXFD = 8192;
struct FdInfo { uint8_t kind; int64_t ready_at; int armed; int inst; uint64_t dir_dev, dir_ino; int name; };
enum { FK_NONE = 0, FK_FILE = 1, FK_INOTIFY = 2 };
static FdInfo g_fd[MAXFD];
static char g_prefix[192];
static size_t g_prefix_len;
static struct { char from[64]; char to[192]; } g_redir[8];
static int g_nredir;
static int64_t g_full_until;
static int g_full_explicit;
static int g_file_faults;
static uint64_t g_si_total = 8ULL << 30, g_si_avail = 4ULL << 30;
static int g_si_fail;
static uint64_t g_si_unit = 1;
static int g_cores = 2;
extern "C" void sim_set_cores(int n) { g_cores = n; }
extern "C" int get_nprocs(void) noexcept { return g_cores; }
extern "C" int get_nprocs_conf(void) noexcept { return g_cores; }
extern "C" void sim_set_sysinfo_unit(uint64_t u) { g_si_unit = u; }
static int g_inotify_open;

static FILE *(*real_fopen)(char const *, char const *);
static int (*real_fclose)(FILE *);

__attribute__((constructor(102))) static void init_real_io()
{
    real_fopen = (FILE * (*)(char const *, char const *)) rt_real("fopen64");
    real_fclose = (int (*)(FILE *))rt_real("fclose");
}

void rt_io_start_run() {}

static long sys(long nr, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0)
{
    long ret;
    register long r10 asm("r10") = d;
    register long r8 asm("r8") = e;
    asm volatile("syscall" : "=a"(ret) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8) : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) { errno = (int)-ret; return -1; }
    return ret;
}

extern "C" void sim_fs_prefix(char const *p) { strncpy(g_prefix, p, sizeof g_prefix - 1); g_prefix_len = strlen(g_prefix); }
extern "C" void sim_fs_redirect(char const *from, char const *to)
{
    for (int i = 0; i < g_nredir; ++i)
        if (!strcmp(g_redir[i].from, from)) { strncpy(g_redir[i].to, to, 191); return; }
    strncpy(g_redir[g_nredir].from, from, 63);
    strncpy(g_redir[g_nredir].to, to, 191);
    ++g_nredir;
}
extern "C" void sim_fs_full(int on) { g_full_explicit = on; if (!on) g_full_until = 0; }
extern "C" int sim_fs_is_full(void) { return g_full_explicit || g_full_until > g_now; }
extern "C" int sim_inotify_open(void) { return g_inotify_open; }
extern "C" int sim_file_faults(void) { return g_file_faults; }
extern "C" void sim_io_kick(void) { if (self()) wake_pollers(); }
extern "C" void sim_set_sysinfo(uint64_t t, uint64_t a, int f) { g_si_total = t; g_si_avail = a; g_si_fail = f; }

static char const *redirect(char const *p)
{
    for (int i = 0; i < g_nredir; ++i)
        if (!strcmp(g_redir[i].from, p)) return g_redir[i].to;
    return p;
}
static bool tracked_path(char const *p)
{
    if (!g_prefix_len) return false;
    if (!strncmp(p, g_prefix, g_prefix_len)) return true;
    return false;
}
// is this call subject to faults / scheduling?
static Thread *io_self()
{
    Thread *t = self();
    return t;
}
static bool faulty(Thread *t) { return t && !t->exempt && !t->ignore; }
static int ff(int kind, int n)
{
    int r = (int)fault_decide(kind, (uint32_t)n);
    if (r) ++g_file_faults;
    return r;
}
static void kick(Thread *t) { if (t) wake_pollers(); }

// ---- virtual inotify ----------------------------------------------------------------------------
// Watches and event queues live here; the wrappers below report what they did to real files. Behaves like the kernel's:
// one watch per inode and instance, increasing watch numbers, identical consecutive events merged, IN_IGNORED when a
// watch goes away, IN_Q_OVERFLOW when the queue is full.
struct InoWatch { int wd; uint64_t dev, ino; uint32_t mask; };
struct InoEvent { int wd; uint32_t mask, cookie; char name[256]; };
static constexpr int INO_INST = 16, INO_WATCH = 64;
static int INO_QUEUE = 1024;
static struct InoInst
{
    bool used;
    int next_wd, nwatch;
    InoWatch watch[INO_WATCH];
    unsigned head, tail; // queue positions
    InoEvent queue[1025];
} g_ino[INO_INST];
static int g_ino_used;
static uint32_t g_ino_cookie;
static char g_fd_names[512][256]; // names of files opened for writing while there are watches
static bool g_fd_name_used[512];

extern "C" void sim_inotify_queue(int n) { INO_QUEUE = n; }
static int g_watch_limit = INO_WATCH * INO_INST; // watches of all instances together
extern "C" void sim_inotify_watch_limit(int n) { g_watch_limit = n; }
static int ino_watches()
{
    int n = 0;
    for (InoInst const &in : g_ino)
        if (in.used) n += in.nwatch;
    return n;
}

static void ino_push(InoInst &in, int wd, uint32_t mask, uint32_t cookie, char const *name)
{
    unsigned n = in.head - in.tail;
    if (n)
    {
        InoEvent const &last = in.queue[(in.head - 1) % 1025];
        if (last.wd == wd && last.mask == mask && !strcmp(last.name, name)) return;
    }
    InoEvent &e = in.queue[in.head % 1025];
    if ((int)n >= INO_QUEUE)
    {
        if (in.queue[(in.head - 1) % 1025].wd == -1 || (int)n > INO_QUEUE) return;
        e.wd = -1, e.mask = IN_Q_OVERFLOW, e.cookie = 0, e.name[0] = 0;
        trace("inotify queue overflow");
    }
    else
    {
        e.wd = wd, e.mask = mask, e.cookie = cookie;
        strncpy(e.name, name, 255);
        e.name[255] = 0;
    }
    ++in.head;
}
static void ino_event(uint64_t dev, uint64_t ino, uint32_t mask, uint32_t cookie, char const *name)
{
    for (InoInst &in : g_ino)
        if (in.used)
            for (int i = 0; i < in.nwatch; ++i)
                if (in.watch[i].dev == dev && in.watch[i].ino == ino && (in.watch[i].mask & mask & IN_ALL_EVENTS)) ino_push(in, in.watch[i].wd, mask, cookie, name);
}
static void ino_gone(uint64_t dev, uint64_t ino) // the inode was deleted
{
    for (InoInst &in : g_ino)
        if (in.used)
            for (int i = 0; i < in.nwatch; ++i)
                if (in.watch[i].dev == dev && in.watch[i].ino == ino)
                {
                    if (in.watch[i].mask & IN_DELETE_SELF) ino_push(in, in.watch[i].wd, IN_DELETE_SELF, 0, "");
                    ino_push(in, in.watch[i].wd, IN_IGNORED, 0, "");
                    in.watch[i] = in.watch[--in.nwatch];
                    break;
                }
}
struct Place // where a name lives
{
    bool ok = false, exists = false, dir = false;
    uint64_t dev = 0, ino = 0;           // of the directory
    uint64_t own_dev = 0, own_ino = 0;   // of the file itself
    char name[256];
};
static bool raw_stat(char const *p, struct stat *st) { return sys(SYS_newfstatat, AT_FDCWD, (long)p, (long)st, AT_SYMLINK_NOFOLLOW) == 0; }
static void locate(char const *path, Place &pl)
{
    if (!g_ino_used || !tls_self) return;
    char buf[1024];
    size_t n = strlen(path);
    if (n >= sizeof buf) return;
    memcpy(buf, path, n + 1);
    while (n > 1 && buf[n - 1] == '/') buf[--n] = 0;
    char *slash = strrchr(buf, '/');
    char const *base = slash ? slash + 1 : buf;
    struct stat st;
    int const e = errno;
    if (raw_stat(buf, &st)) pl.exists = true, pl.dir = S_ISDIR(st.st_mode), pl.own_dev = st.st_dev, pl.own_ino = st.st_ino;
    strncpy(pl.name, base, 255);
    pl.name[255] = 0;
    if (slash == buf) buf[1] = 0;
    else if (slash) *slash = 0;
    if (raw_stat(slash ? buf : ".", &st)) pl.ok = true, pl.dev = st.st_dev, pl.ino = st.st_ino;
    errno = e;
}
static void ino_child(Place const &pl, uint32_t mask, uint32_t cookie = 0)
{
    if (pl.ok) ino_event(pl.dev, pl.ino, mask | (pl.dir ? IN_ISDIR : 0), cookie, pl.name);
}
static void fd_forget(int fd)
{
    if (fd < 0 || fd >= MAXFD || !g_fd[fd].name) return;
    g_fd_name_used[g_fd[fd].name - 1] = false;
    g_fd[fd].name = 0;
}
static void fd_place(int fd, Place const &pl)
{
    if (fd < 0 || fd >= MAXFD) return;
    fd_forget(fd);
    if (!pl.ok) return;
    for (int i = 0; i < 512; ++i)
        if (!g_fd_name_used[i])
        {
            g_fd_name_used[i] = true;
            strcpy(g_fd_names[i], pl.name);
            g_fd[fd].name = i + 1;
            g_fd[fd].dir_dev = pl.dev;
            g_fd[fd].dir_ino = pl.ino;
            return;
        }
}
static void fd_modified(int fd)
{
    if (g_ino_used && fd >= 0 && fd < MAXFD && g_fd[fd].name) ino_event(g_fd[fd].dir_dev, g_fd[fd].dir_ino, IN_MODIFY, 0, g_fd_names[g_fd[fd].name - 1]);
}
static void ino_opened(Place const &pl, int fd, bool create, bool trunc, bool write)
{
    if (!g_ino_used || fd < 0 || !tls_self) return;
    if (create && !pl.exists) ino_child(pl, IN_CREATE);
    else if (trunc && pl.exists) ino_child(pl, IN_MODIFY);
    if (write) fd_place(fd, pl);
}
static void ino_removed(Place const &pl)
{
    if (!pl.exists) return;
    ino_child(pl, IN_DELETE);
    ino_gone(pl.own_dev, pl.own_ino);
}
static void ino_renamed(Place const &a, Place const &b)
{
    if (!a.ok || !b.ok || (a.own_dev == b.own_dev && a.own_ino == b.own_ino && b.exists)) return;
    uint32_t const cookie = ++g_ino_cookie;
    ino_child(a, IN_MOVED_FROM, cookie);
    Place to = b;
    to.dir = a.dir;
    ino_child(to, IN_MOVED_TO, cookie);
    if (b.exists) ino_gone(b.own_dev, b.own_ino);
    for (FdInfo &f : g_fd)
        if (f.name && f.dir_dev == a.dev && f.dir_ino == a.ino && !strcmp(g_fd_names[f.name - 1], a.name))
        {
            strcpy(g_fd_names[f.name - 1], b.name);
            f.dir_dev = b.dev, f.dir_ino = b.ino;
        }
}
extern "C" int sim_inotify_pending(void) // events nobody has read yet
{
    unsigned n = 0;
    for (InoInst const &in : g_ino)
        if (in.used) n += in.head - in.tail;
    return (int)n;
}
static ssize_t ino_read(InoInst &in, char *buf, size_t n)
{
    size_t done = 0;
    while (in.tail != in.head)
    {
        InoEvent const &e = in.queue[in.tail % 1025];
        size_t const len = e.name[0] ? (strlen(e.name) + 1 + 15) / 16 * 16 : 0;
        if (n - done < sizeof(struct inotify_event) + len)
        {
            if (done == 0) { errno = EINVAL; return -1; }
            break;
        }
        struct inotify_event ev;
        ev.wd = e.wd, ev.mask = e.mask, ev.cookie = e.cookie, ev.len = (uint32_t)len;
        memcpy(buf + done, &ev, sizeof ev);
        memset(buf + done + sizeof ev, 0, len);
        if (len) memcpy(buf + done + sizeof ev, e.name, strlen(e.name));
        done += sizeof ev + len;
        ++in.tail;
    }
    if (!done) { errno = EAGAIN; return -1; }
    return (ssize_t)done;
}

// ---- open / close -------------------------------------------------------------------------------
static int open_fault(Thread *t, char const *path, bool creating)
{
    if (!faulty(t) || !(tracked_path(path))) return 0;
    if (int r = ff(SF_OPEN_FAIL, 3))
    {
        static int const e[] = {EMFILE, EACCES, ENFILE};
        return e[r - 1];
    }
    if (creating && sim_fs_is_full() && access(path, F_OK) != 0) return ENOSPC;
    return 0;
}

static FILE *fopen_common(char const *path, char const *mode)
{
    Thread *t = io_self();
    char const *rp = redirect(path);
    if (!t) return real_fopen(rp, mode);
    sched_point(80, nullptr);
    bool wr = strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+');
    if (int e = open_fault(t, rp, wr)) { trace("fopen %s fails errno %d", path, e); errno = e; return nullptr; }
    Place pl;
    if (wr) locate(rp, pl);
    FILE *f = real_fopen(rp, mode);
    if (f && wr) ino_opened(pl, fileno(f), mode[0] != 'r', mode[0] == 'w', true);
    trace("fopen %s %s -> %d", path, mode, f ? fileno(f) : -1);
    if (f)
    {
        int fd = fileno(f);
        net_forget(fd);
        if (fd < MAXFD) g_fd[fd].kind = tracked_path(rp) ? FK_FILE : FK_NONE;
    }
    if (wr) kick(t);
    return f;
}
extern "C" FILE *fopen(char const *p, char const *m) { return fopen_common(p, m); }
extern "C" FILE *fopen64(char const *p, char const *m) { return fopen_common(p, m); }
extern "C" int fclose(FILE *f)
{
    Thread *t = io_self();
    if (!t) return real_fclose(f);
    int fd = fileno(f);
    sched_point(81, nullptr);
    int fail = 0;
    if (fd >= 0 && fd < MAXFD)
    {
        if (g_fd[fd].kind == FK_FILE && faulty(t)) fail = ff(SF_CLOSE_FAIL, 1);
        g_fd[fd].kind = FK_NONE;
        fd_forget(fd);
    }
    int r = real_fclose(f);
    kick(t);
    if (fail) { errno = EIO; return -1; }
    return r;
}

static int open_common(int dirfd, char const *path, int flags, mode_t mode)
{
    Thread *t = io_self();
    char const *rp = redirect(path);
    if (t)
    {
        sched_point(82, nullptr);
        if (int e = open_fault(t, rp, flags & O_CREAT)) { errno = e; return -1; }
    }
    Place pl;
    bool const wr = (flags & O_ACCMODE) != O_RDONLY;
    if (t && (wr || (flags & O_CREAT)) && dirfd == AT_FDCWD) locate(rp, pl);
    int fd = (int)sys(SYS_openat, dirfd, (long)rp, flags, mode);
    net_forget(fd);
    ino_opened(pl, fd, flags & O_CREAT, flags & O_TRUNC, wr);
    if (fd >= 0 && fd < MAXFD) g_fd[fd].kind = tracked_path(rp) ? FK_FILE : FK_NONE;
    if (flags & (O_CREAT | O_WRONLY | O_RDWR)) kick(t);
    return fd;
}
#define MODEARG mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
extern "C" int open(char const *p, int flags, ...) { MODEARG return open_common(AT_FDCWD, p, flags, mode); }
extern "C" int open64(char const *p, int flags, ...) { MODEARG return open_common(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
extern "C" int openat(int d, char const *p, int flags, ...) { MODEARG return open_common(d, p, flags, mode); }
extern "C" int openat64(int d, char const *p, int flags, ...) { MODEARG return open_common(d, p, flags | O_LARGEFILE, mode); }

extern "C" int close(int fd)
{
    Thread *t = io_self();
    if (net_is_fd(fd) && t) return net_close(fd);
    if (t) net_check_close(fd);
    if (t)
    {
        sched_point(83, nullptr);
        if (fd >= 0 && fd < MAXFD)
        {
            int k = g_fd[fd].kind;
            if (k == FK_INOTIFY)
            {
                --g_inotify_open;
                --g_ino_used;
                g_ino[g_fd[fd].inst].used = false;
            }
            fd_forget(fd);
            g_fd[fd].kind = FK_NONE;
            if (k == FK_FILE && faulty(t) && ff(SF_CLOSE_FAIL, 1)) { sys(SYS_close, fd); errno = EIO; return -1; }
        }
    }
    int r = (int)sys(SYS_close, fd);
    kick(t);
    return r;
}

// ---- read / write -------------------------------------------------------------------------------
ssize_t net_read(int fd, void *buf, size_t n);
ssize_t net_write(int fd, void const *buf, size_t n);

extern "C" ssize_t read(int fd, void *buf, size_t n)
{
    Thread *t = io_self();
    if (!t) return sys(SYS_read, fd, (long)buf, (long)n);
    if (net_is_fd(fd)) return net_read(fd, buf, n);
    sched_point(84, nullptr);
    range_access(buf, n, true, (uintptr_t)__builtin_return_address(0));
    int k = (fd >= 0 && fd < MAXFD) ? g_fd[fd].kind : 0;
    if (k == FK_FILE && faulty(t))
    {
        if (ff(SF_EINTR, 1)) { errno = EINTR; return -1; }
        if (ff(SF_READ_EIO, 1)) { trace("read fd %d: EIO", fd); errno = EIO; return -1; }
        if (n > 1) if (int r = ff(SF_READ_SHORT, 4)) { size_t m = r == 1 ? 1 : r == 2 ? n / 2 : r == 3 ? 3 : 64; if (m && m < n) n = m; }
    }
    else if (k == FK_INOTIFY && faulty(t))
    {
        if (fault_decide(SF_READ_EAGAIN, 1)) { errno = EAGAIN; return -1; }
        if (fault_decide(SF_EINTR, 1)) { errno = EINTR; return -1; }
        if (n > 320 && fault_decide(SF_EVENT_SPLIT, 1)) n = sizeof(struct inotify_event) + 256 + 16;
    }
    if (k == FK_INOTIFY) return ino_read(g_ino[g_fd[fd].inst], (char *)buf, n);
    return sys(SYS_read, fd, (long)buf, (long)n);
}

// returns how many bytes of n may be stored; -1: fail with errno
static ssize_t write_fault(Thread *t, int fd, size_t n)
{
    int k = (fd >= 0 && fd < MAXFD) ? g_fd[fd].kind : 0;
    if (k != FK_FILE || !faulty(t)) return (ssize_t)n;
    if (ff(SF_EINTR, 1)) { errno = EINTR; return -1; }
    if (sim_fs_is_full()) { errno = ENOSPC; ++g_file_faults; return -1; }
    if (int r = ff(SF_WRITE_ENOSPC, 4))
    {
        g_full_until = g_now + (r == 1 ? 1000000LL : r == 2 ? 30000000LL : r == 3 ? 300000000LL : 3000000000LL);
        trace("disk full for a while");
        errno = ENOSPC;
        return -1;
    }
    if (ff(SF_WRITE_EIO, 1)) { trace("write fd %d: EIO", fd); errno = EIO; return -1; }
    if (n > 1) if (int r = ff(SF_WRITE_SHORT, 6))
    {
        size_t m = (r & 1) ? n / 2 : (r == 2 ? 1 : n - 1);
        if (r > 3) g_full_until = g_now + 50000000LL; // torn write: the rest meets a full disk
        trace("write fd %d: short %zu of %zu", fd, m, n);
        return (ssize_t)m;
    }
    return (ssize_t)n;
}

extern "C" ssize_t write(int fd, void const *buf, size_t n)
{
    Thread *t = io_self();
    if (!t) return sys(SYS_write, fd, (long)buf, (long)n);
    if (net_is_fd(fd)) return net_write(fd, buf, n);
    sched_point(85, nullptr);
    range_access(buf, n, false, (uintptr_t)__builtin_return_address(0));
    ssize_t m = write_fault(t, fd, n);
    if (m < 0) return -1;
    ssize_t r = sys(SYS_write, fd, (long)buf, m);
    if (r > 0) fd_modified(fd);
    kick(t);
    return r;
}
extern "C" ssize_t writev(int fd, struct iovec const *iov, int cnt)
{
    Thread *t = io_self();
    if (!t) return sys(SYS_writev, fd, (long)iov, cnt);
    sched_point(86, nullptr);
    size_t n = 0;
    for (int i = 0; i < cnt; ++i) { n += iov[i].iov_len; range_access(iov[i].iov_base, iov[i].iov_len, false, (uintptr_t)__builtin_return_address(0)); }
    ssize_t m = write_fault(t, fd, n);
    if (m < 0) return -1;
    ssize_t r;
    if ((size_t)m == n) r = sys(SYS_writev, fd, (long)iov, cnt);
    else
    {
        r = 0;
        for (int i = 0; i < cnt && r < m; ++i)
        {
            size_t k = iov[i].iov_len;
            if (k > (size_t)(m - r)) k = (size_t)(m - r);
            ssize_t w = sys(SYS_write, fd, (long)iov[i].iov_base, (long)k);
            if (w < 0) { r = r ? r : -1; break; }
            r += w;
        }
    }
    if (r > 0) fd_modified(fd);
    kick(t);
    return r;
}
extern "C" ssize_t pread(int fd, void *b, size_t n, off_t o) { return sys(SYS_pread64, fd, (long)b, (long)n, o); }

// ---- names --------------------------------------------------------------------------------------
extern "C" int unlink(char const *p) noexcept
{
    Thread *t = io_self();
    if (t)
    {
        sched_point(87, nullptr);
        if (faulty(t) && tracked_path(p) && ff(SF_UNLINK_FAIL, 1)) { errno = EIO; return -1; }
    }
    trace("unlink %s", p);
    Place pl;
    locate(p, pl);
    int r = (int)sys(SYS_unlinkat, AT_FDCWD, (long)p, 0);
    if (r == 0) ino_removed(pl);
    kick(t);
    return r;
}
extern "C" int rmdir(char const *p) noexcept
{
    Thread *t = io_self();
    if (t) sched_point(88, nullptr);
    Place pl;
    locate(p, pl);
    int r = (int)sys(SYS_unlinkat, AT_FDCWD, (long)p, AT_REMOVEDIR);
    if (r == 0) ino_removed(pl);
    kick(t);
    return r;
}
extern "C" int remove(char const *p) noexcept
{
    Thread *t = io_self();
    if (t)
    {
        sched_point(89, nullptr);
        if (faulty(t) && tracked_path(p) && ff(SF_UNLINK_FAIL, 1)) { errno = EIO; return -1; }
    }
    trace("remove %s", p);
    Place pl;
    locate(p, pl);
    int r = (int)sys(SYS_unlinkat, AT_FDCWD, (long)p, 0);
    if (r < 0 && (errno == EISDIR || errno == EPERM)) r = (int)sys(SYS_unlinkat, AT_FDCWD, (long)p, AT_REMOVEDIR);
    if (r == 0) ino_removed(pl);
    kick(t);
    return r;
}
extern "C" int rename(char const *a, char const *b) noexcept
{
    Thread *t = io_self();
    if (t) sched_point(90, nullptr);
    if (t && faulty(t) && tracked_path(b) && ff(SF_UNLINK_FAIL, 1)) { errno = EIO; return -1; }
    Place pa, pb;
    locate(a, pa);
    locate(b, pb);
    int r = (int)sys(SYS_renameat, AT_FDCWD, (long)a, AT_FDCWD, (long)b);
    if (r == 0) ino_renamed(pa, pb);
    kick(t);
    return r;
}
extern "C" int mkdir(char const *p, mode_t m) noexcept
{
    Thread *t = io_self();
    if (t) sched_point(91, nullptr);
    Place pl;
    locate(p, pl);
    int r = (int)sys(SYS_mkdirat, AT_FDCWD, (long)p, m);
    if (r == 0) pl.dir = true, ino_child(pl, IN_CREATE);
    kick(t);
    return r;
}

// ---- inotify / poll -----------------------------------------------------------------------------
extern "C" int inotify_init1(int flags) noexcept
{
    Thread *t = io_self();
    if (t)
    {
        sched_point(92, nullptr);
        if (faulty(t) && fault_decide(SF_WATCH_FAIL, 1)) { errno = EMFILE; return -1; }
    }
    if (!t) return (int)sys(SYS_inotify_init1, flags);
    int fd = (int)sys(SYS_eventfd2, 0, flags & IN_CLOEXEC ? O_CLOEXEC : 0);
    int inst = 0;
    while (inst < INO_INST && g_ino[inst].used) ++inst;
    if (fd < 0 || fd >= MAXFD) sim_fail("sim:inotify", "out of descriptors");
    if (inst == INO_INST) { sys(SYS_close, fd); errno = EMFILE; return -1; } // a limit of the system
    net_forget(fd);
    g_ino[inst].used = true;
    g_ino[inst].next_wd = 1, g_ino[inst].nwatch = 0, g_ino[inst].head = g_ino[inst].tail = 0;
    g_fd[fd] = {};
    g_fd[fd].kind = FK_INOTIFY, g_fd[fd].inst = inst;
    ++g_inotify_open, ++g_ino_used;
    return fd;
}
static InoInst *ino_inst(int fd)
{
    if (fd >= 0 && fd < MAXFD && g_fd[fd].kind != FK_INOTIFY)
        sim_fail("oracle:closed-descriptor", "a watch was added or removed on descriptor %d, which had been closed", fd);
    if (fd < 0 || fd >= MAXFD) { errno = fd < 0 ? EBADF : EINVAL; return nullptr; }
    return &g_ino[g_fd[fd].inst];
}
extern "C" int inotify_add_watch(int fd, char const *p, uint32_t mask) noexcept
{
    Thread *t = io_self();
    if (!t) return (int)sys(SYS_inotify_add_watch, fd, (long)p, mask);
    sched_point(93, nullptr);
    if (faulty(t) && fault_decide(SF_WATCH_FAIL, 1)) { errno = ENOSPC; return -1; }
    InoInst *in = ino_inst(fd);
    if (!in) return -1;
    struct stat st;
    if (sys(SYS_newfstatat, AT_FDCWD, (long)p, (long)&st, mask & IN_DONT_FOLLOW ? AT_SYMLINK_NOFOLLOW : 0) != 0) return -1;
    if ((mask & IN_ONLYDIR) && !S_ISDIR(st.st_mode)) { errno = ENOTDIR; return -1; }
    for (int i = 0; i < in->nwatch; ++i)
        if (in->watch[i].dev == st.st_dev && in->watch[i].ino == st.st_ino)
        {
            in->watch[i].mask = mask & IN_MASK_ADD ? in->watch[i].mask | mask : mask;
            return in->watch[i].wd;
        }
    if (in->nwatch == INO_WATCH || ino_watches() >= g_watch_limit) { errno = ENOSPC; return -1; }
    in->watch[in->nwatch] = {in->next_wd++, st.st_dev, st.st_ino, mask};
    int const r = in->watch[in->nwatch++].wd;
    trace("inotify_add_watch %s -> %d", p, r);
    return r;
}
extern "C" int inotify_rm_watch(int fd, int wd) noexcept
{
    Thread *t = io_self();
    if (!t) return (int)sys(SYS_inotify_rm_watch, fd, wd);
    sched_point(94, nullptr);
    InoInst *in = ino_inst(fd);
    if (!in) return -1;
    trace("inotify_rm_watch %d", wd);
    for (int i = 0; i < in->nwatch; ++i)
        if (in->watch[i].wd == wd)
        {
            in->watch[i] = in->watch[--in->nwatch];
            ino_push(*in, wd, IN_IGNORED, 0, "");
            kick(t);
            return 0;
        }
    errno = EINVAL;
    return -1;
}

static int poll_once(struct pollfd *fds, nfds_t n, int64_t *next)
{
    int ready = 0;
    for (nfds_t i = 0; i < n; ++i)
    {
        fds[i].revents = 0;
        int fd = fds[i].fd;
        if (fd < 0) continue;
        if (net_is_fd(fd))
        {
            fds[i].revents = (short)net_poll_revents(fd, fds[i].events);
        }
        else
        {
            struct pollfd one = {fd, fds[i].events, 0};
            if (fd < MAXFD && g_fd[fd].kind == FK_INOTIFY)
            {
                InoInst const &in = g_ino[g_fd[fd].inst];
                one.revents = (short)(in.head != in.tail ? one.events & (POLLIN | POLLRDNORM) : 0);
            }
            else sys(SYS_poll, (long)&one, 1, 0);
            if (one.revents && fd < MAXFD && g_fd[fd].kind == FK_INOTIFY)
            {
                FdInfo &f = g_fd[fd];
                if (!f.armed)
                {
                    f.armed = 1;
                    f.ready_at = 0;
                    Thread *t = tls_self;
                    if (faulty(t)) if (int r = (int)fault_decide(SF_POLL_DELAY, 4))
                        f.ready_at = g_now + (r == 1 ? 100000LL : r == 2 ? 2000000LL : r == 3 ? 20000000LL : 150000000LL);
                }
                if (f.ready_at > g_now)
                {
                    if (f.ready_at < *next) *next = f.ready_at;
                    one.revents = 0;
                }
                else f.armed = 0;
            }
            fds[i].revents = one.revents;
        }
        if (fds[i].revents) ++ready;
    }
    return ready;
}

static int poll_for(struct pollfd *fds, nfds_t n, int64_t timeout)
{
    Thread *t = tls_self;
    sched_point(95, nullptr);
    for (nfds_t i = 0; i < n; ++i)
        if (fds[i].fd >= 0 && net_is_fd(fds[i].fd)) { net_count_poll(); break; }
    if (n == 0 && timeout == 0) return 0;
    if (faulty(t) && fault_decide(SF_POLL_FAIL, 1)) { errno = EINTR; return -1; }
    int64_t dl = timeout < 0 ? FOREVER : g_now + timeout;
    for (;;)
    {
        int64_t next = FOREVER;
        int r = poll_once(fds, n, &next);
        if (r) return r;
        if (g_now >= dl) return 0;
        int64_t ne = net_next_event();
        if (ne < next) next = ne;
        if (next <= g_now) next = g_now + 1000;
        block_on(W_POLL, fds, next < dl ? next : dl);
    }
}
extern "C" int poll(struct pollfd *fds, nfds_t n, int timeout)
{
    if (!io_self()) return (int)sys(SYS_poll, (long)fds, (long)n, timeout);
    return poll_for(fds, n, timeout < 0 ? -1 : timeout * 1000000LL);
}
extern "C" int ppoll(struct pollfd *fds, nfds_t n, struct timespec const *ts, sigset_t const *mask)
{
    if (!io_self()) return (int)sys(SYS_ppoll, (long)fds, (long)n, (long)ts, (long)mask, 8);
    return poll_for(fds, n, ts ? ts->tv_sec * 1000000000LL + ts->tv_nsec : -1);
}

// ---- system information -------------------------------------------------------------------------
extern "C" int sysinfo(struct sysinfo *si) noexcept
{
    Thread *t = io_self();
    memset(si, 0, sizeof *si);
    if (t)
    {
        sched_point(96, nullptr);
        if (g_si_fail || (faulty(t) && fault_decide(SF_SYSINFO_FAIL, 1))) { errno = EFAULT; return -1; }
    }
    si->totalram = g_si_total / g_si_unit;
    si->freeram = g_si_avail / g_si_unit;
    si->mem_unit = (unsigned)g_si_unit;
    return 0;
}
// CPU time used by the process: so many thousandths of one CPU since the last change, counted in nanoseconds.
static int64_t g_cpu_ns[2], g_cpu_rate[2], g_cpu_at;
static void cpu_advance()
{
    int64_t const d = g_now - g_cpu_at;
    g_cpu_at = g_now;
    for (int i = 0; i < 2; ++i) g_cpu_ns[i] += d / 1000 * g_cpu_rate[i];
}
extern "C" void sim_set_cpu_rate(int user, int sys_) { cpu_advance(); g_cpu_rate[0] = user; g_cpu_rate[1] = sys_; }
extern "C" clock_t times(struct tms *t) noexcept
{
    Thread *th = io_self();
    if (th)
    {
        sched_point(97, nullptr);
        if (faulty(th) && fault_decide(SF_SYSINFO_FAIL, 1)) { errno = EFAULT; return (clock_t)-1; }
    }
    cpu_advance();
    t->tms_utime = g_cpu_ns[0] / 10000000;
    t->tms_stime = g_cpu_ns[1] / 10000000;
    t->tms_cutime = t->tms_cstime = 0;
    return (clock_t)(1000000 + g_now / 10000000);
}
