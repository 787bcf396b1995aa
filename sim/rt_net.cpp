// A simulated network: IPv4/IPv6 TCP and UDP sockets of this process, select(), name resolution; faults on all of them.
// Descriptor numbers are real ones (a placeholder is opened for each), so that they are reused like the kernel reuses them.
#include "rt_int.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>

static constexpr int MAXS = 512, MAXFD = 8192, CAP = 1 << 16, MAXSEG = 2048, MAXBACK = 64, MAXQ = 64, DGRAM = 9216, MAXD = 512;
enum State { ST_NEW, ST_LISTEN, ST_CONNECTING, ST_CONNECTED, ST_FAILED, ST_RESET };
struct Addr { uint8_t ip[16]; uint16_t port; };
struct Seg { uint64_t end; int64_t at; };
struct Sock
{
    bool used, stream, nonblock, reuse, bound, closed, write_shut;
    int fd, fam, state, so_error, peer; // peer: index, -1
    Addr local, remote;
    int64_t est_at;
    int conn_result;
    // received data
    uint64_t head, tail;     // bytes written / read
    Seg seg[MAXSEG];
    uint32_t shead, stail;
    int64_t last_at, fin_at, rst_at;
    bool eof_seen;
    // listener
    int back[MAXBACK];
    int64_t back_at[MAXBACK];
    int nback, maxback;
    // datagrams, by arrival
    int q[MAXQ];
    int nq;
    // statistics
    int64_t stat[16];
    uint8_t buf[CAP];
};
struct Dgram { bool used; int64_t at; Addr from; int n; uint64_t tag; uint8_t data[DGRAM]; };

static Sock g_s[MAXS];
static int g_ns;
static Dgram g_d[MAXD];
static int16_t g_of[MAXFD];     // index + 1
static bool g_was[MAXFD];       // closed, and not in use for something else since
static uint64_t g_created, g_closed;
static int g_bad_use, g_fd_base;
static int64_t g_lat = 200000;
static uint32_t g_cap = 16384, g_mss = 1460;
static uint16_t g_port = 40000;
static uint64_t g_dtag;
static struct { char name[64]; uint32_t ip; } g_names[8];
static int g_nnames;

static long sys(long nr, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0)
{
    long ret;
    register long r10 asm("r10") = d;
    register long r8 asm("r8") = e;
    asm volatile("syscall" : "=a"(ret) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8) : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) { errno = (int)-ret; return -1; }
    return ret;
}

void rt_net_start_run() {}
extern "C" void sim_net_enable(void) {}
extern "C" int sim_net_open_fds(void) { return (int)(g_created - g_closed); }
extern "C" uint64_t sim_net_created(void) { return g_created; }
static uint64_t g_selects;
extern "C" uint64_t sim_net_selects(void) { return g_selects; }
void net_count_poll() { ++g_selects; }
extern "C" uint64_t sim_net_closed(void) { return g_closed; }
extern "C" int sim_net_bad_use(void) { return g_bad_use; }
extern "C" void sim_net_fd_base(int n) { g_fd_base = n; }
extern "C" void sim_net_params(int64_t lat, uint32_t mss, uint32_t cap)
{
    g_lat = lat;
    g_mss = mss ? mss : 1;
    g_cap = cap > CAP ? CAP : cap;
}
extern "C" void sim_net_set_addr(char const *name, uint32_t ip)
{
    if (g_nnames == 8) return;
    strncpy(g_names[g_nnames].name, name, 63);
    g_names[g_nnames++].ip = ip;
}
extern "C" uint64_t sim_net_id(int fd) { return fd >= 0 && fd < MAXFD && g_of[fd] ? (uint64_t)g_of[fd] : 0; }
static void settle(Sock &s);
extern "C" int64_t sim_net_info(uint64_t id, int what)
{
    if (id == 0 || id > (uint64_t)g_ns) return -1;
    Sock &s = g_s[id - 1];
    settle(s);
    switch (what)
    {
        case SN_PEER: return s.peer + 1;
        case SN_ESTABLISHED: return s.stat[SN_ESTABLISHED];
        case SN_OPEN: return !s.closed && s.fd >= 0;
        case SN_LISTENING: return !s.closed && s.state == ST_LISTEN;
        case SN_CONNECTED: return !s.closed && s.state == ST_CONNECTED;
        case SN_UNREAD: return (int64_t)(s.head - s.tail);
        default: return what >= 0 && what < 16 ? s.stat[what] : -1;
    }
}

bool net_is_fd(int fd) { return fd >= 0 && fd < MAXFD && g_of[fd] != 0; }
void net_forget(int fd) { if (fd >= 0 && fd < MAXFD) g_was[fd] = false; }

static void bad_use(int fd, char const *call)
{
    if (fd < 0 || fd >= MAXFD || !g_was[fd]) return;
    ++g_bad_use;
    sim_fail("oracle:closed-descriptor", "%s() on descriptor %d, which had been closed", call, fd);
}
void net_check_close(int fd) { bad_use(fd, "close"); }

static Sock *get(int fd, char const *call)
{
    if (net_is_fd(fd)) return &g_s[g_of[fd] - 1];
    bad_use(fd, call);
    errno = EBADF;
    return nullptr;
}
static int index_of(Sock const &s) { return (int)(&s - g_s); }

static int new_sock(int fam, bool stream, bool with_fd)
{
    int fd = -1;
    if (g_ns == MAXS) sim_fail("resource:sockets", "the run creates more and more sockets");
    if (with_fd)
    {
        fd = (int)sys(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDONLY);
        if (fd >= 0 && g_fd_base > fd)
        {
            int const hi = (int)sys(SYS_fcntl, fd, F_DUPFD, g_fd_base);
            sys(SYS_close, fd);
            fd = hi;
        }
        if (fd < 0 || fd >= MAXFD) sim_fail("resource:descriptors", "no descriptor is left for a socket");
        g_of[fd] = (int16_t)(g_ns + 1);
        g_was[fd] = false;
        ++g_created;
    }
    Sock &s = g_s[g_ns];
    s.used = true, s.stream = stream, s.fam = fam, s.fd = fd, s.peer = -1;
    s.fin_at = s.rst_at = FOREVER;
    return g_ns++;
}

// ---- state --------------------------------------------------------------------------------------
static void settle(Sock &s)
{
    if (s.state == ST_CONNECTING && g_now >= s.est_at)
    {
        if (s.conn_result)
        {
            s.state = ST_FAILED, s.so_error = s.conn_result;
            s.stat[SN_CONN_FAILED] = s.conn_result;
            s.conn_result = 0;
        }
        else s.state = ST_CONNECTED, s.stat[SN_ESTABLISHED] = 1;
    }
    if (s.rst_at <= g_now && (s.state == ST_CONNECTED))
    {
        s.state = ST_RESET, s.so_error = s.fin_at <= g_now ? EPIPE : ECONNRESET;
        s.stat[SN_RESET] = 1;
    }
}
static uint64_t arrived(Sock &s) // bytes that can be read
{
    while (s.stail != s.shead && s.seg[s.stail % MAXSEG].end <= s.tail) ++s.stail;
    uint64_t end = s.tail;
    for (uint32_t i = s.stail; i != s.shead; ++i)
    {
        Seg const &g = s.seg[i % MAXSEG];
        if (g.at > g_now) break;
        end = g.end;
    }
    return end - s.tail;
}
static int due_backlog(Sock &s)
{
    for (int i = 0; i < s.nback; ++i)
        if (s.back_at[i] <= g_now) return i;
    return -1;
}
static int due_dgram(Sock &s)
{
    int best = -1;
    for (int i = 0; i < s.nq; ++i)
        if (g_d[s.q[i]].at <= g_now && (best < 0 || g_d[s.q[i]].at < g_d[s.q[best]].at)) best = i;
    return best;
}
static uint64_t room(Sock &s) // bytes that can be sent
{
    if (s.peer < 0) return 0;
    Sock &p = g_s[s.peer];
    if (p.closed) return g_cap; // accepted, and answered by a reset
    uint64_t const used = p.head - p.tail;
    if (p.shead - p.stail >= MAXSEG - 64) return 0;
    return used >= g_cap ? 0 : g_cap - used;
}
static int revents(Sock &s)
{
    settle(s);
    int r = 0;
    if (!s.stream)
    {
        if (due_dgram(s) >= 0) r |= POLLIN;
        return r | POLLOUT;
    }
    switch (s.state)
    {
        case ST_NEW: return POLLOUT | POLLHUP | POLLIN;
        case ST_LISTEN: return due_backlog(s) >= 0 ? POLLIN : 0;
        case ST_CONNECTING: return 0;
        case ST_FAILED:
        case ST_RESET: return POLLIN | POLLOUT | POLLERR | POLLHUP;
        default: break;
    }
    if (arrived(s)) r |= POLLIN;
    else if (s.fin_at <= g_now && s.head == s.tail) r |= POLLIN;
    if (room(s) > g_cap / 3 || (s.peer >= 0 && g_s[s.peer].closed)) r |= POLLOUT;
    return r;
}
int64_t net_next_event() // next moment at which something may become ready by itself
{
    int64_t next = FOREVER;
    auto add = [&](int64_t at) { if (at > g_now && at < next) next = at; };
    for (int i = 0; i < g_ns; ++i)
    {
        Sock &s = g_s[i];
        if (s.closed) continue;
        if (s.state == ST_CONNECTING) add(s.est_at);
        if (s.fin_at != FOREVER) add(s.fin_at);
        if (s.rst_at != FOREVER) add(s.rst_at);
        for (uint32_t k = s.stail; k != s.shead; ++k) if (s.seg[k % MAXSEG].at > g_now) { add(s.seg[k % MAXSEG].at); break; }
        for (int k = 0; k < s.nback; ++k) add(s.back_at[k]);
        for (int k = 0; k < s.nq; ++k) add(g_d[s.q[k]].at);
    }
    return next;
}
static void wait_event(int64_t deadline = FOREVER)
{
    int64_t next = net_next_event();
    block_on(W_POLL, nullptr, next < deadline ? next : deadline);
}
static int64_t delay()
{
    static int64_t const d[] = {0, 50000, 1000000, 12000000, 60000000, 400000000};
    int const r = (int)fault_decide(SF_NET_DELAY, 6);
    return r ? g_lat + d[r - 1] : g_lat;
}
static void reset_peer(Sock &s, int64_t at)
{
    if (s.peer < 0) return;
    Sock &p = g_s[s.peer];
    if (at < p.last_at) at = p.last_at;
    if (at < p.rst_at) p.rst_at = at;
}
int net_poll_revents(int fd, int events)
{
    int const r = revents(g_s[g_of[fd] - 1]);
    return r & (events | POLLERR | POLLHUP);
}

// ---- addresses ----------------------------------------------------------------------------------
static bool from_sockaddr(int fam, struct sockaddr const *a, socklen_t n, Addr &out)
{
    memset(&out, 0, sizeof out);
    if (fam == AF_INET)
    {
        struct sockaddr_in const *in = (struct sockaddr_in const *)a;
        if (n < sizeof *in || in->sin_family != AF_INET) return false;
        memcpy(out.ip, &in->sin_addr, 4);
        out.port = ntohs(in->sin_port);
        return true;
    }
    struct sockaddr_in6 const *in = (struct sockaddr_in6 const *)a;
    if (n < sizeof *in || in->sin6_family != AF_INET6) return false;
    memcpy(out.ip, &in->sin6_addr, 16);
    out.port = ntohs(in->sin6_port);
    return true;
}
static void to_sockaddr(int fam, Addr const &a, struct sockaddr *o, socklen_t *n)
{
    if (!o || !n) return;
    struct sockaddr_in in4;
    struct sockaddr_in6 in6;
    void *src;
    socklen_t len;
    if (fam == AF_INET)
    {
        memset(&in4, 0, sizeof in4);
        in4.sin_family = AF_INET;
        memcpy(&in4.sin_addr, a.ip, 4);
        in4.sin_port = htons(a.port);
        src = &in4, len = sizeof in4;
    }
    else
    {
        memset(&in6, 0, sizeof in6);
        in6.sin6_family = AF_INET6;
        memcpy(&in6.sin6_addr, a.ip, 16);
        in6.sin6_port = htons(a.port);
        src = &in6, len = sizeof in6;
    }
    memcpy(o, src, *n < len ? *n : len);
    *n = len;
}
static bool any(Addr const &a) { for (uint8_t b : a.ip) if (b) return false; return true; }
static void loopback(int fam, Addr &a) // the address used when none is given
{
    memset(a.ip, 0, 16);
    if (fam == AF_INET) a.ip[0] = 127, a.ip[3] = 1;
    else a.ip[15] = 1;
}
static int find_bound(int fam, bool stream, Addr const &a, bool listening)
{
    for (int i = 0; i < g_ns; ++i)
    {
        Sock &s = g_s[i];
        if (s.closed || !s.bound || s.fam != fam || s.stream != stream || s.local.port != a.port || (listening && s.state != ST_LISTEN)) continue;
        if (s.stream && s.peer >= 0) continue;
        if (any(s.local) || any(a) || !memcmp(s.local.ip, a.ip, 16)) return i;
    }
    return -1;
}
// The port of a connection that this side closed first stays in use for a while (TIME_WAIT).
struct Linger { int fam; Addr local; bool reuse; int64_t until; };
static Linger g_linger[1024];
static int g_nlinger;
static bool same_address(Addr const &a, Addr const &b) { return a.port == b.port && (any(a) || any(b) || !memcmp(a.ip, b.ip, 16)); }
static bool bind_conflict(Sock &s, Addr const &a)
{
    for (int i = 0; i < g_ns; ++i)
    {
        Sock &o = g_s[i];
        if (&o == &s || o.closed || !o.bound || o.fam != s.fam || o.stream != s.stream || !same_address(o.local, a)) continue;
        if (o.stream && o.peer >= 0)
        {
            settle(o);
            if (o.state != ST_CONNECTED) continue;
        }
        if (!(s.reuse && o.reuse && o.state != ST_LISTEN)) return true;
    }
    for (int i = 0; s.stream && i < g_nlinger; ++i)
    {
        Linger const &l = g_linger[i];
        if (l.until > g_now && l.fam == s.fam && same_address(l.local, a) && !(s.reuse && l.reuse)) return true;
    }
    return false;
}
static void linger(Sock const &s)
{
    int i = 0;
    while (i < g_nlinger && g_linger[i].until > g_now) ++i;
    if (i == 1024) return;
    if (i == g_nlinger) ++g_nlinger;
    g_linger[i] = {s.fam, s.local, s.reuse, g_now + 60000000000LL};
}
static void auto_bind(Sock &s)
{
    if (s.bound) return;
    s.bound = true;
    s.local.port = g_port++;
    if (s.stream) loopback(s.fam, s.local);
}

// ---- calls --------------------------------------------------------------------------------------
extern "C" int socket(int fam, int type, int proto) noexcept
{
    Thread *t = self();
    if (!t) return (int)sys(SYS_socket, fam, type, proto);
    sched_point(100, nullptr);
    if (fault_decide(SF_NET_ERR, 1)) { errno = EMFILE; return -1; }
    int const i = new_sock(fam, (type & 0xf) == SOCK_STREAM, true);
    g_s[i].nonblock = type & SOCK_NONBLOCK;
    trace("socket -> fd %d (socket %d)", g_s[i].fd, i + 1);
    return g_s[i].fd;
}

int net_close(int fd)
{
    sched_point(101, nullptr);
    if (!net_is_fd(fd)) { bad_use(fd, "close"); errno = EBADF; return -1; }
    Sock &s = g_s[g_of[fd] - 1];
    trace("close fd %d (socket %d)", fd, g_of[fd]);
    settle(s);
    s.closed = true;
    s.stat[SN_CLOSES]++;
    ++g_closed;
    g_of[fd] = 0;
    g_was[fd] = true;
    sys(SYS_close, fd);
    if (s.stream)
    {
        if (s.state == ST_LISTEN)
        {
            for (int i = 0; i < s.nback; ++i)
            {
                Sock &c = g_s[s.back[i]]; // the server's side of a connection nobody accepted
                c.closed = true;
                Sock &p = g_s[c.peer];
                if (p.state == ST_CONNECTING && s.back_at[i] > g_now) p.conn_result = ECONNREFUSED;
                else reset_peer(c, g_now + g_lat);
            }
            s.nback = 0;
        }
        else if (s.peer >= 0)
        {
            Sock &p = g_s[s.peer];
            if (s.head != s.tail || s.state == ST_CONNECTING) reset_peer(s, g_now + delay());
            else if (p.fin_at == FOREVER)
            {
                int64_t at = g_now + delay();
                if (at < p.last_at) at = p.last_at;
                p.fin_at = p.last_at = at;
                if (s.state == ST_CONNECTED && s.fin_at > g_now) linger(s);
            }
        }
    }
    else
    {
        for (int i = 0; i < s.nq; ++i) g_d[s.q[i]].used = false;
        s.nq = 0;
    }
    wake_pollers();
    return 0;
}

extern "C" int bind(int fd, struct sockaddr const *a, socklen_t n) noexcept
{
    Thread *t = self();
    if (!t) return (int)sys(SYS_bind, fd, (long)a, n);
    sched_point(102, nullptr);
    Sock *s = get(fd, "bind");
    if (!s) return -1;
    Addr ad;
    if (!from_sockaddr(s->fam, a, n, ad)) { errno = EAFNOSUPPORT; return -1; }
    if (fault_decide(SF_NET_ERR, 1)) { errno = EADDRINUSE; return -1; }
    if (s->bound) { errno = EINVAL; return -1; }
    if (ad.port == 0) ad.port = g_port++;
    else
    {
        if (bind_conflict(*s, ad)) { errno = EADDRINUSE; return -1; }
    }
    s->local = ad, s->bound = true;
    return 0;
}
extern "C" int listen(int fd, int n) noexcept
{
    Thread *t = self();
    if (!t) return (int)sys(SYS_listen, fd, n);
    sched_point(103, nullptr);
    Sock *s = get(fd, "listen");
    if (!s) return -1;
    if (!s->stream) { errno = EOPNOTSUPP; return -1; }
    if (fault_decide(SF_NET_ERR, 1)) { errno = EADDRINUSE; return -1; }
    if (s->state != ST_NEW && s->state != ST_LISTEN) { errno = EINVAL; return -1; }
    auto_bind(*s);
    for (int i = 0; s->state == ST_NEW && i < g_ns; ++i)
        if (Sock &o = g_s[i]; &o != s && !o.closed && o.state == ST_LISTEN && o.fam == s->fam && same_address(o.local, s->local)) { errno = EADDRINUSE; return -1; }
    s->state = ST_LISTEN;
    s->maxback = n > MAXBACK ? MAXBACK : n < 1 ? 1 : n;
    return 0;
}
static int do_connect(int fd, struct sockaddr const *a, socklen_t n)
{
    Sock *s = get(fd, "connect");
    if (!s) return -1;
    settle(*s);
    Addr ad;
    if (!from_sockaddr(s->fam, a, n, ad)) { errno = EAFNOSUPPORT; return -1; }
    if (!s->stream) { s->remote = ad; return 0; }
    if (s->state == ST_CONNECTING) { errno = EALREADY; return -1; }
    if (s->state == ST_CONNECTED) { errno = EISCONN; return -1; }
    if (s->state == ST_LISTEN) { errno = EISCONN; return -1; }
    if (s->state != ST_NEW) { errno = ECONNABORTED; return -1; }
    auto_bind(*s);
    s->remote = ad;
    int const f = (int)fault_decide(SF_NET_REFUSE, 4);
    if (f == 3) { errno = ENETUNREACH; s->stat[SN_CONN_FAILED] = ENETUNREACH; return -1; }
    s->state = ST_CONNECTING;
    int64_t const d = delay();
    s->est_at = g_now + d * 2;
    s->conn_result = 0;
    if (f == 1) s->conn_result = ECONNREFUSED;
    else if (f == 2) s->conn_result = ETIMEDOUT, s->est_at = g_now + 3000000000LL;
    else if (f == 4) s->conn_result = EHOSTUNREACH, s->est_at = g_now + 50000000LL;
    else
    {
        int const l = find_bound(s->fam, true, ad, true);
        if (l < 0) s->conn_result = ECONNREFUSED;
        else if (g_s[l].nback >= g_s[l].maxback) s->conn_result = ETIMEDOUT, s->est_at = g_now + 3000000000LL;
        else
        {
            int const c = new_sock(s->fam, true, false);
            Sock &srv = g_s[c];
            srv.state = ST_CONNECTED;
            srv.bound = true;
            srv.reuse = g_s[l].reuse;
            srv.peer = index_of(*s);
            srv.local = ad;
            if (any(srv.local)) { uint16_t const p = srv.local.port; loopback(s->fam, srv.local); srv.local.port = p; s->remote = srv.local; }
            srv.remote = s->local;
            s->peer = c;
            g_s[l].back[g_s[l].nback] = c;
            g_s[l].back_at[g_s[l].nback++] = g_now + d;
        }
    }
    if (s->conn_result == 0 && d == 0) s->state = ST_CONNECTED, s->stat[SN_ESTABLISHED] = 1;
    trace("connect fd %d (socket %d): result %d after %ld ns", fd, index_of(*s) + 1, s->conn_result, (long)(s->est_at - g_now));
    wake_pollers();
    if (s->state == ST_CONNECTED) return 0;
    if (s->nonblock) { errno = EINPROGRESS; return -1; }
    int const me = index_of(*s);
    while (settle(*s), s->state == ST_CONNECTING)
    {
        if (fault_decide(SF_EINTR, 1)) { errno = EINTR; return -1; }
        wait_event();
        if (g_s[me].closed) { errno = EBADF; return -1; }
    }
    if (s->state == ST_FAILED) { errno = s->so_error; s->so_error = 0; return -1; }
    return 0;
}
extern "C" int connect(int fd, struct sockaddr const *a, socklen_t n)
{
    Thread *t = self();
    if (!t) return (int)sys(SYS_connect, fd, (long)a, n);
    sched_point(104, nullptr);
    return do_connect(fd, a, n);
}
extern "C" int accept4(int fd, struct sockaddr *a, socklen_t *n, int flags)
{
    Thread *t = self();
    if (!t) return (int)sys(SYS_accept4, fd, (long)a, (long)n, flags);
    sched_point(105, nullptr);
    Sock *s = get(fd, "accept");
    if (!s) return -1;
    if (s->state != ST_LISTEN) { errno = EINVAL; return -1; }
    int const me = index_of(*s);
    if (int r = (int)fault_decide(SF_NET_ERR, 2)) { s->stat[SN_ERRORS]++; errno = r == 1 ? EMFILE : ECONNABORTED; return -1; }
    if (s->nonblock && fault_decide(SF_NET_AGAIN, 1)) { errno = EAGAIN; return -1; }
    int b;
    while ((b = due_backlog(*s)) < 0)
    {
        if (s->nonblock) { errno = EAGAIN; return -1; }
        wait_event();
        if (g_s[me].closed) { errno = EBADF; return -1; }
    }
    int const c = s->back[b];
    for (int i = b; i + 1 < s->nback; ++i) s->back[i] = s->back[i + 1], s->back_at[i] = s->back_at[i + 1];
    --s->nback;
    Sock &x = g_s[c];
    x.stat[SN_ESTABLISHED] = 1;
    s->stat[SN_ACCEPTED]++;
    int nfd = (int)sys(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDONLY);
    if (nfd >= 0 && g_fd_base > nfd)
    {
        int const hi = (int)sys(SYS_fcntl, nfd, F_DUPFD, g_fd_base);
        sys(SYS_close, nfd);
        nfd = hi;
    }
    if (nfd < 0 || nfd >= MAXFD) sim_fail("resource:descriptors", "no descriptor is left for a socket");
    x.fd = nfd;
    x.nonblock = flags & SOCK_NONBLOCK;
    g_of[nfd] = (int16_t)(c + 1);
    g_was[nfd] = false;
    ++g_created;
    to_sockaddr(s->fam, x.remote, a, n);
    if (a && n) range_access(a, *n, true, (uintptr_t)__builtin_return_address(0));
    trace("accept fd %d -> fd %d (socket %d, peer %d)", fd, nfd, c + 1, x.peer + 1);
    return nfd;
}
extern "C" int accept(int fd, struct sockaddr *a, socklen_t *n) { return accept4(fd, a, n, 0); }

static void do_reset(Sock &s)
{
    s.rst_at = g_now;
    settle(s);
    reset_peer(s, g_now + g_lat);
    wake_pollers();
}
static ssize_t stream_send(Sock &s, void const *buf, size_t n)
{
    size_t done = 0;
    int const me = index_of(s);
    for (;;)
    {
        settle(s);
        if (g_s[me].closed) { errno = EBADF; return -1; }
        if (s.state == ST_NEW || s.state == ST_LISTEN) { errno = EPIPE; s.stat[SN_ERRORS]++; return -1; }
        if (s.state == ST_CONNECTING)
        {
            if (s.nonblock) { errno = EAGAIN; return -1; }
            wait_event();
            continue;
        }
        if (s.state == ST_CONNECTED && fault_decide(SF_NET_RESET, 1)) do_reset(s);
        if (s.state == ST_CONNECTED && fault_decide(SF_NET_ERR, 1)) { errno = ENOBUFS; s.stat[SN_ERRORS]++; return done ? (ssize_t)done : -1; }
        if (s.state != ST_CONNECTED)
        {
            s.stat[SN_ERRORS]++;
            if (done) return (ssize_t)done;
            errno = s.so_error ? s.so_error : EPIPE;
            s.so_error = 0;
            return -1;
        }
        if (n == 0) return 0;
        if (s.nonblock && fault_decide(SF_NET_AGAIN, 1)) { errno = EAGAIN; return -1; }
        uint64_t r = room(s);
        if (r == 0)
        {
            if (s.nonblock) { errno = EAGAIN; return -1; }
            wait_event();
            continue;
        }
        size_t m = n - done < r ? n - done : (size_t)r;
        if (s.nonblock && m > 1) if (int f = (int)fault_decide(SF_NET_PARTIAL, 3)) m = f == 1 ? 1 : f == 2 ? m / 2 : m - 1;
        Sock &p = g_s[s.peer];
        if (p.closed)
        {
            // Nobody is there: the data is lost, and a reset comes back.
            reset_peer(p, g_now + 2 * g_lat);
            s.stat[SN_LOST] += (int64_t)m;
        }
        else
        {
            uint8_t const *src = (uint8_t const *)buf + done;
            size_t left = m;
            while (left)
            {
                size_t const k = left < g_mss ? left : g_mss;
                for (size_t i = 0; i < k; ++i) p.buf[(p.head + i) % CAP] = src[i];
                p.head += k, src += k, left -= k;
                int64_t at = g_now + delay();
                if (at < p.last_at) at = p.last_at;
                p.last_at = at;
                if (p.shead - p.stail >= MAXSEG - 1) p.seg[(p.shead - 1) % MAXSEG] = {p.head, at};
                else p.seg[p.shead++ % MAXSEG] = {p.head, at};
            }
        }
        s.stat[SN_SENT] += (int64_t)m;
        done += m;
        wake_pollers();
        if (s.nonblock || done == n) return (ssize_t)done;
    }
}
static ssize_t stream_recv(Sock &s, void *buf, size_t n)
{
    int const me = index_of(s);
    for (;;)
    {
        settle(s);
        if (g_s[me].closed) { errno = EBADF; return -1; }
        if (s.state == ST_NEW || s.state == ST_LISTEN) { errno = ENOTCONN; s.stat[SN_ERRORS]++; return -1; }
        if (s.state == ST_CONNECTED && fault_decide(SF_NET_RESET, 1)) do_reset(s);
        if (s.state == ST_CONNECTED && fault_decide(SF_NET_ERR, 1)) { errno = ENOMEM; s.stat[SN_ERRORS]++; return -1; }
        if (s.nonblock && s.state == ST_CONNECTED && fault_decide(SF_NET_AGAIN, 1)) { errno = EAGAIN; return -1; }
        uint64_t const have = arrived(s);
        if (have)
        {
            size_t m = n < have ? n : (size_t)have;
            if (m > 1) if (int f = (int)fault_decide(SF_NET_PARTIAL, 3)) m = f == 1 ? 1 : f == 2 ? m / 2 : m - 1;
            for (size_t i = 0; i < m; ++i) ((uint8_t *)buf)[i] = s.buf[(s.tail + i) % CAP];
            s.tail += m;
            s.stat[SN_RECEIVED] += (int64_t)m;
            wake_pollers();
            return (ssize_t)m;
        }
        if (s.state == ST_FAILED || s.state == ST_RESET)
        {
            s.stat[SN_ERRORS]++;
            if (s.so_error) { errno = s.so_error; s.so_error = 0; return -1; }
            return 0;
        }
        if (s.fin_at <= g_now && s.head == s.tail) { s.stat[SN_EOF] = 1; return 0; }
        if (s.nonblock) { errno = EAGAIN; return -1; }
        wait_event();
    }
}
static ssize_t dgram_send(Sock &s, void const *buf, size_t n, Addr const *to)
{
    auto_bind(s);
    if (!to) { if (!s.remote.port) { errno = EDESTADDRREQ; return -1; } to = &s.remote; }
    if (n > DGRAM) { errno = EMSGSIZE; s.stat[SN_ERRORS]++; return -1; }
    if (fault_decide(SF_NET_ERR, 1)) { errno = ENETUNREACH; s.stat[SN_ERRORS]++; return -1; }
    if (s.nonblock && fault_decide(SF_NET_AGAIN, 1)) { errno = EAGAIN; return -1; }
    uint64_t const tag = ++g_dtag;
    s.stat[SN_SENT]++;
    int const d = find_bound(s.fam, false, *to, false);
    if (d < 0) { trace("datagram %lu: nobody there", (unsigned long)tag); return (ssize_t)n; }
    if (fault_decide(SF_NET_DROP, 1)) { trace("datagram %lu lost", (unsigned long)tag); return (ssize_t)n; }
    int copies = fault_decide(SF_NET_DUP, 1) ? 2 : 1;
    Sock &p = g_s[d];
    for (int c = 0; c < copies; ++c)
    {
        if (p.nq == MAXQ) { trace("datagram %lu: queue full", (unsigned long)tag); break; }
        int i = 0;
        while (i < MAXD && g_d[i].used) ++i;
        if (i == MAXD) break;
        Dgram &g = g_d[i];
        g.used = true;
        int64_t at = g_now + delay();
        if (int r = (int)fault_decide(SF_NET_REORDER, 3)) at += r * 7000000LL;
        else if (at < p.last_at) at = p.last_at;
        if (at > p.last_at && !fault_decide(SF_NET_REORDER, 1)) p.last_at = at;
        g.at = at;
        g.from = s.local;
        if (any(g.from)) { loopback(s.fam, g.from); }
        g.from.port = s.local.port;
        g.n = (int)n;
        g.tag = tag;
        memcpy(g.data, buf, n);
        p.q[p.nq++] = i;
        p.stat[SN_DELIVERED]++;
    }
    wake_pollers();
    return (ssize_t)n;
}
static ssize_t dgram_recv(Sock &s, void *buf, size_t n, Addr *from)
{
    int const me = index_of(s);
    for (;;)
    {
        if (g_s[me].closed) { errno = EBADF; return -1; }
        if (fault_decide(SF_NET_ERR, 1)) { errno = ENOMEM; s.stat[SN_ERRORS]++; return -1; }
        if (s.nonblock && fault_decide(SF_NET_AGAIN, 1)) { errno = EAGAIN; return -1; }
        int const k = due_dgram(s);
        if (k >= 0)
        {
            Dgram &g = g_d[s.q[k]];
            size_t const m = (size_t)g.n < n ? (size_t)g.n : n;
            memcpy(buf, g.data, m);
            if (from) *from = g.from;
            g.used = false;
            for (int i = k; i + 1 < s.nq; ++i) s.q[i] = s.q[i + 1];
            --s.nq;
            s.stat[SN_RECEIVED]++;
            return (ssize_t)m;
        }
        if (s.nonblock) { errno = EAGAIN; return -1; }
        wait_event();
    }
}

extern "C" ssize_t sendto(int fd, void const *buf, size_t n, int flags, struct sockaddr const *a, socklen_t al)
{
    Thread *t = self();
    if (!t) return sys(SYS_sendto, fd, (long)buf, (long)n, flags, (long)a);
    sched_point(106, nullptr);
    range_access(buf, n, false, (uintptr_t)__builtin_return_address(0));
    Sock *s = get(fd, "send");
    if (!s) return -1;
    if (s->stream)
    {
        settle(*s);
        ssize_t const r = stream_send(*s, buf, n);
        if (r < 0 && errno == EPIPE && !(flags & MSG_NOSIGNAL))
            sim_fail("crash:sigpipe", "a send without MSG_NOSIGNAL on a broken connection raises SIGPIPE, which ends the process");
        trace("send fd %d (socket %d) %zu -> %zd", fd, index_of(*s) + 1, n, r);
        return r;
    }
    Addr ad;
    if (a && !from_sockaddr(s->fam, a, al, ad)) { errno = EAFNOSUPPORT; return -1; }
    ssize_t const r = dgram_send(*s, buf, n, a ? &ad : nullptr);
    trace("sendto fd %d (socket %d) %zu -> %zd", fd, index_of(*s) + 1, n, r);
    return r;
}
extern "C" ssize_t send(int fd, void const *buf, size_t n, int flags) { return sendto(fd, buf, n, flags, nullptr, 0); }
extern "C" ssize_t recvfrom(int fd, void *__restrict buf, size_t n, int flags, struct sockaddr *__restrict a, socklen_t *__restrict al)
{
    Thread *t = self();
    if (!t) return sys(SYS_recvfrom, fd, (long)buf, (long)n, flags, (long)a);
    sched_point(107, nullptr);
    Sock *s = get(fd, "recv");
    if (!s) return -1;
    ssize_t r;
    if (s->stream) r = stream_recv(*s, buf, n);
    else
    {
        Addr from;
        memset(&from, 0, sizeof from);
        r = dgram_recv(*s, buf, n, &from);
        if (r >= 0) to_sockaddr(s->fam, from, a, al);
    }
    if (r > 0) range_access(buf, (size_t)r, true, (uintptr_t)__builtin_return_address(0));
    trace("recv fd %d (socket %d) %zu -> %zd", fd, index_of(*s) + 1, n, r);
    return r;
}
extern "C" ssize_t recv(int fd, void *buf, size_t n, int flags) { return recvfrom(fd, buf, n, flags, nullptr, nullptr); }
ssize_t net_read(int fd, void *buf, size_t n) { return recvfrom(fd, buf, n, 0, nullptr, nullptr); }
ssize_t net_write(int fd, void const *buf, size_t n) { return sendto(fd, buf, n, 0, nullptr, 0); }

extern "C" int shutdown(int fd, int how) noexcept
{
    Thread *t = self();
    if (!t) return (int)sys(SYS_shutdown, fd, how);
    sched_point(108, nullptr);
    Sock *s = get(fd, "shutdown");
    if (!s) return -1;
    if (s->peer < 0 || s->state != ST_CONNECTED) { errno = ENOTCONN; return -1; }
    if (how != SHUT_RD)
    {
        Sock &p = g_s[s->peer];
        int64_t at = g_now + delay();
        if (at < p.last_at) at = p.last_at;
        if (p.fin_at == FOREVER) p.fin_at = p.last_at = at;
    }
    wake_pollers();
    return 0;
}
extern "C" int getsockopt(int fd, int level, int opt, void *__restrict v, socklen_t *__restrict n) noexcept
{
    Thread *t = self();
    if (!t) return (int)sys(SYS_getsockopt, fd, level, opt, (long)v, (long)n);
    sched_point(109, nullptr);
    Sock *s = get(fd, "getsockopt");
    if (!s) return -1;
    settle(*s);
    if (level == SOL_SOCKET && opt == SO_ERROR && *n >= sizeof(int)) { *(int *)v = s->so_error; s->so_error = 0; return 0; }
    errno = ENOPROTOOPT;
    return -1;
}
extern "C" int setsockopt(int fd, int level, int opt, void const *v, socklen_t n) noexcept
{
    Thread *t = self();
    if (!t) return (int)sys(SYS_setsockopt, fd, level, opt, (long)v, n);
    sched_point(110, nullptr);
    Sock *s = get(fd, "setsockopt");
    if (!s) return -1;
    if (level == SOL_SOCKET && opt == SO_REUSEADDR && n >= sizeof(int)) s->reuse = *(int const *)v;
    return 0;
}
extern "C" int getsockname(int fd, struct sockaddr *__restrict a, socklen_t *__restrict n) noexcept
{
    Thread *t = self();
    if (!t) return (int)sys(SYS_getsockname, fd, (long)a, (long)n);
    sched_point(111, nullptr);
    Sock *s = get(fd, "getsockname");
    if (!s) return -1;
    to_sockaddr(s->fam, s->local, a, n);
    return 0;
}
extern "C" int getpeername(int fd, struct sockaddr *__restrict a, socklen_t *__restrict n) noexcept
{
    Thread *t = self();
    if (!t) return (int)sys(SYS_getpeername, fd, (long)a, (long)n);
    sched_point(112, nullptr);
    Sock *s = get(fd, "getpeername");
    if (!s) return -1;
    settle(*s);
    if (s->state != ST_CONNECTED) { errno = ENOTCONN; return -1; }
    to_sockaddr(s->fam, s->remote, a, n);
    return 0;
}
static int do_fcntl(int fd, int cmd, long arg)
{
    Thread *t = self();
    if (!t || (!net_is_fd(fd) && !(fd >= 0 && fd < MAXFD && g_was[fd]))) return (int)sys(SYS_fcntl, fd, cmd, arg);
    sched_point(113, nullptr);
    Sock *s = get(fd, "fcntl");
    if (!s) return -1;
    if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { s->nonblock = arg & O_NONBLOCK; return 0; }
    if (cmd == F_GETFD || cmd == F_SETFD) return 0;
    errno = EINVAL;
    return -1;
}
extern "C" int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    return do_fcntl(fd, cmd, arg);
}
extern "C" int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    return do_fcntl(fd, cmd, arg);
}

extern "C" int select(int nfds, fd_set *__restrict r, fd_set *__restrict w, fd_set *__restrict e, struct timeval *__restrict tv)
{
    Thread *t = self();
    if (!t) return (int)sys(SYS_select, nfds, (long)r, (long)w, (long)e, (long)tv);
    sched_point(114, nullptr);
    ++g_selects;
    if (tv && (tv->tv_sec < 0 || tv->tv_usec < 0)) { errno = EINVAL; return -1; }
    if (fault_decide(SF_POLL_FAIL, 1)) { errno = EINTR; return -1; }
    // The kernel reads as many bits as asked for, whatever the type's size.
    static constexpr int MAXW = MAXFD / 64;
    if (nfds > MAXFD) nfds = MAXFD;
    int const words = (nfds + 63) / 64;
    static __thread uint64_t rin[MAXW], win[MAXW], rout[MAXW], wout[MAXW];
    size_t const bytes = (size_t)words * 8;
    if (r) { range_access(r, bytes, true, (uintptr_t)__builtin_return_address(0)); memcpy(rin, r, bytes); } else memset(rin, 0, bytes);
    if (w) { range_access(w, bytes, true, (uintptr_t)__builtin_return_address(0)); memcpy(win, w, bytes); } else memset(win, 0, bytes);
    int64_t const dl = tv ? g_now + tv->tv_sec * 1000000000LL + tv->tv_usec * 1000LL : FOREVER;
    bool spurious_asked = false;
    for (;;)
    {
        int n = 0;
        memset(rout, 0, bytes);
        memset(wout, 0, bytes);
        for (int fd = 0; fd < nfds; ++fd)
        {
            bool const wr = rin[fd / 64] >> (fd % 64) & 1, ww = win[fd / 64] >> (fd % 64) & 1;
            if (!wr && !ww) continue;
            if (!net_is_fd(fd))
            {
                if ((int)sys(SYS_fcntl, fd, F_GETFD) == -1) { trace("select: descriptor %d is closed", fd); errno = EBADF; return -1; }
                continue; // another kind of file: not modelled, never ready
            }
            Sock &s = g_s[g_of[fd] - 1];
            int rev = revents(s);
            if (wr && !(rev & (POLLIN | POLLERR | POLLHUP)) && !spurious_asked && (s.state == ST_CONNECTED || s.state == ST_LISTEN || !s.stream) &&
                fault_decide(SF_SELECT_SPUR, 1))
                rev |= POLLIN;
            if (wr && (rev & (POLLIN | POLLERR | POLLHUP))) rout[fd / 64] |= 1UL << (fd % 64), ++n;
            if (ww && (rev & (POLLOUT | POLLERR))) wout[fd / 64] |= 1UL << (fd % 64), ++n;
        }
        spurious_asked = true;
        if (n || g_now >= dl)
        {
            if (n) if (int d = (int)fault_decide(SF_POLL_DELAY, 3)) // readiness is noticed late
            {
                static int64_t const late[] = {200000, 5000000, 40000000};
                block_on(W_SLEEP, nullptr, g_now + late[d - 1]);
            }
            if (r) memcpy(r, rout, bytes);
            if (w) memcpy(w, wout, bytes);
            if (e) memset(e, 0, bytes);
            return n;
        }
        wait_event(dl);
    }
}

// ---- names --------------------------------------------------------------------------------------
extern "C" int getaddrinfo(char const *__restrict node, char const *__restrict, struct addrinfo const *__restrict hints, struct addrinfo **__restrict res)
{
    Thread *t = self();
    if (t) sched_point(115, nullptr);
    int const fam = hints ? hints->ai_family : AF_INET;
    uint8_t ip[16] = {};
    bool ok = inet_pton(fam, node, ip) == 1;
    if (!ok && !strcmp(node, "localhost"))
    {
        ok = true;
        if (fam == AF_INET) ip[0] = 127, ip[3] = 1;
        else ip[15] = 1;
    }
    for (int i = 0; !ok && i < g_nnames; ++i)
        if (!strcmp(g_names[i].name, node) && fam == AF_INET) { memcpy(ip, &g_names[i].ip, 4); ok = true; }
    if (t && fault_decide(SF_NET_REFUSE, 1)) return EAI_AGAIN;
    if (!ok) return EAI_NONAME;
    struct Block { struct addrinfo ai; struct sockaddr_in6 sa; };
    Block *b = (Block *)calloc(1, sizeof(Block));
    b->ai.ai_family = fam;
    b->ai.ai_socktype = SOCK_STREAM;
    b->ai.ai_addr = (struct sockaddr *)&b->sa;
    socklen_t n = sizeof(struct sockaddr_in6);
    Addr ad;
    memset(&ad, 0, sizeof ad);
    memcpy(ad.ip, ip, 16);
    to_sockaddr(fam, ad, b->ai.ai_addr, &n);
    b->ai.ai_addrlen = n;
    *res = &b->ai;
    return 0;
}
extern "C" void freeaddrinfo(struct addrinfo *a) noexcept { free(a); }
