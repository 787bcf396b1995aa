// N01 - N06: sockets and the socket service, on a simulated network.
#include "quiet_logger.hpp"

#include "fly/net/endpoint.hpp"
#include "fly/net/ipv4_address.hpp"
#include "fly/net/ipv6_address.hpp"
#include "fly/net/network_config.hpp"
#include "fly/net/socket/listen_socket.hpp"
#include "fly/net/socket/socket_service.hpp"
#include "fly/net/socket/tcp_socket.hpp"
#include "fly/net/socket/udp_socket.hpp"
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"

#include <algorithm>
#include <arpa/inet.h>
#include <atomic>
#include <deque>
#include <netinet/in.h>
#include <optional>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

using namespace sim;
using namespace fly::net;
using fly::task::SequencedTaskRunner;
using fly::task::TaskManager;

namespace {

struct NetConf : NetworkConfig
{
    NetConf(std::int64_t wait_us, std::size_t packet)
    {
        m_default_socket_io_wait_time = wait_us;
        m_default_packet_size = packet;
    }
};

using V4 = Endpoint<IPv4Address>;
using V6 = Endpoint<IPv6Address>;

template <typename EP>
EP local(port_type port);
template <>
V4 local<V4>(port_type port) { return V4(IPv4Address::in_addr_loopback(), port); }
template <>
V6 local<V6>(port_type port) { return V6(IPv6Address::in_addr_loopback(), port); }
template <typename EP>
EP any_address(port_type port) { return EP(EP::address_type::in_addr_any(), port); }

// The content of a byte stream / datagram.
char byte_at(std::uint64_t id, std::uint64_t off)
{
    std::uint64_t x = (id * 0x9e3779b97f4a7c15ULL) ^ (off * 0xbf58476d1ce4e5b9ULL + 0x94d049bb133111ebULL);
    x ^= x >> 31;
    x *= 0xd6e8feb86659fd93ULL;
    return static_cast<char>(x >> 40);
}

enum
{
    P_Errors, P_Refused, P_Reset, P_Eof, P_Reuse, P_Early, P_Partial, P_SeveralSends, P_SeveralRecvs, P_HighFd, P_Dropped
};
#define NET_PROBES                                                                                                                                          \
    "fatal_error", "connect_failed", "reset", "end_of_stream", "descriptor_reused", "early_request", \
        "message_above_buffer", "several_sends", "several_receives", "high_descriptors", "dropped_by_close"

struct Rates
{
    int delay = 0, partial = 0, again = 0, reset = 0, refuse = 0, err = 0, spur = 0, poll = 0, pdelay = 0;
};
void set_rates(Rates const &r)
{
    sim_fault_rate(SF_NET_DELAY, r.delay);
    sim_fault_rate(SF_NET_PARTIAL, r.partial);
    sim_fault_rate(SF_NET_AGAIN, r.again);
    sim_fault_rate(SF_NET_RESET, r.reset);
    sim_fault_rate(SF_NET_REFUSE, r.refuse);
    sim_fault_rate(SF_NET_ERR, r.err);
    sim_fault_rate(SF_SELECT_SPUR, r.spur);
    sim_fault_rate(SF_POLL_FAIL, r.poll);
    sim_fault_rate(SF_POLL_DELAY, r.pdelay);
}
// Some kinds of faults are on, some off.
Rates draw_rates(bool errors)
{
    Rates r;
    auto some = [](int hi) { return coin(55) ? static_cast<int>(R(20, static_cast<std::uint64_t>(hi))) : 0; };
    r.delay = some(3000), r.partial = some(4000), r.again = some(3000), r.spur = some(1500), r.poll = some(500), r.pdelay = some(1000);
    if (errors) r.reset = some(200), r.refuse = some(1500), r.err = some(300);
    return r;
}

// ---- asynchronous TCP ---------------------------------------------------------------------------
struct SoupCfg
{
    bool errors = true;      // resets, refusals, failing calls
    bool churn = true;       // sockets are closed and destroyed during the run
    unsigned early_pct = 15; // requests before the connection is established
    int max_clients = 4;
};

template <typename EP>
struct Soup
{
    using Tcp = TcpSocket<EP>;
    using Listen = ListenSocket<EP>;

    struct Req
    {
        std::size_t size = 0;
        int done = 0;
        bool accepted = false;
    };
    struct End
    {
        int index = 0;
        bool server = false;
        std::shared_ptr<Tcp> s;
        std::shared_ptr<std::atomic<int>> published = std::make_shared<std::atomic<int>>(0); // orders the construction of s before its use by other threads
        std::uint64_t id = 0;
        bool connecting = false, connected = false, failed = false, connect_told = false;
        bool closed = false;   // by the harness
        bool topping_up = false;
        bool released = false; // the harness gave up its reference
        std::size_t out_off = 0, sent_ok = 0, got = 0;
        std::vector<Req> sends, recvs;
        std::size_t sends_done = 0, recvs_done = 0;
        bool told_error = false, dropped = false;
        bool chain_send = false; // sends are issued from completions
        int chain_left = 0;
        bool keep_recv = false;  // receives are issued from completions
        bool early = false;
        std::deque<std::string> text;
    };

    SoupCfg cfg;
    std::shared_ptr<TaskManager> manager;
    std::vector<std::shared_ptr<SequencedTaskRunner>> runners;
    std::vector<std::shared_ptr<SocketService>> services;
    std::shared_ptr<NetConf> config;
    std::shared_ptr<Listen> listener;
    std::uint64_t listener_id = 0;
    bool listener_closed = false, accept_told = false;
    std::deque<End> ends;
    int accepts_asked = 0, accepts_done = 0, next_accept = 0;
    int in_callback[2] = {0, 0};
    bool winding_down = false; // no new work from callbacks
    bool stopped = false;
    std::size_t max_message = 4000, buffer = 4000, packet = 1;
    std::uint64_t rnd = 1;
    port_type port = 5000;
    std::vector<int> server_plan; // what accepted sockets do

    std::uint64_t draw(std::uint64_t n) // choices made in callbacks: depend on the run so far, not on a shared generator
    {
        Ignore ig;
        rnd = rnd * 6364136223846793005ULL + 1442695040888963407ULL;
        return n ? (rnd >> 33) % n : 0;
    }

    struct InCallback
    {
        Soup &w;
        int svc;
        InCallback(Soup &s, int i, char const *what) : w(s), svc(i)
        {
            Ignore ig;
            if (w.stopped) sim_fail("oracle:after-stop", "%s completed after the task manager was stopped", what);
            if (++w.in_callback[svc] != 1) sim_fail("oracle:overlap", "%s completed while another completion of the same service was running: not on its task runner", what);
        }
        ~InCallback()
        {
            Ignore ig;
            --w.in_callback[svc];
        }
    };

    int service_of(End const &e) const { return e.server || services.size() == 1 ? 0 : 1; }

    void state_check(End &e)
    {
        if (e.published->load() == 0) return;
        std::shared_ptr<Tcp> s;
        {
            Ignore ig;
            s = e.s;
        }
        if (!s) return;
        bool const open = s->is_open();
        bool const conn = s->is_connected();
        Ignore ig;
        if (!open && conn) sim_fail("oracle:connected-after-close", "socket %d reports to be connected although it is closed", e.index);
        if (conn && sim_net_info(e.id, SN_ESTABLISHED) != 1) sim_fail("oracle:connected-early", "socket %d reports to be connected although no connection was established", e.index);
    }

    // The socket reports a failure: it must have closed itself, and there must be a reason.
    void check_failed(End &e, Tcp &s, char const *what)
    {
        bool const open = s.is_open();
        bool const conn = s.is_connected();
        Ignore ig;
        if (open) sim_fail("oracle:open-after-error", "%s of socket %d failed, but the socket is still open", what, e.index);
        if (conn) sim_fail("oracle:connected-after-close", "%s of socket %d failed, but it reports to be connected", what, e.index);
        if (!e.closed && !e.told_error && !e.failed && sim_net_info(e.id, SN_ERRORS) == 0 && sim_net_info(e.id, SN_EOF) != 1 && sim_net_info(e.id, SN_CONN_FAILED) == 0)
            sim_fail("oracle:false-error", "%s of socket %d failed, but no call on the socket did", what, e.index);
        e.told_error = true;
        sim_probe(sim_net_info(e.id, SN_EOF) == 1 ? P_Eof : P_Errors);
        if (sim_net_info(e.id, SN_RESET)) sim_probe(P_Reset);
    }

    // ---- requests ----
    bool send(End &e, std::size_t n)
    {
        std::shared_ptr<Tcp> s;
        std::string_view view;
        std::size_t r;
        {
            Ignore ig;
            if (!e.s) return false;
            s = e.s;
            std::string m(n, 0);
            for (std::size_t i = 0; i < n; ++i) m[i] = byte_at(e.id, e.out_off + i);
            e.out_off += n;
            e.text.push_back(std::move(m));
            view = e.text.back();
            r = e.sends.size();
            e.sends.push_back({});
            e.sends[r].size = n;
            if (e.sends.size() - e.sends_done > 1) sim_probe(P_SeveralSends);
            if (n > buffer) sim_probe(P_Partial);
            if (!e.connected) sim_probe(P_Early);
            sim_note("socket %d: send request %zu, %zu bytes", e.index, r, n);
        }
        End *ep = &e;
        bool const ok = s->send_async(view, [this, ep, r](std::size_t bytes) { on_send(*ep, r, bytes); });
        Ignore ig;
        e.sends[r].accepted = ok;
        if (!ok) sim_fail("oracle:rejected", "an asynchronous send on socket %d was not accepted", e.index);
        return ok;
    }
    void on_send(End &e, std::size_t r, std::size_t bytes)
    {
        InCallback in(*this, service_of(e), "a send");
        std::shared_ptr<Tcp> s;
        {
            Ignore ig;
            s = e.s;
        }
        bool const open = s && s->is_open();
        bool failed;
        {
            Ignore ig;
            sim_note("socket %d: send request %zu completes, %zu bytes", e.index, r, bytes);
            Req &q = e.sends[r];
            if (++q.done > 1) sim_fail("oracle:completed-twice", "send request %zu of socket %d completed twice", r, e.index);
            // A socket that is closed drops its requests; later ones are told so.
            if (r != e.sends_done && open) sim_fail("oracle:completion-order", "send request %zu of socket %d completed before request %zu", r, e.index, e.sends_done);
            if (r != e.sends_done) e.dropped = true;
            e.sends_done = r + 1;
            if (bytes > q.size) sim_fail("oracle:result", "a send of %zu bytes on socket %d reports %zu bytes", q.size, e.index, bytes);
            e.sent_ok += bytes;
            if (e.dropped ? static_cast<std::int64_t>(e.sent_ok) > sim_net_info(e.id, SN_SENT) : static_cast<std::int64_t>(e.sent_ok) != sim_net_info(e.id, SN_SENT))
                sim_fail("oracle:result", "the completed sends of socket %d report %zu bytes, but %ld were sent", e.index, e.sent_ok, (long)sim_net_info(e.id, SN_SENT));
            failed = bytes < q.size;
        }
        if (failed && s) check_failed(e, *s, "a send");
        bool again = false;
        std::size_t n = 0;
        {
            Ignore ig;
            if (!failed && e.chain_send && e.chain_left > 0 && !winding_down)
            {
                --e.chain_left;
                again = true;
                n = 1 + draw(max_message);
            }
        }
        if (again) send(e, n);
    }
    bool receive(End &e)
    {
        std::shared_ptr<Tcp> s;
        std::size_t r;
        {
            Ignore ig;
            if (!e.s) return false;
            s = e.s;
            r = e.recvs.size();
            e.recvs.push_back({});
            if (e.recvs.size() - e.recvs_done > 1) sim_probe(P_SeveralRecvs);
            if (!e.connected) sim_probe(P_Early);
            sim_note("socket %d: receive request %zu", e.index, r);
        }
        End *ep = &e;
        bool const ok = s->receive_async([this, ep, r](std::string data) { on_receive(*ep, r, std::move(data)); });
        Ignore ig;
        e.recvs[r].accepted = ok;
        if (!ok) sim_fail("oracle:rejected", "an asynchronous receive on socket %d was not accepted", e.index);
        return ok;
    }
    void on_receive(End &e, std::size_t r, std::string data)
    {
        InCallback in(*this, service_of(e), "a receive");
        std::shared_ptr<Tcp> s;
        {
            Ignore ig;
            s = e.s;
        }
        bool const open = s && s->is_open();
        {
            Ignore ig;
            sim_note("socket %d: receive request %zu completes, %zu bytes", e.index, r, data.size());
            Req &q = e.recvs[r];
            if (++q.done > 1) sim_fail("oracle:completed-twice", "receive request %zu of socket %d completed twice", r, e.index);
            // A socket that is closed drops its requests; later ones are told so.
            if (r != e.recvs_done && open) sim_fail("oracle:completion-order", "receive request %zu of socket %d completed before request %zu", r, e.index, e.recvs_done);
            e.recvs_done = r + 1;
            std::uint64_t const peer = static_cast<std::uint64_t>(sim_net_info(e.id, SN_PEER));
            for (std::size_t i = 0; i < data.size(); ++i)
                if (data[i] != byte_at(peer, e.got + i))
                    sim_fail("oracle:corrupt", "byte %zu that socket %d received is not byte %zu that its peer sent", e.got + i, e.index, e.got + i);
            e.got += data.size();
            if (static_cast<std::int64_t>(e.got) != sim_net_info(e.id, SN_RECEIVED))
                sim_fail("oracle:lost-data", "socket %d was given %ld bytes, but its completions only %zu", e.index, (long)sim_net_info(e.id, SN_RECEIVED), e.got);
        }
        if (data.empty() && s) check_failed(e, *s, "a receive");
        bool again;
        {
            Ignore ig;
            again = !data.empty() && e.keep_recv && !winding_down;
        }
        if (again) receive(e);
    }

    // ---- connections ----
    std::unordered_map<int, std::uint64_t> descriptors; // who had them last
    void seen(int fd, std::uint64_t id)
    {
        auto const [it, first] = descriptors.emplace(fd, id);
        if (!first && it->second != id) sim_probe(P_Reuse);
        it->second = id;
    }
    End &add_end(bool server)
    {
        ends.emplace_back();
        End &e = ends.back();
        e.index = static_cast<int>(ends.size()) - 1;
        e.server = server;
        return e;
    }
    void accept()
    {
        std::shared_ptr<Listen> l;
        int n;
        {
            Ignore ig;
            l = listener;
            n = accepts_asked++;
        }
        if (!l) return;
        if (!l->accept_async([this, n](std::shared_ptr<Tcp> s) { on_accept(n, std::move(s)); }))
        {
            Ignore ig;
            sim_fail("oracle:rejected", "an asynchronous accept was not accepted");
        }
    }
    void on_accept(int n, std::shared_ptr<Tcp> s)
    {
        InCallback in(*this, 0, "an accept");
        std::shared_ptr<Listen> l;
        {
            Ignore ig;
            sim_note("accept request %d completes: %s", n, s ? "a socket" : "nothing");
            ++accepts_done;
            if (n < next_accept) sim_fail("oracle:completed-twice", "accept request %d completed twice", n);
            // A closed listener may drop requests.
            if (n != next_accept && sim_net_info(listener_id, SN_OPEN) == 1) sim_fail("oracle:completion-order", "accept request %d completed before request %d", n, next_accept);
            next_accept = n + 1;
            l = listener;
        }
        if (!s)
        {
            bool const open = l && l->is_open(), listening = l && l->is_listening();
            Ignore ig;
            if (open) sim_fail("oracle:open-after-error", "an accept failed, but the listener is still open");
            if (listening) sim_fail("oracle:listening-after-close", "an accept failed and closed the listener, but it reports to be listening");
            if (!listener_closed && sim_net_info(listener_id, SN_ERRORS) == 0) sim_fail("oracle:false-error", "an accept failed, but no call on the listener did");
            accept_told = true;
            return;
        }
        bool const conn = s->is_connected(), open = s->is_open();
        End *e;
        int plan;
        {
            Ignore ig;
            if (!conn || !open) sim_fail("oracle:accepted-state", "an accepted socket does not report to be open and connected");
            e = &add_end(true);
            e->s = std::move(s);
            e->id = sim_net_id(e->s->handle());
            seen(e->s->handle(), e->id);
            e->connected = true;
            plan = server_plan[static_cast<std::size_t>(e->index) % server_plan.size()];
            e->keep_recv = !(plan & 1);
            e->chain_send = true;
            e->chain_left = static_cast<int>(draw(4));
        }
        e->published->store(1);
        if (e->keep_recv) receive(*e);
        if (plan & 2) receive(*e);
        if (plan & 4) send(*e, 1 + draw(max_message));
        if (plan & 8)
        {
            // Two at once.
            send(*e, 1 + draw(max_message * 2));
            send(*e, 1 + draw(max_message));
        }
        bool more;
        {
            Ignore ig;
            if (plan & 8) e->chain_send = false;
            more = !winding_down;
        }
        if (more) accept();
    }
    ConnectedState connect(End &e, EP const &where, bool by_name, bool refused)
    {
        int const svc = services.size() == 1 ? 0 : 1;
        auto s = services[static_cast<std::size_t>(svc)]->template create_socket<Tcp>();
        bool open = s->is_open();
        {
            Ignore ig;
            e.s = s;
            e.failed = !open;
            e.id = open ? sim_net_id(s->handle()) : 0;
            if (open) seen(s->handle(), e.id);
        }
        e.published->store(1);
        if (!open)
        {
            if (s->is_connected()) sim_fail("oracle:connected-early", "a socket that could not be opened reports to be connected");
            Ignore ig;
            e.s.reset();
            return ConnectedState::Disconnected;
        }
        End *ep = &e;
        {
            Ignore ig;
            e.connecting = true;
        }
        auto done = [this, ep](ConnectedState state) { on_connect(*ep, state); };
        ConnectedState const st = by_name ? s->connect_async("server", where.port(), done) : s->connect_async(where, done);
        bool const is_open = s->is_open();
        bool const conn = s->is_connected();
        Ignore ig;
        sim_note("socket %d connects (%s): %d", e.index, refused ? "nobody listens" : "listener", (int)st);
        if (st == ConnectedState::Connected)
        {
            if (e.connect_told) sim_fail("oracle:completed-twice", "the connect of socket %d completed at once and later", e.index);
            if (sim_net_info(e.id, SN_ESTABLISHED) != 1) sim_fail("oracle:connected-early", "the connect of socket %d reports success, but no connection was established", e.index);
            e.connecting = false, e.connected = true;
        }
        else if (st == ConnectedState::Disconnected)
        {
            // By name: the name may not be resolved, which leaves the socket alone.
            if (is_open && !by_name) sim_fail("oracle:open-after-error", "the connect of socket %d failed, but the socket is still open", e.index);
            if (conn) sim_fail("oracle:connected-after-close", "the connect of socket %d failed, but it reports to be connected", e.index);
            if (e.connect_told) sim_fail("oracle:completed-twice", "the connect of socket %d failed at once, and completed later", e.index);
            if (!by_name && sim_net_info(e.id, SN_CONN_FAILED) == 0) sim_fail("oracle:false-error", "the connect of socket %d failed, but no call on it did", e.index);
            e.connecting = false, e.failed = true;
            e.s.reset();
            sim_probe(P_Refused);
        }
        return st;
    }
    void on_connect(End &e, ConnectedState state)
    {
        InCallback in(*this, service_of(e), "a connect");
        std::shared_ptr<Tcp> s;
        {
            Ignore ig;
            sim_note("socket %d: connect completes with %d", e.index, (int)state);
            s = e.s;
            if (e.connect_told) sim_fail("oracle:completed-twice", "the connect of socket %d completed twice", e.index);
            e.connect_told = true;
        }
        bool const open = s && s->is_open(), conn = s && s->is_connected();
        bool again = false, start = false;
        {
            Ignore ig;
            bool const est = sim_net_info(e.id, SN_ESTABLISHED) == 1;
            e.connecting = false;
            if (state == ConnectedState::Connected)
            {
                if (!est) sim_fail("oracle:connected-early", "the connect of socket %d reports success, but no connection was established", e.index);
                if (s && (!open || !conn) && !e.closed) sim_fail("oracle:connected-state", "the connect of socket %d reports success, but the socket does not", e.index);
                e.connected = true;
                again = e.keep_recv && !e.recvs.size() && !winding_down;
                start = e.chain_send && !e.early && !winding_down;
            }
            else
            {
                if (state == ConnectedState::Connecting) sim_fail("oracle:result", "the connect of socket %d completed with the state connecting", e.index);
                if (open) sim_fail("oracle:open-after-error", "the connect of socket %d failed, but the socket is still open", e.index);
                if (conn) sim_fail("oracle:connected-after-close", "the connect of socket %d failed, but it reports to be connected", e.index);
                if (est && !sim_net_info(e.id, SN_RESET) && !e.closed)
                    sim_fail("oracle:false-error", "the connect of socket %d reports failure, but the connection was established", e.index);
                e.failed = true;
                sim_probe(P_Refused);
            }
        }
        if (again) receive(e);
        if (start) send(e, 1 + draw(max_message));
    }

    // Close the socket on the sequence of its service.
    void close_later(End &e)
    {
        std::shared_ptr<Tcp> s;
        {
            Ignore ig;
            s = e.s;
        }
        if (!s) return;
        End *ep = &e;
        runners[static_cast<std::size_t>(service_of(e))]->post_task(FROM_HERE, [this, ep, s]() {
            {
                Ignore ig;
                ep->closed = true;
                sim_note("socket %d is closed", ep->index);
                if (ep->sends_done < ep->sends.size() || ep->recvs_done < ep->recvs.size()) sim_probe(P_Dropped);
            }
            s->close();
            bool const open = s->is_open(), conn = s->is_connected();
            Ignore ig;
            if (open) sim_fail("oracle:open-after-close", "socket %d is open after it was closed", ep->index);
            if (conn) sim_fail("oracle:connected-after-close", "socket %d was closed, but reports to be connected", ep->index);
        });
    }
    void release(End &e)
    {
        std::shared_ptr<Tcp> s;
        {
            Ignore ig;
            e.released = true;
            s.swap(e.s);
            sim_note("socket %d is released", e.index);
        }
    }
};

template <typename EP>
void soup(SoupCfg cfg)
{
    using W_ = Soup<EP>;
    using Tcp = TcpSocket<EP>;
    using Listen = ListenSocket<EP>;
    sim_time_budget(4000 * sec);
    quiet_default_logger();
    auto *w = new W_;
    w->cfg = cfg;

    // ---- plan ----
    int const nclients = amount("clients", 1, cfg.max_clients, 10);
    int const nops = amount("ops", 4, 24, 150);
    bool const two = sim_param("services", 1, 2) == 2;
    static std::uint32_t const bufs[] = {700, 4000, 16000, 60000};
    std::uint32_t const buf = bufs[R(0, 3)];
    std::uint32_t const mss = static_cast<std::uint32_t>(coin(50) ? R(1, 300) : R(300, 1460));
    static std::int64_t const lats[] = {0, 30000, 300000, 5000000};
    std::int64_t const lat = lats[R(0, 3)];
    sim_net_params(lat, buf / mss > 900 ? buf / 900 + 1 : mss, buf);
    w->buffer = buf;
    w->max_message = R(1, 2) == 1 ? R(1, 400) : R(400, buf * 3 > 20000 ? 20000 : buf * 3);
    w->rnd = sim_plan_rand();
    bool const high = coin(8);
    if (high)
    {
        sim_net_fd_base(static_cast<int>(R(1015, 1100)));
        sim_probe(P_HighFd);
    }
    std::size_t const packet = coin(30) ? R(1, 200) : R(200, 9000);
    w->packet = packet;
    if (w->max_message > packet * 60) w->max_message = packet * 60;
    w->config = std::make_shared<NetConf>(static_cast<std::int64_t>(R(1, 20) * 1000), packet);
    sim_net_set_addr("server", htonl(INADDR_LOOPBACK));
    for (int i = 0; i < 8; ++i) w->server_plan.push_back(static_cast<int>(R(0, 15)));
    Rates const rates = draw_rates(cfg.errors && coin(70));
    bool const watch = coin(40);
    std::uint32_t const workers = static_cast<std::uint32_t>(sim_param("workers", 1, 3));
    int const accepts = static_cast<int>(R(1, 3));
    bool const wildcard = coin(50);

    struct Op { int kind; int who; std::size_t n; std::int64_t wait; bool flag; };
    std::vector<Op> ops;
    for (int i = 0; i < nops; ++i)
    {
        Op o;
        o.kind = static_cast<int>(R(0, 99));
        o.who = static_cast<int>(R(0, 15));
        o.n = 1 + sim_plan_rand() % w->max_message;
        o.wait = coin(50) ? 0 : static_cast<std::int64_t>(R(0, 30)) * ms;
        o.flag = coin(40);
        char const *name = o.kind < 40 ? "send" : o.kind < 60 ? "receive" : o.kind < 70 ? "connect" : o.kind < 78 && cfg.churn ? "close" : o.kind < 84 && cfg.churn ? "release" : "wait";
        if (!sim_op("%s %d %zu", name, o.who, o.n)) o.kind = 99, o.wait = 0;
        ops.push_back(o);
    }
    struct Client { bool by_name, refused, chain, keep, early; int initial; };
    std::vector<Client> plans;
    for (int i = 0; i < 32; ++i)
        plans.push_back({EP::is_ipv4() && coin(20), coin(12), coin(40), coin(70), coin(cfg.early_pct), static_cast<int>(R(0, 3))});

    // ---- run ----
    w->manager = TaskManager::create(workers);
    for (int i = 0; i < (two ? 2 : 1); ++i)
    {
        w->runners.push_back(SequencedTaskRunner::create(w->manager));
        w->services.push_back(SocketService::create(w->runners.back(), w->config));
    }
    w->listener = w->services[0]->template create_socket<Listen>();
    if (!w->listener->bind(wildcard ? any_address<EP>(w->port) : local<EP>(w->port), BindMode::AllowReuse)) sim_fail("oracle:bind", "the listener could not be bound");
    if (w->listener->is_listening()) sim_fail("oracle:listening-early", "a socket reports to be listening before it was told to");
    if (!w->listener->listen()) sim_fail("oracle:listen", "the listener does not listen");
    w->listener_id = sim_net_id(w->listener->handle());
    if (!w->listener->is_listening()) sim_fail("oracle:listening-state", "a listening socket does not report to be listening");
    set_rates(rates);
    sim_faults_enable(1);
    for (int i = 0; i < accepts; ++i) w->accept();

    Threads threads;
    bool *done = new bool(false);
    if (watch)
    {
        threads.start([w, done] {
            for (int turn = 0;; ++turn)
            {
                typename W_::End *e = nullptr;
                {
                    Ignore ig;
                    if (*done) break;
                    if (!w->ends.empty()) e = &w->ends[static_cast<std::size_t>(turn) % w->ends.size()];
                }
                if (e) w->state_check(*e);
                sim_sleep_ns(700000);
            }
        });
    }
    std::size_t nconn = 0;
    auto add_client = [&] {
        Client const &p = plans[nconn++ % plans.size()];
        typename W_::End *e;
        {
            Ignore ig;
            e = &w->add_end(false);
            e->keep_recv = p.keep;
            e->chain_send = p.chain;
            e->chain_left = p.chain ? p.initial + 1 : 0;
            e->early = p.early;
        }
        ConnectedState const st = w->connect(*e, local<EP>(p.refused ? static_cast<port_type>(w->port + 7) : w->port), p.by_name, p.refused);
        bool const up = st == ConnectedState::Connected, pending = st == ConnectedState::Connecting;
        // Several requests at once from here, or a chain of requests, each issued when the one before completes.
        if (up && p.chain && !p.early) w->send(*e, 1 + sim_plan_rand() % w->max_message);
        if ((pending || up) && p.early)
        {
            for (int i = 0; i < (p.chain ? 1 : p.initial); ++i) w->send(*e, 1 + sim_plan_rand() % w->max_message);
            if (!p.keep && p.initial) w->receive(*e);
        }
        if (up && p.keep) w->receive(*e);
    };
    for (int i = 0; i < nclients; ++i) add_client();
    for (Op const &o : ops)
    {
        if (o.wait) sim_sleep_ns(o.wait);
        typename W_::End *e = nullptr;
        bool can = false;
        {
            Ignore ig;
            if (!w->ends.empty())
            {
                e = &w->ends[static_cast<std::size_t>(o.who) % w->ends.size()];
                can = e->s && e->connected;
            }
        }
        if (e && e->published->load() == 0) can = false;
        if (e) w->state_check(*e);
        if (o.kind < 40)
        {
            bool busy = false;
            {
                Ignore ig;
                busy = e && (e->chain_send || e->server); // their sends are issued on the service's sequence
            }
            if (can && !busy)
            {
                w->send(*e, o.n);
                if (o.flag) w->send(*e, 1 + o.n / 2);
            }
        }
        else if (o.kind < 60)
        {
            bool busy = false;
            {
                Ignore ig;
                busy = e && (e->keep_recv || e->server);
            }
            if (can && !busy) w->receive(*e);
        }
        else if (o.kind < 70) add_client();
        else if (o.kind < 78 && cfg.churn)
        {
            if (can) w->close_later(*e);
            if (o.flag) add_client();
        }
        else if (o.kind < 84 && cfg.churn)
        {
            if (can) w->release(*e);
            if (o.flag) add_client();
        }
    }
    sim_sleep_ns(static_cast<std::int64_t>(R(0, 20)) * ms);

    // ---- the faults end: everything that can complete does ----
    sim_drain();
    auto usable = [&](typename W_::End &e) { // both sides are there, nothing failed
        if (!e.s || !e.connected || e.failed || e.closed || e.told_error) return false;
        if (sim_net_info(e.id, SN_OPEN) != 1 || sim_net_info(e.id, SN_CONNECTED) != 1) return false;
        std::uint64_t const peer = static_cast<std::uint64_t>(sim_net_info(e.id, SN_PEER));
        return peer && sim_net_info(peer, SN_CONNECTED) == 1 && sim_net_info(peer, SN_OPEN) == 1;
    };
    auto partner = [&](typename W_::End &e) -> typename W_::End * {
        std::uint64_t const peer = static_cast<std::uint64_t>(sim_net_info(e.id, SN_PEER));
        for (auto &o : w->ends)
            if (o.id == peer && peer) return &o;
        return nullptr;
    };
    std::string waiting;
    bool quiet = false;
    std::int64_t until = sim_now() + 120 * sec;
    std::size_t last_progress = 0;
    while (!quiet)
    {
        if (sim_now() > until) sim_fail("oracle:stalled", "no progress for two minutes after the faults ended: %s", waiting.c_str());
        std::vector<typename W_::End *> need;
        std::size_t progress = 0;
        {
            Ignore ig;
            quiet = true;
            std::size_t const n = w->ends.size();
            for (std::size_t i = 0; i < n; ++i)
            {
                auto &e = w->ends[i];
                if (e.connecting && e.s && !e.closed && !e.failed)
                {
                    quiet = false;
                    waiting = "the connect of socket " + std::to_string(e.index) + " has not completed";
                }
                if (!usable(e)) continue;
                if (e.sends_done < e.sends.size())
                {
                    auto *p = partner(e);
                    if (p == nullptr && sim_net_info(w->listener_id, SN_LISTENING) != 1) continue;
                    if (p != nullptr && !p->s) continue;
                    quiet = false;
                    waiting = "send request " + std::to_string(e.sends_done) + " of socket " + std::to_string(e.index) + " has not completed";
                }
                auto *p = partner(e);
                if (p == nullptr)
                {
                    if (!e.server && sim_net_info(w->listener_id, SN_LISTENING) == 1 && w->accepts_asked > w->accepts_done)
                    {
                        quiet = false;
                        waiting = "the connection of socket " + std::to_string(e.index) + " was not accepted";
                    }
                    continue;
                }
                if (sim_net_info(e.id, SN_UNREAD) > 0 || sim_net_info(e.id, SN_RECEIVED) != static_cast<std::int64_t>(e.got))
                {
                    quiet = false;
                    waiting = "socket " + std::to_string(e.index) + " was not given all data (" + std::to_string(e.got) + " of " + std::to_string(p->sent_ok) + " bytes)";
                    if (e.recvs_done == e.recvs.size() && !e.topping_up) need.push_back(&e);
                }
                progress += e.got + e.sent_ok;
            }
            if (quiet)
            {
                // Pairs that met no error: everything arrived.
                for (auto &e : w->ends)
                {
                    if (!usable(e)) continue;
                    auto *p = partner(e);
                    if (!p || !usable(*p)) continue;
                    if (p && p->s && e.got != p->sent_ok)
                        sim_fail("oracle:lost-data", "socket %d received %zu bytes, its peer sent %zu", e.index, e.got, p->sent_ok);
                    if (p && p->s && p->sends_done == p->sends.size() && p->sent_ok != p->out_off && !p->told_error)
                        sim_fail("oracle:lost-data", "socket %d sent %zu of %zu bytes without an error", p->index, p->sent_ok, p->out_off);
                }
            }
            if (progress != last_progress) until = sim_now() + 120 * sec, last_progress = progress;
        }
        // Ask for the rest on the service's sequence, where the other requests of these sockets come from.
        for (auto *e : need)
        {
            if (!e->keep_recv || e->recvs_done == e->recvs.size())
            {
                {
                    Ignore ig;
                    e->topping_up = true;
                }
                w->runners[static_cast<std::size_t>(w->service_of(*e))]->post_task(FROM_HERE, [w, e]() {
                    std::size_t ask;
                    {
                        Ignore ig;
                        e->topping_up = false;
                        ask = e->recvs_done == e->recvs.size() && !e->told_error && !e->closed ? 1 : 0;
                        if (ask) ask += std::min<std::size_t>(static_cast<std::size_t>(sim_net_info(e->id, SN_UNREAD)) / (2 * w->packet), 20);
                    }
                    for (; ask > 0; --ask) w->receive(*e);
                });
            }
        }
        if (!quiet) sim_sleep_ns(10 * ms);
    }
    {
        Ignore ig;
        w->winding_down = true;
    }
    for (std::size_t i = 0;; ++i)
    {
        typename W_::End *e;
        {
            Ignore ig;
            if (i >= w->ends.size()) break;
            e = &w->ends[i];
        }
        w->state_check(*e);
    }
    // The clients go: whoever waits for data on the other side is told.
    std::vector<typename W_::End *> told;
    for (std::size_t i = 0;; ++i)
    {
        typename W_::End *e;
        {
            Ignore ig;
            if (i >= w->ends.size()) break;
            e = &w->ends[i];
            if (e->server) { if (usable(*e) && e->recvs_done < e->recvs.size()) told.push_back(e); continue; }
        }
        w->release(*e);
    }
    if (!wait_until(
            [&] {
                for (auto *e : told)
                    if (!e->told_error && !e->closed && e->recvs_done < e->recvs.size()) return false;
                return true;
            },
            60 * sec, 10 * ms))
        sim_fail("oracle:stalled", "one minute after the peer closed its socket, a pending receive has not completed");
    {
        Ignore ig;
        *done = true;
    }
    threads.join();
    // A socket that closed itself did so for a request, which was told.
    std::string silent;
    if (!wait_until(
            [&] {
                for (auto &e : w->ends)
                {
                    if (!e.s || e.id == 0 || e.released || e.closed || e.failed || e.told_error || sim_net_info(e.id, SN_OPEN) != 0) continue;
                    silent = "socket " + std::to_string(e.index);
                    return false;
                }
                silent = "the listener";
                return w->listener_closed || w->accept_told || sim_net_info(w->listener_id, SN_OPEN) != 0;
            },
            60 * sec, 10 * ms))
        sim_fail("oracle:silent-close", "%s closed itself, but no request was told that it failed", silent.c_str());
    // A closed socket takes requests, and completes or drops them; nobody else notices.
    bool const poke = coin(50);
    if (poke && !told.empty())
    {
        auto *e = told[0];
        std::shared_ptr<Tcp> s;
        {
            Ignore ig;
            s = e->s;
        }
        if (s)
        {
            int *late = new int(0);
            bool const ok = s->receive_async([late](std::string data) {
                Ignore ig;
                if (!data.empty()) sim_fail("oracle:result", "a receive on a closed socket returned data");
                ++*late;
            });
            if (ok && !wait_until([&] { return *late == 1; }, 60 * sec, 10 * ms)) sim_fail("oracle:never-completed", "a receive on a closed socket was accepted, but never completed");
        }
    }
    bool const accept_works = [&] {
        Ignore ig;
        return sim_net_info(w->listener_id, SN_LISTENING) == 1;
    }();
    if (accept_works)
    {
        // The service still serves others.
        int const before = w->accepts_done;
        {
            Ignore ig;
            w->winding_down = true;
        }
        if (w->accepts_asked == w->accepts_done) w->accept();
        auto c = w->services[two ? 1 : 0]->template create_socket<Tcp>();
        int *told_ = new int(-1);
        ConnectedState const st = c->connect_async(local<EP>(w->port), [told_](ConnectedState s) {
            Ignore ig;
            *told_ = static_cast<int>(s);
        });
        if (!wait_until([&] { return (st == ConnectedState::Connected || *told_ == static_cast<int>(ConnectedState::Connected)) && w->accepts_done > before; }, 60 * sec, 10 * ms))
            sim_fail("oracle:stalled", "one minute after the faults ended a new connection is not established and accepted");
    }
    w->manager->stop();
    {
        Ignore ig;
        w->stopped = true;
        for (auto &e : w->ends)
            if (e.sends_done < e.sends.size() && e.s && usable(e) && partner(e) && partner(e)->s)
                sim_fail("oracle:never-completed", "send request %zu of socket %d never completed", e.sends_done, e.index);
    }
    for (std::size_t i = 0; i < w->ends.size(); ++i) w->ends[i].s.reset();
    w->listener.reset();
    w->services.clear();
    w->runners.clear();
    w->manager.reset();
    if (sim_net_open_fds() != 0) sim_fail("oracle:descriptor-leak", "%d descriptors are open after all sockets are gone", sim_net_open_fds());
    sim_stop();
    sim_hash(static_cast<std::uint64_t>(w->ends.size()));
}

// ---- blocking TCP -------------------------------------------------------------------------------
// A server thread with a blocking listener, client threads with blocking sockets; transfers in turns.
struct SyncPlan
{
    std::size_t up = 0, down = 0; // bytes in each direction, per turn
    int turns = 1;
    std::size_t piece = 1; // largest message
    bool quit_early = false, by_name = false, refused = false, moved = false;
};
template <typename EP>
struct SyncNet
{
    using Tcp = TcpSocket<EP>;
    using Listen = ListenSocket<EP>;
    std::vector<SyncPlan> plans;
    std::unordered_map<std::uint64_t, std::size_t> plan_of; // by the client's socket
    std::unordered_map<std::uint64_t, std::size_t> sent, got;
    std::unordered_map<std::uint64_t, bool> clean; // finished its part without an error
    std::unordered_set<std::uint64_t> early; // did not read everything
    bool stop = false, server_ready = false, server_gone = false;
    port_type port = 6000;
    std::shared_ptr<NetConf> config;

    // Sends n bytes in pieces. False: an error.
    bool send_all(Tcp &s, std::uint64_t id, std::size_t n, std::size_t piece)
    {
        while (n > 0)
        {
            std::string m;
            std::int64_t before;
            {
                Ignore ig;
                std::size_t const k = std::min(n, piece);
                m.resize(k);
                for (std::size_t i = 0; i < k; ++i) m[i] = byte_at(id, sent[id] + i);
                before = sim_net_info(id, SN_SENT);
            }
            std::size_t const r = s.send(m);
            bool const open = s.is_open(), conn = s.is_connected();
            Ignore ig;
            if (static_cast<std::int64_t>(r) != sim_net_info(id, SN_SENT) - before)
                sim_fail("oracle:result", "a send reports %zu bytes, but %ld were sent", r, (long)(sim_net_info(id, SN_SENT) - before));
            sent[id] += r;
            if (r < m.size())
            {
                if (sim_net_info(id, SN_ERRORS) == 0) sim_fail("oracle:false-error", "a send of %zu bytes reports %zu, but no call failed", m.size(), r);
                if (r == 0 && open) sim_fail("oracle:open-after-error", "a send failed, but the socket is still open");
                if (!open && conn) sim_fail("oracle:connected-after-close", "a send failed and closed the socket, but it reports to be connected");
                sim_probe(P_Errors);
                return false;
            }
            if (!open || !conn) sim_fail("oracle:false-error", "the socket is not open and connected after a complete send");
            n -= r;
        }
        return true;
    }
    bool receive_all(Tcp &s, std::uint64_t id, std::size_t n)
    {
        while (n > 0)
        {
            std::string const data = s.receive();
            bool const open = s.is_open(), conn = s.is_connected();
            Ignore ig;
            std::uint64_t const peer = static_cast<std::uint64_t>(sim_net_info(id, SN_PEER));
            std::size_t &off = got[id];
            for (std::size_t i = 0; i < data.size(); ++i)
                if (data[i] != byte_at(peer, off + i)) sim_fail("oracle:corrupt", "byte %zu received is not byte %zu that the peer sent", off + i, off + i);
            off += data.size();
            if (static_cast<std::int64_t>(off) != sim_net_info(id, SN_RECEIVED))
                sim_fail("oracle:lost-data", "%ld bytes were received, but only %zu returned", (long)sim_net_info(id, SN_RECEIVED), off);
            if (data.empty())
            {
                if (open) sim_fail("oracle:open-after-error", "a receive failed, but the socket is still open");
                if (conn) sim_fail("oracle:connected-after-close", "a receive failed and closed the socket, but it reports to be connected");
                if (sim_net_info(id, SN_ERRORS) == 0 && sim_net_info(id, SN_EOF) != 1) sim_fail("oracle:false-error", "a receive returned nothing, but no call failed and the peer did not close");
                sim_probe(sim_net_info(id, SN_EOF) == 1 ? P_Eof : P_Errors);
                if (sim_net_info(id, SN_RESET)) sim_probe(P_Reset);
                return false;
            }
            if (!open || !conn) sim_fail("oracle:false-error", "the socket is not open and connected after it received data");
            if (data.size() > n) sim_fail("oracle:corrupt", "more data was received than the peer sends");
            n -= data.size();
        }
        return true;
    }
    void serve(Tcp s, std::uint64_t id)
    {
        SyncPlan p;
        {
            Ignore ig;
            auto it = plan_of.find(static_cast<std::uint64_t>(sim_net_info(id, SN_PEER)));
            if (it == plan_of.end()) return; // the wake-up call
            p = plans[it->second];
        }
        if (!s.is_open() || !s.is_connected()) sim_fail("oracle:accepted-state", "an accepted socket does not report to be open and connected");
        for (int t = 0; t < p.turns; ++t)
        {
            if (!receive_all(s, id, p.up)) return;
            if (!send_all(s, id, p.down, p.piece)) return;
        }
        {
            Ignore ig;
            clean[id] = true;
        }
        receive_all(s, id, 1); // wait for the other side to close
    }
    void server(int handlers)
    {
        Listen l(config);
        if (!l.is_open()) return;
        if (!l.bind(any_address<EP>(port), BindMode::AllowReuse))
        {
            if (l.is_listening()) sim_fail("oracle:listening-early", "a socket reports to be listening before it was told to");
            return;
        }
        bool const ok = l.listen();
        if (ok != l.is_listening()) sim_fail("oracle:listening-state", "listen() returned %d, but the socket reports %d", ok, l.is_listening());
        if (!ok) return;
        std::uint64_t const lid = sim_net_id(l.handle());
        {
            Ignore ig;
            server_ready = true;
        }
        std::vector<std::thread> threads;
        for (;;)
        {
            auto c = l.accept();
            bool end;
            {
                Ignore ig;
                end = stop;
            }
            if (!c)
            {
                if (l.is_open()) sim_fail("oracle:open-after-error", "an accept failed, but the listener is still open");
                if (l.is_listening()) sim_fail("oracle:listening-after-close", "an accept failed and closed the listener, but it reports to be listening");
                if (sim_net_info(lid, SN_ERRORS) == 0) sim_fail("oracle:false-error", "an accept failed, but no call on the listener did");
                break;
            }
            if (end) break;
            if (!c->is_open())
            {
                // It could not be configured.
                if (c->is_connected()) sim_fail("oracle:connected-after-close", "an accepted socket that could not be configured is closed, but reports to be connected");
                continue;
            }
            std::uint64_t const id = sim_net_id(c->handle());
            if (handlers > 1)
            {
                auto *moved = new Tcp(std::move(*c));
                if (c->is_open() || c->is_connected()) sim_fail("oracle:moved", "a socket that was moved from reports to be open or connected");
                threads.emplace_back([this, moved, id] {
                    serve(std::move(*moved), id);
                    delete moved;
                });
            }
            else serve(std::move(*c), id);
        }
        for (auto &t : threads) t.join();
    }
    void client(std::size_t index)
    {
        SyncPlan p;
        {
            Ignore ig;
            p = plans[index];
        }
        Tcp s(config);
        if (!s.is_open())
        {
            if (s.is_connected()) sim_fail("oracle:connected-early", "a socket that could not be opened reports to be connected");
            return;
        }
        std::uint64_t const id = sim_net_id(s.handle());
        {
            Ignore ig;
            plan_of[id] = index;
        }
        port_type const to = p.refused ? static_cast<port_type>(port + 3) : port;
        ConnectedState const st = p.by_name ? s.connect("server", to) : s.connect(local<EP>(to));
        bool const open = s.is_open(), conn = s.is_connected(), pending = s.is_connecting();
        {
            Ignore ig;
            bool const est = sim_net_info(id, SN_ESTABLISHED) == 1;
            sim_note("client %zu: connect %d, established %d", index, (int)st, est);
            if (st == ConnectedState::Connected && !est) sim_fail("oracle:connected-early", "a connect reports success, but no connection was established");
            if (conn != (st == ConnectedState::Connected)) sim_fail("oracle:connected-state", "a connect reports %d, but the socket %d", (int)st, conn);
            if (pending != (st == ConnectedState::Connecting)) sim_fail("oracle:connected-state", "a connect reports %d, but the socket does not", (int)st);
            if (st == ConnectedState::Disconnected)
            {
                if (open && !p.by_name) sim_fail("oracle:open-after-error", "a connect failed, but the socket is still open");
                if (!p.by_name && sim_net_info(id, SN_CONN_FAILED) == 0) sim_fail("oracle:false-error", "a connect failed, but no call on the socket did");
                sim_probe(P_Refused);
            }
            if (p.refused && st == ConnectedState::Connected) sim_fail("oracle:connected-early", "a connect to a port nobody listens on reports success");
        }
        if (st != ConnectedState::Connected) return;
        auto remote = s.remote_endpoint();
        if (remote && remote->port() != to) sim_fail("oracle:result", "the remote port is %d instead of %d", (int)remote->port(), (int)to);
        std::unique_ptr<Tcp> other;
        Tcp *use = &s;
        if (p.moved)
        {
            other = std::make_unique<Tcp>(std::move(s));
            use = other.get();
            if (s.is_open() || s.is_connected()) sim_fail("oracle:moved", "a socket that was moved from reports to be open or connected");
            if (!use->is_open() || !use->is_connected()) sim_fail("oracle:moved", "a socket that was moved to does not report to be open and connected");
        }
        for (int t = 0; t < p.turns; ++t)
        {
            if (!send_all(*use, id, p.up, p.piece)) return;
            if (p.quit_early && t + 1 == p.turns)
            {
                Ignore ig;
                early.insert(id);
                break;
            }
            if (!receive_all(*use, id, p.down)) return;
        }
        {
            Ignore ig;
            clean[id] = true;
        }
        use->close();
        if (use->is_open() || use->is_connected()) sim_fail("oracle:connected-after-close", "a socket reports to be open or connected after it was closed");
    }
};

template <typename EP>
void sync_net()
{
    sim_time_budget(4000 * sec);
    quiet_default_logger();
    auto *w = new SyncNet<EP>;
    int const clients = static_cast<int>(sim_param("clients", 1, 3));
    int const rounds = static_cast<int>(sim_param("connections", 1, 3));
    int const handlers = static_cast<int>(sim_param("handlers", 1, 2));
    static std::uint32_t const bufs[] = {500, 4000, 16000};
    std::uint32_t const buf = bufs[R(0, 2)];
    std::uint32_t const mss = static_cast<std::uint32_t>(R(20, 1460));
    static std::int64_t const lats[] = {0, 30000, 300000, 5000000};
    sim_net_params(lats[R(0, 3)], buf / mss > 900 ? buf / 900 + 1 : mss, buf);
    if (coin(8)) sim_net_fd_base(static_cast<int>(R(1015, 1100)));
    sim_net_set_addr("server", htonl(INADDR_LOOPBACK));
    w->config = std::make_shared<NetConf>(10000, coin(30) ? R(1, 100) : R(100, 9000));
    std::size_t const hi = R(1, 2) == 1 ? 200 : 2 * buf + 100;
    for (int i = 0; i < clients * rounds; ++i)
    {
        SyncPlan p;
        p.up = R(0, hi), p.down = R(0, hi), p.turns = static_cast<int>(R(1, 3)), p.piece = R(1, 2) == 1 ? R(30, 200) : R(200, hi + 200);
        if (w->config->packet_size() < 60) p.up = std::min<std::size_t>(p.up, 300), p.down = std::min<std::size_t>(p.down, 300);
        p.quit_early = coin(15), p.by_name = EP::is_ipv4() && coin(20), p.refused = coin(10), p.moved = coin(30);
        if (!sim_op("connection %d up %zu down %zu x%d", i, p.up, p.down, p.turns)) p.up = p.down = 0, p.turns = 1;
        if (p.turns > 1) p.up += p.up == 0, p.down += p.down == 0; // nobody sends twice in a row
        w->plans.push_back(p);
    }
    Rates r = draw_rates(coin(60));
    r.again = r.spur = r.poll = 0;
    bool const eintr = coin(40);
    set_rates(r);
    sim_fault_rate(SF_EINTR, eintr ? static_cast<int>(R(100, 3000)) : 0);
    sim_faults_enable(1);
    Threads server, cl;
    server.start([w, handlers] {
        w->server(handlers);
        Ignore ig;
        w->server_gone = true;
    });
    sim_sleep_ns(static_cast<std::int64_t>(R(0, 10)) * ms);
    for (int c = 0; c < clients; ++c)
        cl.start([w, c, rounds] {
            for (int i = 0; i < rounds; ++i) w->client(static_cast<std::size_t>(c * rounds + i));
        });
    cl.join();
    sim_drain();
    if (!wait_until([w] { return w->server_ready || w->server_gone; }, 60 * sec)) sim_fail("oracle:stalled", "the server neither listens nor gave up");
    {
        Ignore ig;
        w->stop = true;
    }
    // Wake the server. It may have given up, or still be busy with others.
    int const fd = ::socket(EP::is_ipv4() ? AF_INET : AF_INET6, SOCK_STREAM, 0);
    if (EP::is_ipv4())
    {
        sockaddr_in a{};
        a.sin_family = AF_INET, a.sin_addr.s_addr = htonl(INADDR_LOOPBACK), a.sin_port = htons(w->port);
        (void)::connect(fd, reinterpret_cast<sockaddr *>(&a), sizeof a);
    }
    else
    {
        sockaddr_in6 a{};
        a.sin6_family = AF_INET6, a.sin6_addr = in6addr_loopback, a.sin6_port = htons(w->port);
        (void)::connect(fd, reinterpret_cast<sockaddr *>(&a), sizeof a);
    }
    server.join();
    ::close(fd);
    {
        // Both sides finished without an error: everything arrived.
        Ignore ig;
        for (auto &[id, ok] : w->clean)
        {
            std::uint64_t const peer = static_cast<std::uint64_t>(sim_net_info(id, SN_PEER));
            if (!ok || !peer || !w->clean.count(peer) || w->early.count(id)) continue;
            if (w->got[id] != w->sent[peer]) sim_fail("oracle:lost-data", "both sides finished, but %zu of %zu bytes arrived", w->got[id], w->sent[peer]);
        }
        sim_hash(w->clean.size());
    }
    if (sim_net_open_fds() != 0) sim_fail("oracle:descriptor-leak", "%d descriptors are open after all sockets are gone", sim_net_open_fds());
    sim_stop();
}

// ---- UDP ----------------------------------------------------------------------------------------
enum { U_Empty, U_Truncated, U_Split, U_Dup, U_Lost, U_Error, U_Replaced, U_Foreign, U_Block };
#define UDP_PROBES "empty_datagram", "truncated", "split_message", "duplicated", "lost", "socket_error", "replaced_socket", "foreign_sender", "blocking_socket"

template <typename EP>
struct UdpNet
{
    using Udp = UdpSocket<EP>;
    struct Sent { std::string data; int copies = 0; };
    struct Peer
    {
        int index = 0;
        port_type port = 0;
        bool async = false;
        std::shared_ptr<Udp> s;
        std::uint64_t id = 0;
        bool gone = false, told_error = false;
        std::size_t sends = 0, sends_done = 0, recvs = 0, recvs_done = 0, got = 0;
        std::int64_t expect_sent = 0; // datagrams
        std::deque<std::string> text;
        std::vector<std::size_t> sizes;
        bool keep = false, topping_up = false;
        std::size_t ended = 0;
    };
    std::size_t packet = 1;
    std::deque<Peer> peers;
    std::unordered_map<int, std::unordered_map<std::string, int>> sent; // by destination port: datagram -> how often it was sent
    std::unordered_map<int, std::unordered_map<std::string, int>> seen;
    std::shared_ptr<SocketService> service;
    std::shared_ptr<SequencedTaskRunner> runner;
    std::uint64_t tag = 0;
    bool winding_down = false, finished = false, wake = false;

    std::string content(std::size_t n)
    {
        std::string m(n, 0);
        ++tag;
        for (std::size_t i = 0; i < n; ++i) m[i] = byte_at(tag + 7777, i);
        return m;
    }
    void record(port_type to, std::string const &m, std::size_t unit)
    {
        if (m.size() > unit) sim_probe(U_Split);
        for (std::size_t i = 0; i < m.size() || i == 0; i += unit) ++sent[to][m.substr(i, unit).substr(0, packet)];
    }
    void check_failed(Peer &p, bool open, char const *what)
    {
        if (open) sim_fail("oracle:open-after-error", "%s of socket %d failed, but the socket is still open", what, p.index);
        if (sim_net_info(p.id, SN_ERRORS) == 0 && !p.gone) sim_fail("oracle:false-error", "%s of socket %d failed, but no call on the socket did", what, p.index);
        p.told_error = true;
        sim_probe(U_Error);
    }
    void check_received(Peer &p, std::string const &data, bool open)
    {
        if (data.empty() && !open) { check_failed(p, open, "a receive"); return; }
        auto it = sent[p.port].find(data);
        if (it == sent[p.port].end()) sim_fail("oracle:corrupt", "socket %d received %zu bytes that are no datagram sent to it", p.index, data.size());
        int const n = ++seen[p.port][data];
        int const most = it->second * (sim_fault_count(SF_NET_DUP) ? 2 : 1);
        if (n > most) sim_fail("oracle:invented", "socket %d received a datagram of %zu bytes %d times, but it was sent %d times", p.index, data.size(), n, it->second);
        if (n > it->second) sim_probe(U_Dup);
        ++p.got;
        if (data.empty()) sim_probe(U_Empty);
        if (static_cast<std::int64_t>(p.got) != sim_net_info(p.id, SN_RECEIVED))
            sim_fail("oracle:lost-data", "socket %d was given %ld datagrams, but returned %zu", p.index, (long)sim_net_info(p.id, SN_RECEIVED), p.got);
        if (!open && !p.gone && !p.told_error && sim_net_info(p.id, SN_ERRORS) == 0) sim_fail("oracle:false-error", "socket %d closed itself after it received a datagram", p.index);
    }
    void check_sent(Peer &p, std::size_t size, std::size_t bytes, bool open)
    {
        if (bytes > size) sim_fail("oracle:result", "a send of %zu bytes reports %zu", size, bytes);
        p.expect_sent += static_cast<std::int64_t>((bytes + packet - 1) / packet);
        if (sim_net_info(p.id, SN_SENT) != p.expect_sent && !p.told_error)
            sim_fail("oracle:result", "the sends of socket %d report %ld datagrams, but %ld were sent", p.index, (long)p.expect_sent, (long)sim_net_info(p.id, SN_SENT));
        if (bytes < size)
        {
            if (p.async || bytes == 0) check_failed(p, open, "a send");
            else if (sim_net_info(p.id, SN_ERRORS) == 0) sim_fail("oracle:false-error", "a send of socket %d is incomplete, but no call on the socket failed", p.index);
        }
    }

    void send_async(Peer &p, port_type to, std::size_t n, bool by_name)
    {
        std::shared_ptr<Udp> s;
        std::string_view view;
        std::size_t r;
        {
            Ignore ig;
            if (!p.s) return;
            s = p.s;
            p.text.push_back(content(n));
            record(to, p.text.back(), packet);
            view = p.text.back();
            r = p.sends++;
            sim_note("socket %d: send request %zu, %zu bytes to %d", p.index, r, n, (int)to);
        }
        Peer *pp = &p;
        auto done = [this, pp, r, n](std::size_t bytes) {
            bool open;
            std::shared_ptr<Udp> t;
            {
                Ignore ig;
                t = pp->s;
            }
            open = t && t->is_open();
            Ignore ig;
            if (finished) sim_fail("oracle:after-stop", "a send completed after the task manager was stopped");
            sim_note("socket %d: send request %zu completes, %zu bytes", pp->index, r, bytes);
            if (r < pp->sends_done) sim_fail("oracle:completed-twice", "send request %zu of socket %d completed twice", r, pp->index);
            if (r != pp->sends_done && open) sim_fail("oracle:completion-order", "send request %zu of socket %d completed before request %zu", r, pp->index, pp->sends_done);
            if (r != pp->sends_done) pp->told_error = true; // closed: requests were dropped
            pp->sends_done = r + 1;
            check_sent(*pp, n, bytes, open);
        };
        bool const ok = by_name ? s->send_async("server", to, view, done) : s->send_async(local<EP>(to), view, done);
        if (!ok)
        {
            Ignore ig;
            if (!by_name) sim_fail("oracle:rejected", "an asynchronous send on socket %d was not accepted", p.index);
            --p.sends; // the name was not resolved
        }
    }
    void receive_async(Peer &p)
    {
        std::shared_ptr<Udp> s;
        std::size_t r;
        {
            Ignore ig;
            if (!p.s) return;
            s = p.s;
            r = p.recvs++;
        }
        Peer *pp = &p;
        bool const ok = s->receive_async([this, pp, r](std::string data) {
            std::shared_ptr<Udp> t;
            {
                Ignore ig;
                t = pp->s;
            }
            bool const open = t && t->is_open();
            bool again;
            {
                Ignore ig;
                sim_note("socket %d: receive request %zu completes, %zu bytes", pp->index, r, data.size());
                if (finished) sim_fail("oracle:after-stop", "a receive completed after the task manager was stopped");
                if (pp->gone && !t && !data.empty()) sim_note("late completion");
                if (r < pp->recvs_done) sim_fail("oracle:completed-twice", "receive request %zu of socket %d completed twice", r, pp->index);
                if (r != pp->recvs_done && open) sim_fail("oracle:completion-order", "receive request %zu of socket %d completed before request %zu", r, pp->index, pp->recvs_done);
                pp->recvs_done = r + 1;
                if (t) check_received(*pp, data, open);
                again = open && pp->keep && !winding_down;
            }
            if (again) receive_async(*pp);
        });
        Ignore ig;
        if (!ok) sim_fail("oracle:rejected", "an asynchronous receive on socket %d was not accepted", p.index);
    }
    bool send_sync(Peer &p, port_type to, std::size_t n, bool by_name)
    {
        std::string m;
        {
            Ignore ig;
            m = content(n);
            record(to, m, packet);
        }
        if (by_name && !UdpSocket<EP>::hostname_to_address("server")) return true;
        std::size_t const bytes = by_name ? p.s->send("server", to, m) : p.s->send(local<EP>(to), m);
        bool const open = p.s->is_open();
        Ignore ig;
        if (by_name && bytes == 0 && open) return true; // the name was not resolved
        check_sent(p, n, bytes, open);
        return open;
    }
};

template <typename EP>
void udp_net()
{
    using W_ = UdpNet<EP>;
    using Udp = UdpSocket<EP>;
    sim_time_budget(4000 * sec);
    quiet_default_logger();
    auto *w = new W_;
    int const nasync = amount("async", 1, 3, 8);
    int const nsync = static_cast<int>(sim_param("sync", 0, 2));
    int const nops = amount("ops", 3, 25, 160);
    static std::int64_t const lats[] = {0, 30000, 300000, 5000000};
    sim_net_params(lats[R(0, 3)], 1460, 16384);
    if (coin(8)) sim_net_fd_base(static_cast<int>(R(1015, 1100)));
    sim_net_set_addr("server", htonl(INADDR_LOOPBACK));
    w->packet = coin(40) ? R(1, 40) : R(40, 3000);
    auto config = std::make_shared<NetConf>(static_cast<std::int64_t>(R(1, 20) * 1000), w->packet);
    auto port_of = [](int i) { return static_cast<port_type>(7000 + i); };
    struct Op { int kind; int who; int to; std::size_t n; std::int64_t wait; bool name, twice; };
    std::vector<Op> ops;
    int const total = nasync + nsync;
    for (int i = 0; i < nops; ++i)
    {
        Op o;
        o.kind = static_cast<int>(R(0, 99)), o.who = static_cast<int>(R(0, 11)), o.to = static_cast<int>(R(0, static_cast<std::uint64_t>(total)));
        std::uint64_t const hi = coin(60) ? w->packet : 4 * w->packet;
        o.n = R(1, std::min<std::uint64_t>(hi, 9000));
        o.wait = coin(50) ? 0 : static_cast<std::int64_t>(R(0, 30)) * ms;
        o.name = EP::is_ipv4() && coin(15), o.twice = coin(30);
        if (!sim_op("%s %d -> %d %zu bytes", o.kind < 55 ? "send" : o.kind < 70 ? "foreign" : o.kind < 80 ? "replace" : "wait", o.who, o.to, o.n)) o.kind = 99, o.wait = 0;
        ops.push_back(o);
    }
    struct SyncOp { int to; std::size_t n; bool name; std::int64_t wait; bool receive; };
    std::vector<std::vector<SyncOp>> sync_ops(static_cast<std::size_t>(nsync));
    for (auto &v : sync_ops)
        for (std::uint64_t i = R(0, 8); i > 0; --i)
            v.push_back({static_cast<int>(R(0, static_cast<std::uint64_t>(total))), R(1, std::min<std::uint64_t>(3 * w->packet, 9000)), EP::is_ipv4() && coin(15), static_cast<std::int64_t>(R(0, 10)) * ms, coin(50)});
    Rates r;
    auto some = [](int hi) { return coin(55) ? static_cast<int>(R(20, static_cast<std::uint64_t>(hi))) : 0; };
    r.delay = some(3000), r.again = some(3000), r.spur = some(1500), r.poll = some(500), r.pdelay = some(1000);
    if (coin(40)) r.err = some(300);
    int const drop = some(2000), dup = some(2000), reorder = some(3000);

    auto manager = TaskManager::create(static_cast<std::uint32_t>(sim_param("workers", 1, 3)));
    w->runner = SequencedTaskRunner::create(manager);
    w->service = SocketService::create(w->runner, config);
    auto bind_to = [&](Udp &s, port_type port, bool wild) { return s.bind(wild ? any_address<EP>(port) : local<EP>(port), BindMode::AllowReuse); };
    for (int i = 0; i < total; ++i)
    {
        w->peers.emplace_back();
        auto &p = w->peers.back();
        p.index = i, p.port = port_of(i), p.async = i < nasync, p.keep = coin(70);
        p.s = p.async ? w->service->template create_socket<Udp>() : std::make_shared<Udp>(config);
        if (!p.s->is_open() || !bind_to(*p.s, p.port, coin(50))) sim_fail("oracle:bind", "socket %d cannot be bound", i);
        p.id = sim_net_id(p.s->handle());
    }
    int const raw = ::socket(EP::is_ipv4() ? AF_INET : AF_INET6, SOCK_DGRAM, 0);
    auto foreign = [&](port_type to, std::string const &m) {
        if (EP::is_ipv4())
        {
            sockaddr_in a{};
            a.sin_family = AF_INET, a.sin_addr.s_addr = htonl(INADDR_LOOPBACK), a.sin_port = htons(to);
            (void)::sendto(raw, m.data(), m.size(), 0, reinterpret_cast<sockaddr *>(&a), sizeof a);
        }
        else
        {
            sockaddr_in6 a{};
            a.sin6_family = AF_INET6, a.sin6_addr = in6addr_loopback, a.sin6_port = htons(to);
            (void)::sendto(raw, m.data(), m.size(), 0, reinterpret_cast<sockaddr *>(&a), sizeof a);
        }
    };
    set_rates(r);
    sim_fault_rate(SF_NET_DROP, drop);
    sim_fault_rate(SF_NET_DUP, dup);
    sim_fault_rate(SF_NET_REORDER, reorder);
    sim_faults_enable(1);
    for (int i = 0; i < nasync; ++i)
    {
        w->receive_async(w->peers[static_cast<std::size_t>(i)]);
        if (!w->peers[static_cast<std::size_t>(i)].keep) w->receive_async(w->peers[static_cast<std::size_t>(i)]);
    }
    Threads threads;
    int *active = new int(nsync);
    for (int i = 0; i < nsync; ++i)
    {
        auto *p = &w->peers[static_cast<std::size_t>(nasync + i)];
        auto *list = &sync_ops[static_cast<std::size_t>(i)];
        threads.start([w, p, list, active, port_of] {
            bool open = true;
            for (std::size_t k = 0; open && k < list->size(); ++k)
            {
                SyncOp const &o = (*list)[k];
                if (o.wait) sim_sleep_ns(o.wait);
                open = w->send_sync(*p, port_of(o.to), o.n, o.name);
                if (!open || !o.receive) continue;
                std::string const data = p->s->receive();
                open = p->s->is_open();
                Ignore ig;
                sim_probe(U_Block);
                w->check_received(*p, data, open);
            }
            // The rest, until the harness sends the end mark.
            for (;;)
            {
                {
                    Ignore ig;
                    if (!open || (w->wake && sim_net_info(p->id, SN_DELIVERED) == sim_net_info(p->id, SN_RECEIVED))) break;
                }
                std::string const data = p->s->receive();
                open = p->s->is_open();
                Ignore ig;
                w->check_received(*p, data, open);
            }
            Ignore ig;
            --*active;
        });
    }
    for (Op const &o : ops)
    {
        if (o.wait) sim_sleep_ns(o.wait);
        auto &p = w->peers[static_cast<std::size_t>(o.who % nasync)];
        if (o.kind < 55)
        {
            w->send_async(p, port_of(o.to), o.n, o.name);
            if (o.twice) w->send_async(p, port_of(o.to), 1 + o.n / 2, false);
        }
        else if (o.kind < 70)
        {
            std::string m;
            {
                Ignore ig;
                m = w->content(o.twice ? 0 : o.n);
                w->record(port_of(o.to), m, 1 << 20);
                sim_probe(U_Foreign);
                if (m.size() > w->packet) sim_probe(U_Truncated);
            }
            foreign(port_of(o.to), m);
        }
        else if (o.kind < 80)
        {
            // The socket goes, with its requests; a new one gets its descriptor, and another port.
            std::shared_ptr<Udp> old;
            {
                Ignore ig;
                p.gone = true;
                old.swap(p.s);
                sim_note("socket %d is released", p.index);
            }
            old.reset();
            auto s = w->service->template create_socket<Udp>();
            if (!s->is_open()) continue;
            typename W_::Peer *n;
            {
                Ignore ig;
                sim_probe(U_Replaced);
                w->peers.emplace_back();
                n = &w->peers.back();
                n->index = static_cast<int>(w->peers.size()) - 1, n->port = port_of(n->index + 20), n->async = true, n->keep = true;
            }
            if (!bind_to(*s, n->port, false)) continue;
            {
                Ignore ig;
                n->id = sim_net_id(s->handle());
                n->s = std::move(s);
            }
            w->receive_async(*n);
        }
    }
    sim_sleep_ns(static_cast<std::int64_t>(R(0, 20)) * ms);
    sim_drain();
    // Everything the network delivers is received, and every send completes.
    std::string waiting;
    std::int64_t until = sim_now() + 60 * sec;
    std::size_t last = 0;
    for (;;)
    {
        bool quiet = true;
        std::size_t progress = 0;
        std::vector<typename W_::Peer *> need;
        {
            Ignore ig;
            for (auto &p : w->peers)
            {
                progress += p.got + p.sends_done;
                if (!p.async || !p.s || sim_net_info(p.id, SN_OPEN) != 1) continue;
                if (p.sends_done < p.sends) quiet = false, waiting = "a send request of socket " + std::to_string(p.index) + " has not completed";
                if (sim_net_info(p.id, SN_DELIVERED) != sim_net_info(p.id, SN_RECEIVED))
                {
                    quiet = false, waiting = "a datagram for socket " + std::to_string(p.index) + " was not received";
                    if (p.recvs == p.recvs_done && !p.topping_up) p.topping_up = true, need.push_back(&p);
                }
            }
        }
        if (quiet) break;
        if (progress != last) last = progress, until = sim_now() + 60 * sec;
        if (sim_now() > until) sim_fail("oracle:stalled", "one minute after the faults ended, %s", waiting.c_str());
        for (auto *p : need)
            w->runner->post_task(FROM_HERE, [w, p] {
                bool ask;
                {
                    Ignore ig;
                    p->topping_up = false;
                    ask = p->recvs == p->recvs_done;
                }
                if (ask) w->receive_async(*p);
            });
        sim_sleep_ns(10 * ms);
    }
    // A socket that closed itself did so for a request, which was told.
    std::string silent;
    if (!wait_until(
            [&] {
                for (auto &p : w->peers)
                {
                    if (!p.async || !p.s || p.id == 0 || p.gone || p.told_error || sim_net_info(p.id, SN_OPEN) != 0) continue;
                    silent = "socket " + std::to_string(p.index);
                    return false;
                }
                return true;
            },
            60 * sec, 10 * ms))
        sim_fail("oracle:silent-close", "%s closed itself, but no request was told that it failed", silent.c_str());
    // Blocking sockets: what arrived is received, then they are woken.
    {
        Ignore ig;
        w->winding_down = true;
    }
    std::int64_t const limit = sim_now() + 60 * sec;
    for (bool woken = false;;)
    {
        bool all;
        {
            Ignore ig;
            all = *active == 0;
        }
        if (all) break;
        if (sim_now() > limit) sim_fail("oracle:stalled", "a blocking receive does not return");
        if (!woken)
        {
            Ignore ig;
            bool idle = true;
            for (auto &p : w->peers)
                if (!p.async && sim_net_info(p.id, SN_OPEN) == 1 && sim_net_info(p.id, SN_DELIVERED) != sim_net_info(p.id, SN_RECEIVED)) idle = false;
            woken = idle;
        }
        {
            Ignore ig;
            w->wake = woken;
        }
        for (int i = 0; i < nsync; ++i)
        {
            auto &p = w->peers[static_cast<std::size_t>(nasync + i)];
            std::string m;
            {
                Ignore ig;
                if (sim_net_info(p.id, SN_OPEN) != 1) continue;
                m = w->content(std::min<std::size_t>(w->packet, 16));
                w->record(p.port, m, 1 << 20);
            }
            foreign(p.port, m);
        }
        sim_sleep_ns(20 * ms);
    }
    threads.join();
    ::close(raw);
    manager->stop();
    {
        Ignore ig;
        w->finished = true;
    }
    for (auto &p : w->peers) p.s.reset();
    w->service.reset();
    w->runner.reset();
    manager.reset();
    if (sim_net_open_fds() != 0) sim_fail("oracle:descriptor-leak", "%d descriptors are open after all sockets are gone", sim_net_open_fds());
    if (sim_fault_count(SF_NET_DROP)) sim_probe(U_Lost);
    sim_hash(w->tag);
    sim_stop();
}

// ---- ownership ----------------------------------------------------------------------------------
enum { O_Failed, O_Accepted, O_Overwritten, O_SelfMove, O_ServiceGone, O_Packets };
#define OWN_PROBES "construction_failed", "accepted", "overwritten_by_move", "moved_to_itself", "service_gone", "split_into_packets"

template <typename EP>
void own_net()
{
    using Tcp = TcpSocket<EP>;
    using Listen = ListenSocket<EP>;
    using Udp = UdpSocket<EP>;
    sim_time_budget(4000 * sec);
    quiet_default_logger();
    constexpr int N = 4;
    struct State
    {
        std::optional<Tcp> tcp[N];
        std::optional<Listen> listen[N];
        std::optional<Udp> udp[N];
        std::vector<std::shared_ptr<Tcp>> atcp;
        std::vector<std::shared_ptr<Udp>> audp;
        std::shared_ptr<Listen> alisten;
    };
    auto *st = new State;
    auto config = std::make_shared<NetConf>(5000, 1000);
    auto narrow = std::make_shared<NetConf>(5000, 7);
    bool thin[N] = {}; // whose datagrams are narrow
    int const nops = amount("ops", 3, 40, 300);
    bool const async = coin(50);
    sim_net_params(coin(50) ? 0 : 30000, 1460, 16384);
    struct Op { int kind, a, b; bool mode; };
    std::vector<Op> ops;
    static char const *const names[] = {"new_tcp", "new_listen", "new_udp", "listen", "connect", "accept", "move_tcp", "move_listen", "move_udp", "close", "destroy", "steal", "io_mode", "send", "packets"};
    for (int i = 0; i < nops; ++i)
    {
        Op o{static_cast<int>(R(0, 14)), static_cast<int>(R(0, N - 1)), static_cast<int>(R(0, N - 1)), coin(50)};
        if (!sim_op("%s %d %d %d", names[o.kind], o.a, o.b, o.mode)) o.kind = -1;
        ops.push_back(o);
    }
    int const rate = coin(70) ? static_cast<int>(R(100, 3000)) : 0;
    int const accept_rate = coin(50) ? static_cast<int>(R(100, 1500)) : 0;
    std::shared_ptr<TaskManager> manager;
    std::shared_ptr<SequencedTaskRunner> runner;
    std::shared_ptr<SocketService> service;
    if (async)
    {
        manager = TaskManager::create(2);
        runner = SequencedTaskRunner::create(manager);
        service = SocketService::create(runner, config);
    }
    sim_fault_rate(SF_NET_ERR, rate);
    sim_fault_rate(SF_NET_RESET, accept_rate);
    sim_fault_rate(SF_NET_REFUSE, accept_rate);
    sim_faults_enable(1);
    int waiting[N] = {}; // connections nobody accepted
    std::uint64_t next_port = 8000;
    port_type ports[N] = {};
    auto check = [&](char const *what) {
        int open = 0;
        std::vector<int> fds;
        auto one = [&](auto &s) {
            if (!s.is_open()) return;
            ++open;
            int const fd = s.handle();
            if (sim_net_id(fd) == 0) sim_fail("oracle:closed-descriptor", "after %s: a socket reports to be open, but its descriptor is closed", what);
            if (std::find(fds.begin(), fds.end(), fd) != fds.end()) sim_fail("oracle:shared-descriptor", "after %s: two sockets own the same descriptor", what);
            fds.push_back(fd);
        };
        for (auto &s : st->tcp)
            if (s)
            {
                one(*s);
                if (s->is_connected() && !s->is_open()) sim_fail("oracle:connected-after-close", "after %s: a closed socket reports to be connected", what);
                if (s->is_connected() && sim_net_info(sim_net_id(s->handle()), SN_ESTABLISHED) != 1) sim_fail("oracle:connected-early", "after %s: a socket reports to be connected, but it never was", what);
            }
        for (auto &s : st->listen)
            if (s)
            {
                one(*s);
                bool const real = s->is_open() && sim_net_info(sim_net_id(s->handle()), SN_LISTENING) == 1;
                if (s->is_listening() != real) sim_fail("oracle:listening-state", "after %s: a listener reports %d, but is %d", what, s->is_listening(), real);
            }
        for (auto &s : st->udp)
            if (s) one(*s);
        if (async) return; // closed by their service as well
        if (open != sim_net_open_fds()) sim_fail("oracle:descriptor-leak", "after %s: %d sockets are open, but %d descriptors", what, open, sim_net_open_fds());
    };
    auto move = [&](auto &slots, Op const &o, char const *what) {
        auto &a = slots[o.a];
        auto &b = slots[o.b];
        if (!b) return;
        if (o.a == o.b)
        {
            auto &alias = *b;
            *b = std::move(alias);
            sim_probe(O_SelfMove);
            return;
        }
        bool const was = b->is_open();
        int const fd = b->handle();
        if (a && a->is_open()) sim_probe(O_Overwritten);
        if (o.mode && a) *a = std::move(*b);
        else
        {
            a.reset();
            a.emplace(std::move(*b));
        }
        if (b->is_open()) sim_fail("oracle:moved", "%s: the moved-from socket is open", what);
        if (a->is_open() != was || (was && a->handle() != fd)) sim_fail("oracle:moved", "%s: the descriptor was not moved", what);
    };
    for (Op const &o : ops)
    {
        IOMode const mode = o.mode ? IOMode::Asynchronous : IOMode::Synchronous;
        char const *what = o.kind >= 0 ? names[o.kind] : "nothing";
        switch (o.kind)
        {
            case 0:
                if (st->tcp[o.a] && o.b & 1) *st->tcp[o.a] = Tcp(config, mode);
                else
                {
                    st->tcp[o.a].reset();
                    st->tcp[o.a].emplace(config, mode);
                }
                if (!st->tcp[o.a]->is_open()) sim_probe(O_Failed);
                if (st->tcp[o.a]->is_connected()) sim_fail("oracle:connected-early", "a new socket reports to be connected");
                break;
            case 1:
                waiting[o.a] = 0;
                if (st->listen[o.a] && o.b & 1) *st->listen[o.a] = Listen(config, mode);
                else
                {
                    st->listen[o.a].reset();
                    st->listen[o.a].emplace(config, mode);
                }
                if (!st->listen[o.a]->is_open()) sim_probe(O_Failed);
                break;
            case 2:
                thin[o.a] = o.b & 2;
                if (st->udp[o.a] && o.b & 1) *st->udp[o.a] = Udp(thin[o.a] ? narrow : config, mode);
                else
                {
                    st->udp[o.a].reset();
                    st->udp[o.a].emplace(thin[o.a] ? narrow : config, mode);
                }
                break;
            case 3:
                if (auto &l = st->listen[o.a]; !l || (l->is_open() && !l->is_listening()))
                {
                    if (!l) l.emplace(config, o.mode && coin(50) ? IOMode::Asynchronous : IOMode::Synchronous);
                    if (!l->is_open()) break;
                    port_type const port = static_cast<port_type>(next_port++);
                    if (l->bind(local<EP>(port), BindMode::AllowReuse) && l->listen()) ports[o.a] = port, waiting[o.a] = 0;
                }
                break;
            case 4:
                for (int k = 0; k < N; ++k)
                {
                    int const to = (o.b + k) % N;
                    auto &c = st->tcp[o.a];
                    if (!st->listen[to] || !st->listen[to]->is_listening()) continue;
                    if (!c) c.emplace(config);
                    if (!c->is_open() || c->is_connected() || c->is_connecting()) break;
                    ConnectedState const r = c->connect(local<EP>(ports[to]));
                    if (r == ConnectedState::Connected) ++waiting[to];
                    sim_sleep_ns(100000);
                    break;
                }
                break;
            case 5:
                for (int k = 0; k < N; ++k)
                {
                    int const at = (o.a + k) % N;
                    auto &l = st->listen[at];
                    if (!l || !l->is_listening() || waiting[at] <= 0) continue;
                    auto c = l->accept();
                    --waiting[at];
                    if (c)
                    {
                        sim_probe(O_Accepted);
                        if (c->is_connected() != c->is_open()) sim_fail("oracle:accepted-state", "an accepted socket is open: %d, but connected: %d", c->is_open(), c->is_connected());
                        if (o.mode && st->tcp[o.b]) *st->tcp[o.b] = std::move(*c);
                        else
                        {
                            st->tcp[o.b].reset();
                            st->tcp[o.b].emplace(std::move(*c));
                        }
                    }
                    else if (l->is_open()) sim_fail("oracle:open-after-error", "an accept failed, but the listener is still open");
                    break;
                }
                break;
            case 6: move(st->tcp, o, what); break;
            case 7:
                if (o.a != o.b && st->listen[o.b]) waiting[o.a] = waiting[o.b], ports[o.a] = ports[o.b], waiting[o.b] = 0;
                move(st->listen, o, what);
                break;
            case 8:
                if (st->udp[o.b]) thin[o.a] = thin[o.b];
                move(st->udp, o, what);
                break;
            case 9:
                if (o.b == 0 && st->tcp[o.a]) st->tcp[o.a]->close(), st->tcp[o.a]->close();
                else if (o.b == 1 && st->listen[o.a]) st->listen[o.a]->close();
                else if (o.b > 1 && st->udp[o.a]) st->udp[o.a]->close();
                break;
            case 10:
                if (o.b == 0) st->tcp[o.a].reset();
                else if (o.b == 1) st->listen[o.a].reset(), waiting[o.a] = 0;
                else if (o.b == 2) st->udp[o.a].reset();
                else st->tcp[o.a].reset();
                break;
            case 11:
                if (async)
                {
                    // Asynchronous sockets with requests, some of them without anybody else who owns them.
                    auto t = service->template create_socket<Tcp>();
                    auto u = service->template create_socket<Udp>();
                    if (t->is_open() && st->listen[o.b] && st->listen[o.b]->is_listening())
                    {
                        ConnectedState const r = t->connect_async(local<EP>(ports[o.b]), [](ConnectedState) {});
                        if (r != ConnectedState::Disconnected) t->receive_async([](std::string) {});
                    }
                    if (u->is_open()) u->receive_async([](std::string) {});
                    if (o.mode) st->atcp.push_back(t), st->audp.push_back(u);
                    else if (u->is_open()) u->send_async(local<EP>(9), "x", [u](std::size_t) {});
                }
                break;
            case 12:
                if (st->tcp[o.a]) st->tcp[o.a]->set_io_mode(mode);
                break;
            case 13:
                if (auto &c = st->tcp[o.a]; c && c->is_connected()) (void)c->send("hello");
                else if (auto &u = st->udp[o.a]; u && u->is_open()) (void)u->send(local<EP>(9), "hello");
                break;
            case 14:
                // A socket keeps the packet size it was made with, wherever it is moved.
                for (int k = 0; k < N; ++k)
                {
                    int const at = (o.a + k) % N;
                    auto &u = st->udp[at];
                    if (!u || !u->is_open()) continue;
                    Udp to(config, IOMode::Synchronous);
                    port_type const port = static_cast<port_type>(next_port++);
                    if (!to.is_open() || !to.bind(local<EP>(port), BindMode::AllowReuse)) break;
                    if (u->send(local<EP>(port), "twenty bytes of text") != 20) break;
                    std::string const first = to.receive();
                    if (!to.is_open()) break; // a fault
                    sim_probe(O_Packets);
                    std::string const expected = thin[at] ? "twenty " : "twenty bytes of text";
                    if (!first.empty() && first != expected) sim_fail("oracle:packet-size", "a socket for packets of %d bytes sent one of %zu", thin[at] ? 7 : 1000, first.size());
                    break;
                }
                break;
            default: break;
        }
        check(what);
    }
    // Everything goes, in some order.
    bool const service_first = coin(50);
    if (service_first)
    {
        std::weak_ptr<SocketService> const weak = service;
        service.reset();
        sim_probe(O_ServiceGone);
        // Nobody could complete a request any more: none is accepted.
        int told = 0;
        if (wait_until([&]() { return weak.expired(); }, 10 * sec))
        {
            auto refuse = [&](auto &tcp) {
                if (tcp.send_async("x", [&told](std::size_t) { ++told; })) sim_fail("oracle:accepted-in-vain", "an asynchronous send was accepted without a socket service");
                if (tcp.receive_async([&told](std::string) { ++told; })) sim_fail("oracle:accepted-in-vain", "an asynchronous receive was accepted without a socket service");
            };
            auto refuse_udp = [&](auto &udp) {
                if (udp.send_async(local<EP>(9), "x", [&told](std::size_t) { ++told; })) sim_fail("oracle:accepted-in-vain", "an asynchronous send was accepted without a socket service");
                if (udp.receive_async([&told](std::string) { ++told; })) sim_fail("oracle:accepted-in-vain", "an asynchronous receive was accepted without a socket service");
            };
            for (auto &s : st->atcp) refuse(*s);
            for (auto &s : st->audp) refuse_udp(*s);
            for (auto &s : st->tcp)
                if (s)
                {
                    refuse(*s);
                    if (s->connect_async(local<EP>(9), [&told](ConnectedState) { ++told; }) != ConnectedState::Disconnected) sim_fail("oracle:accepted-in-vain", "an asynchronous connect was accepted without a socket service");
                }
            for (auto &s : st->udp)
                if (s) refuse_udp(*s);
            for (auto &s : st->listen)
                if (s && s->accept_async([&told](std::shared_ptr<Tcp>) { ++told; })) sim_fail("oracle:accepted-in-vain", "an asynchronous accept was accepted without a socket service");
            if (told) sim_fail("oracle:told", "a request completed although it was rejected");
        }
        else if (async) sim_fail("oracle:service-kept", "the socket service is not released");
    }
    else if (async && coin(30))
    {
        // A request whose result nobody wants is not accepted either.
        for (auto &s : st->atcp)
            if (s->receive_async(nullptr) || s->send_async("x", nullptr)) sim_fail("oracle:accepted-in-vain", "a request without a callback was accepted");
        for (auto &s : st->audp)
            if (s->receive_async(nullptr) || s->send_async(local<EP>(9), "x", nullptr)) sim_fail("oracle:accepted-in-vain", "a request without a callback was accepted");
    }
    if (coin(50)) st->atcp.clear(), st->audp.clear();
    if (manager) manager->stop();
    st->atcp.clear(), st->audp.clear();
    for (auto &s : st->tcp) s.reset();
    for (auto &s : st->listen) s.reset();
    for (auto &s : st->udp) s.reset();
    service.reset();
    runner.reset();
    manager.reset();
    if (sim_net_open_fds() != 0) sim_fail("oracle:descriptor-leak", "%d descriptors are open after all sockets are gone", sim_net_open_fds());
    if (sim_net_created() != sim_net_closed()) sim_fail("oracle:descriptor-leak", "%lu descriptors were opened, %lu closed", (unsigned long)sim_net_created(), (unsigned long)sim_net_closed());
    sim_hash(sim_net_created());
    sim_stop();
}

// ---- progress under load ------------------------------------------------------------------------
enum { F_Flood, F_Stream, F_Recv, F_Send, F_Connect };
#define FAIR_PROBES "datagrams_without_end", "stream_without_end", "receive", "send", "connection"

// Some sockets always have something to do; requests of the others complete all the same.
template <typename EP>
void fair_net()
{
    using Tcp = TcpSocket<EP>;
    using Listen = ListenSocket<EP>;
    using Udp = UdpSocket<EP>;
    sim_time_budget(4000 * sec);
    quiet_default_logger();
    struct Load
    {
        int kind = 0; // 0: sends datagrams; 1: receives them; 2: sends to, 3: receives from a stream
        int index = 0;
        std::shared_ptr<Udp> udp;
        std::shared_ptr<Tcp> tcp;
        port_type to = 0;
        std::int64_t dur = 0;
        long steps = 0;
        std::string text;
    };
    struct Test
    {
        int kind = 0; // 0: receive, 1: send, 2: connect, accept and transfer
        std::int64_t pause = 0;
        std::shared_ptr<Udp> udp;
        std::shared_ptr<Tcp> client, server;
        std::shared_ptr<Listen> listener;
        port_type port = 0;
        int done = 0, needed = 1;
    };
    struct State
    {
        std::deque<Load> loads;
        std::deque<Test> tests;
        bool over = false;
        int in_callback = 0;
        std::function<void(Load &)> step;
    };
    auto *st = new State;
    int const workers = static_cast<int>(sim_param("workers", 1, 3));
    std::int64_t const wait = 1000 * static_cast<std::int64_t>(R(1, 20));
    auto config = std::make_shared<NetConf>(wait, 1000);
    sim_net_params(coin(50) ? 0 : 30000, 1460, 16384);
    int const nfloods = static_cast<int>(sim_param("floods", 0, 3)), nstreams = static_cast<int>(sim_param("streams", nfloods ? 0 : 1, 2)), ntests = static_cast<int>(sim_param("tests", 1, 5));
    int const rate = coin(50) ? 0 : static_cast<int>(R(50, 1000));
    auto manager = TaskManager::create(static_cast<std::uint32_t>(workers));
    auto runner = SequencedTaskRunner::create(manager);
    auto service = SocketService::create(runner, config);
    auto port_of = [](int i) { return static_cast<port_type>(6000 + i); };
    auto connect = [&](std::shared_ptr<Tcp> &a, std::shared_ptr<Tcp> &b, port_type port) {
        // before the load starts
        auto listener = service->template create_socket<Listen>();
        if (!listener->bind(local<EP>(port), BindMode::AllowReuse) || !listener->listen()) sim_fail("oracle:listen", "the listener does not listen");
        int *told = new int(0);
        std::shared_ptr<Tcp> *to = new std::shared_ptr<Tcp>;
        listener->accept_async([told, to](std::shared_ptr<Tcp> s) {
            Ignore ig;
            *to = std::move(s);
            ++*told;
        });
        a = service->template create_socket<Tcp>();
        ConnectedState const r = a->connect_async(local<EP>(port), [told](ConnectedState) {
            Ignore ig;
            ++*told;
        });
        if (!wait_until([&] { return *told == (r == ConnectedState::Connecting ? 2 : 1); }, 60 * sec)) sim_fail("oracle:stalled", "a connection is not established");
        Ignore ig;
        b = *to;
        if (!b) sim_fail("oracle:accept", "an accept failed");
    };
    std::int64_t round = 0;
    auto load = [&](int kind) -> Load & {
        st->loads.emplace_back();
        Load &l = st->loads.back();
        l.kind = kind, l.index = static_cast<int>(st->loads.size()) - 1, l.dur = static_cast<std::int64_t>(R(5, 200)) * 1000;
        l.text.assign(static_cast<std::size_t>(kind == 2 ? R(1, 6000) : R(1, 1000)), 'x');
        round += l.dur + 100000;
        return l;
    };
    for (int i = 0; i < nfloods; ++i)
    {
        // (In callbacks of the one, the other one always has something to do.)
        Load &out = load(0), &in = load(1);
        out.udp = service->template create_socket<Udp>(), in.udp = service->template create_socket<Udp>();
        out.to = port_of(i);
        if (!in.udp->bind(local<EP>(out.to), BindMode::AllowReuse)) sim_fail("oracle:bind", "a socket cannot be bound");
        sim_probe(F_Flood);
    }
    for (int i = 0; i < nstreams; ++i)
    {
        Load &out = load(2), &in = load(3);
        connect(out.tcp, in.tcp, port_of(10 + i));
        sim_probe(F_Stream);
    }
    for (int i = 0; i < ntests; ++i)
    {
        st->tests.emplace_back();
        Test &t = st->tests.back();
        t.kind = static_cast<int>(R(0, 2)), t.port = port_of(20 + i), t.pause = coin(50) ? static_cast<std::int64_t>(R(0, 3000)) * 1000 : 0;
        t.needed = t.kind == 2 ? 4 : 1;
    }
    int const raw = ::socket(EP::is_ipv4() ? AF_INET : AF_INET6, SOCK_DGRAM, 0);
    for (int kind : {SF_NET_PARTIAL, SF_NET_AGAIN, SF_SELECT_SPUR}) sim_fault_rate(kind, rate);
    sim_faults_enable(1);
    st->step = [st](Load &l) {
        {
            Ignore ig;
            if (st->over) return;
        }
        Load *lp = &l;
        auto done = [st, lp](std::size_t got) {
            std::int64_t dur;
            {
                Ignore ig;
                if (++st->in_callback != 1) sim_fail("oracle:overlap", "two completions of a socket service run at once");
                if (got == 0) sim_fail("oracle:false-error", "request %ld of socket %d failed without a reason", lp->steps, lp->index);
                ++lp->steps;
                dur = lp->dur;
            }
            sim_sleep_ns(dur);
            {
                Ignore ig;
                --st->in_callback;
            }
            st->step(*lp);
        };
        auto sent = [done](std::size_t n) { done(n); };
        auto received = [done](std::string data) { done(data.size()); };
        bool ok = false;
        switch (l.kind)
        {
            case 0: ok = l.udp->send_async(local<EP>(l.to), l.text, sent); break;
            case 1: ok = l.udp->receive_async(received); break;
            case 2: ok = l.tcp->send_async(l.text, sent); break;
            case 3: ok = l.tcp->receive_async(received); break;
        }
        if (!ok) sim_fail("oracle:rejected", "an asynchronous request of socket %d was not accepted", l.index);
    };
    for (Load &l : st->loads) st->step(l);
    auto finished = [st](Test &t, bool ok, char const *what) {
        Ignore ig;
        if (!ok) sim_fail("oracle:false-error", "%s failed without a reason", what);
        if (++t.done > t.needed) sim_fail("oracle:completed-twice", "a request completed twice");
    };
    for (Test &test : st->tests)
    {
        Test *t = &test;
        if (t->pause) sim_sleep_ns(t->pause);
        if (t->kind < 2) t->udp = service->template create_socket<Udp>();
        if (t->kind == 0)
        {
            sim_probe(F_Recv);
            if (!t->udp->bind(local<EP>(t->port), BindMode::AllowReuse)) sim_fail("oracle:bind", "a socket cannot be bound");
            t->udp->receive_async([t, finished](std::string data) { finished(*t, data == "hello", "a receive"); });
            if (coin(50)) sim_sleep_ns(static_cast<std::int64_t>(R(0, 3000)) * 1000);
            Udp sender(config);
            if (sender.send(local<EP>(t->port), "hello") != 5) sim_fail("oracle:false-error", "a send failed without a reason");
        }
        else if (t->kind == 1)
        {
            sim_probe(F_Send);
            t->udp->send_async(local<EP>(9), "hello", [t, finished](std::size_t n) { finished(*t, n == 5, "a send"); });
        }
        else
        {
            sim_probe(F_Connect);
            t->listener = service->template create_socket<Listen>();
            if (!t->listener->bind(local<EP>(t->port), BindMode::AllowReuse) || !t->listener->listen()) sim_fail("oracle:listen", "the listener does not listen");
            t->listener->accept_async([t, finished](std::shared_ptr<Tcp> s) {
                if (s)
                {
                    {
                        Ignore ig;
                        t->server = s;
                    }
                    s->receive_async([t, finished](std::string data) { finished(*t, !data.empty() && std::string("hello").starts_with(data), "a receive"); });
                }
                finished(*t, s != nullptr, "an accept");
            });
            auto client = t->client = service->template create_socket<Tcp>();
            auto up = [t, finished](Tcp &c) {
                c.send_async("hello", [t, finished](std::size_t n) { finished(*t, n == 5, "a send"); });
                finished(*t, true, "a connect");
            };
            std::weak_ptr<Tcp> const weak = client;
            ConnectedState const r = client->connect_async(local<EP>(t->port), [t, finished, up, weak](ConnectedState s) {
                auto c = weak.lock();
                if (s == ConnectedState::Connected && c) up(*c);
                else finished(*t, false, "a connect");
            });
            if (r == ConnectedState::Connected) up(*client);
            else if (r == ConnectedState::Disconnected) finished(*t, false, "a connect");
        }
    }
    // Faults end, the load goes on.
    sim_drain();
    std::int64_t const bound = 40 * (round + wait * 1000 + ntests * ms) + 200 * ms;
    if (!wait_until([&] {
            for (Test const &t : st->tests)
                if (t.done < t.needed) return false;
            return true;
        }, bound))
    {
        Ignore ig;
        static char const *const kinds[] = {"a receive for which a datagram is there", "a send", "a connection"};
        for (Test const &t : st->tests)
            if (t.done < t.needed) sim_fail("oracle:starved", "%s made no progress within %ld ms, while %d other sockets are busy", kinds[t.kind], (long)(bound / ms), static_cast<int>(st->loads.size()));
    }
    std::vector<long> before;
    {
        Ignore ig;
        for (Load const &l : st->loads) before.push_back(l.steps);
    }
    int slow = 0;
    if (!wait_until([&] {
            for (std::size_t i = 0; i < before.size(); ++i)
                if (st->loads[i].steps == before[i]) { slow = static_cast<int>(i); return false; }
            return true;
        }, bound))
        sim_fail("oracle:starved", "busy socket %d made no progress within %ld ms", slow, (long)(bound / ms));
    {
        Ignore ig;
        st->over = true;
    }
    manager->stop();
    ::close(raw);
    std::uint64_t tag = 0;
    for (Load &l : st->loads) tag = tag * 31 + static_cast<std::uint64_t>(l.steps), l.udp.reset(), l.tcp.reset();
    for (Test &t : st->tests) t.udp.reset(), t.client.reset(), t.server.reset(), t.listener.reset();
    sim_hash(tag);
    sim_stop();
}

// ---- addresses ----------------------------------------------------------------------------------
enum { B_Refused, B_TakenOver, B_Lingers, B_Over, B_AtOnce, B_Name, B_NoName, B_Shared, B_Open };
#define BIND_PROBES                                                                                                                      \
    "bind_refused", "listener_taken_over", "port_lingers", "lingering_over", "binds_at_once", "bound_by_name", "name_not_resolved", "address_shared", \
        "taken_over_with_open_connections"

template <typename EP>
void bind_net()
{
    using Tcp = TcpSocket<EP>;
    using Listen = ListenSocket<EP>;
    using Udp = UdpSocket<EP>;
    sim_time_budget(20000 * sec);
    quiet_default_logger();
    struct Address { bool wild = false; int ip = 1; port_type port = 0; };
    struct Slot
    {
        bool tcp = false, reuse = false, bound = false, listening = false;
        Address at;
        std::shared_ptr<Listen> l;
        std::shared_ptr<Udp> u;
        std::uint64_t id = 0;
        int pending = 0; // accepts asked for and not answered
        bool left = false; // a connection was not accepted
    };
    struct Conn
    {
        Address at;
        bool reuse = false;
        std::shared_ptr<Tcp> server, client;
        bool was_accepted = false, idle = true;
        std::int64_t fail_until = 0, maybe_until = 0;
    };
    struct Got // what callbacks report
    {
        std::atomic<int> published{0};
        int told = 0;
        std::deque<std::shared_ptr<Tcp>> accepted;
        ConnectedState state = ConnectedState::Disconnected;
        std::string data;
        std::size_t sent = 0;
    };
    bool const async = sim_param("async", 0, 1) != 0;
    int const nops = amount("ops", 3, 25, 160);
    static std::int64_t const lats[] = {0, 30000, 300000};
    std::int64_t const lat = lats[R(0, 2)];
    sim_net_params(lat, 1460, 16384);
    sim_net_set_addr("alpha", htonl(INADDR_LOOPBACK));
    sim_net_set_addr("beta", htonl(INADDR_LOOPBACK + 1));
    auto config = std::make_shared<NetConf>(static_cast<std::int64_t>(R(5, 80) * 1000), 1000);
    int const nports = static_cast<int>(R(1, 3));
    std::shared_ptr<TaskManager> manager;
    std::shared_ptr<SequencedTaskRunner> runner;
    std::shared_ptr<SocketService> service;
    if (async)
    {
        manager = TaskManager::create(static_cast<std::uint32_t>(sim_param("workers", 1, 3)));
        runner = SequencedTaskRunner::create(manager);
        service = SocketService::create(runner, config);
    }
    bool const v4 = EP::is_ipv4();
    if (coin(40))
    {
        int const rate = static_cast<int>(R(20, 400));
        sim_fault_rate(SF_NET_ERR, rate);
        sim_fault_rate(SF_NET_REFUSE, rate);
    }
    sim_faults_enable(1);
    auto faults = [] { return sim_fault_count(SF_NET_ERR) + sim_fault_count(SF_NET_REFUSE); };
    auto endpoint = [&](Address const &a) -> EP {
        if (a.wild) return any_address<EP>(a.port);
        if constexpr (std::is_same_v<EP, V4>)
        {
            if (a.ip == 2) return V4(IPv4Address(htonl(INADDR_LOOPBACK + 1)), a.port);
        }
        return local<EP>(a.port);
    };
    auto text = [&](Address const &a) { return std::string(a.wild ? "any:" : a.ip == 2 ? "second:" : "first:") + std::to_string(a.port); };
    auto overlap = [](Address const &a, Address const &b) { return a.port == b.port && (a.wild || b.wild || a.ip == b.ip); };
    std::deque<Slot> slots;
    std::deque<Conn> conns;
    auto got = std::make_shared<Got>();
    // What the system has to say about a bind: 0 it must fail, 1 either, 2 it must succeed.
    std::string reason;
    auto verdict = [&](bool tcp, Address const &a, bool reuse) {
        int v = 2;
        for (Slot const &s : slots)
            if (s.bound && s.tcp == tcp && overlap(s.at, a) && !(reuse && s.reuse && !s.listening))
            {
                reason = std::string("a socket is ") + (s.listening ? "listening" : "bound") + " there";
                return 0;
            }
        if (!tcp) return v;
        for (Conn const &c : conns)
        {
            if (!overlap(c.at, a) || (reuse && c.reuse)) continue;
            if (!c.was_accepted) continue;
            if (c.server && c.client) { reason = "a connection is open there"; return 0; }
            if (c.server) { v = std::min(v, 1); continue; }
            if (sim_now() < c.fail_until) { sim_probe(B_Lingers); reason = "a connection that was closed a moment ago lingers there"; return 0; }
            if (sim_now() < c.maybe_until) v = std::min(v, 1);
            else sim_probe(B_Over);
        }
        return v;
    };
    auto gone = [&](Slot &s) { s.l.reset(), s.u.reset(), s.bound = s.listening = false; };
    auto release = [&](Slot &s) {
        std::uint64_t const id = s.id;
        if (!async && s.l && coin(50))
        {
            s.l->close();
            if (s.l->is_open() || s.l->is_listening()) sim_fail("oracle:open-after-close", "a closed listener reports to be open");
        }
        gone(s);
        if (id && !wait_until([&] { return sim_net_info(id, SN_OPEN) == 0; }, 10 * sec)) sim_fail("oracle:not-closed", "the descriptor of a released socket stays open");
        if (s.pending) got->told = 0;
        s.id = 0;
    };
    auto bind = [&](Slot &s, Address a, int how) -> bool {
        // how: 0 endpoint, 1 name
        std::string name = a.wild ? (v4 ? "0.0.0.0" : "::") : v4 ? (a.ip == 2 ? "beta" : coin(50) ? "alpha" : "127.0.0.1") : "localhost";
        std::string const longer = name + "beta";
        int const before = faults();
        int const v = verdict(s.tcp, a, s.reuse);
        BindMode const mode = s.reuse ? BindMode::AllowReuse : BindMode::SingleUse;
        std::string_view const sv(longer.data(), name.size());
        bool const ok = s.tcp ? (how ? s.l->bind(sv, a.port, mode) : s.l->bind(endpoint(a), mode)) : how ? s.u->bind(sv, a.port, mode) : s.u->bind(endpoint(a), mode);
        bool const faulted = faults() != before;
        if (how && ok) sim_probe(B_Name);
        if (ok && v == 0) sim_fail("oracle:shared", "a bind of %s for %s use succeeded, but %s", text(a).c_str(), s.reuse ? "shared" : "single", reason.c_str());
        if (!ok && v == 2 && !faulted) sim_fail("oracle:bind", "a bind of %s for %s use failed, but the address is free", text(a).c_str(), s.reuse ? "shared" : "single");
        if (!ok)
        {
            sim_probe(B_Refused);
            if (!(s.tcp ? s.l->is_open() : s.u->is_open())) sim_fail("oracle:closed", "a bind that failed closed its socket");
            return false;
        }
        for (Slot const &o : slots)
            if (&o != &s && o.bound && o.tcp == s.tcp && overlap(o.at, a)) sim_probe(B_Shared);
        for (Conn const &c : conns)
            if (s.tcp && overlap(c.at, a) && c.server && c.client) sim_probe(B_Open);
        int const again = faults();
        auto const at = s.tcp ? s.l->local_endpoint() : s.u->local_endpoint();
        if (!at && faults() == again) sim_fail("oracle:endpoint", "a bound socket has no local endpoint");
        if (at && a.port == 0) a.port = at->port();
        if (at && (a.port == 0 || !(at->address() == endpoint(a).address()) || at->port() != a.port))
            sim_fail("oracle:endpoint", "a socket bound to %s reports port %d and %s address", text(a).c_str(), at->port(), at->address() == endpoint(a).address() ? "the right" : "another");
        s.bound = true, s.at = a;
        if (!at) s.at.port = a.port;
        return true;
    };
    auto add = [&](bool tcp, bool reuse) -> Slot * {
        if (slots.size() >= 24) return nullptr;
        slots.emplace_back();
        Slot &s = slots.back();
        s.tcp = tcp, s.reuse = reuse;
        if (tcp) s.l = async ? service->template create_socket<Listen>() : std::make_shared<Listen>(config);
        else s.u = async ? service->template create_socket<Udp>() : std::make_shared<Udp>(config);
        if ((tcp && (!s.l || !s.l->is_open())) || (!tcp && (!s.u || !s.u->is_open())))
        {
            if (faults() == 0) sim_fail("oracle:create", "a socket could not be created");
            slots.pop_back();
            return nullptr;
        }
        s.id = sim_net_id(tcp ? s.l->handle() : s.u->handle());
        return &s;
    };
    auto listen = [&](Slot &s) {
        if (!s.tcp || !s.l) return;
        bool free = true;
        for (Slot const &o : slots)
            if (&o != &s && o.listening && overlap(o.at, s.at)) free = false;
        int const before = faults();
        bool const ok = s.l->listen();
        if (ok && !s.listening && !free) sim_fail("oracle:shared", "two sockets listen at %s", text(s.at).c_str());
        if (!ok && free && faults() == before) sim_fail("oracle:listen", "a bound socket does not listen");
        if (ok != s.l->is_listening()) sim_fail("oracle:listening-state", "listen() returned %d, but the socket reports %d", ok, s.l->is_listening());
        // (After a failed second listen() the socket reports not to listen any more.)
        s.listening = s.listening || ok;
    };
    auto wait = [&](int n) {
        bool const ok = wait_until([&] { return got->told >= n; }, 60 * sec);
        got->published.load(); // what the callbacks did is ordered before what follows
        return ok;
    };
    auto connect = [&](Slot &s, bool accept, bool by_name) {
        if (!s.listening || !s.l || s.left) return;
        for (Slot const &o : slots) // which of two gets the connection is left open
            if (&o != &s && o.listening && overlap(o.at, s.at)) return;
        conns.emplace_back();
        Conn &c = conns.back();
        c.at = s.at, c.reuse = s.reuse;
        if (c.at.wild) c.at.wild = false, c.at.ip = 1;
        int const before = faults();
        bool const name = by_name && v4;
        std::string const host = c.at.ip == 2 ? "betalpha" : "alphabeta";
        std::string_view const sv(host.data(), c.at.ip == 2 ? 4 : 5);
        if (!async)
        {
            c.client = std::make_shared<Tcp>(config);
            if (!c.client->is_open()) { conns.pop_back(); return; }
            ConnectedState const st = name ? c.client->connect(sv, c.at.port) : c.client->connect(endpoint(c.at));
            if (st != ConnectedState::Connected)
            {
                if (faults() == before) sim_fail("oracle:refused", "a connection to %s was refused, although a socket listens there", text(c.at).c_str());
                c.client.reset();
                return;
            }
            s.left = true;
            if (!accept) return;
            auto t = s.l->accept();
            s.left = false;
            if (!t)
            {
                if (faults() == before) sim_fail("oracle:accept", "an accept failed for no reason");
                gone(s);
                return;
            }
            c.server = std::make_shared<Tcp>(std::move(*t));
        }
        else
        {
            int need = 1;
            {
                Ignore ig;
                got->told = 0;
            }
            if (accept && !s.pending)
            {
                s.pending = 1;
                s.l->accept_async([got](std::shared_ptr<Tcp> t) {
                    got->published.store(1);
                    Ignore ig;
                    got->accepted.push_back(std::move(t));
                    ++got->told;
                });
            }
            accept = s.pending != 0;
            if (accept) ++need;
            else s.left = true;
            c.client = service->template create_socket<Tcp>();
            if (!c.client || !c.client->is_open()) { conns.pop_back(); s.pending ? release(s) : void(); return; }
            auto told = [got](ConnectedState st) {
                got->published.store(1);
                Ignore ig;
                got->state = st;
                ++got->told;
            };
            ConnectedState const st = name ? c.client->connect_async(sv, c.at.port, told) : c.client->connect_async(endpoint(c.at), told);
            if (st != ConnectedState::Connecting)
            {
                Ignore ig;
                got->state = st;
                ++got->told;
            }
            bool const all = wait(st == ConnectedState::Disconnected ? 1 : need);
            ConnectedState state;
            std::shared_ptr<Tcp> t;
            bool answered = false;
            {
                Ignore ig;
                state = got->state;
                if (!got->accepted.empty()) answered = true, t = got->accepted.front(), got->accepted.clear();
            }
            if (answered) s.pending = 0;
            if (faults() == before)
            {
                if (!all) sim_fail("oracle:stalled", "a connection to %s is not established", text(c.at).c_str());
                if (state != ConnectedState::Connected) sim_fail("oracle:refused", "a connection to %s was refused, although a socket listens there", text(c.at).c_str());
                if (accept && !t) sim_fail("oracle:accept", "an accept failed for no reason");
            }
            if (answered && !t) { release(s); c.client.reset(); return; }
            if (state != ConnectedState::Connected || (accept && !answered))
            {
                c.client.reset();
                if (s.pending) release(s);
                return;
            }
            c.server = t;
        }
        if (!c.server) return;
        c.was_accepted = true;
        if (!c.server->is_open()) { c.server.reset(); c.maybe_until = sim_now() + 80 * sec; return; }
        int const again = faults();
        auto const sl = c.server->local_endpoint(), sr = c.server->remote_endpoint(), cl = c.client->local_endpoint(), cr = c.client->remote_endpoint();
        if (faults() != again) return;
        if (!sl || !sr || !cl || !cr) sim_fail("oracle:endpoint", "an endpoint of a connection is not known");
        if (!(*sl == *cr) || !(*sr == *cl)) sim_fail("oracle:endpoint", "the two sides of a connection name different endpoints (ports %d-%d and %d-%d)", sl->port(), sr->port(), cr->port(), cl->port());
        if (!(*cr == endpoint(c.at))) sim_fail("oracle:endpoint", "a connection to %s reports port %d as its remote endpoint", text(c.at).c_str(), cr->port());
    };
    auto close_server = [&](Conn &c) {
        if (!c.server) return;
        std::int64_t const now = sim_now();
        bool const first = c.client && c.idle;
        std::uint64_t const id = sim_net_id(c.server->handle());
        if (!async) c.server->close();
        c.server.reset();
        if (id && !wait_until([&] { return sim_net_info(id, SN_OPEN) == 0; }, 10 * sec)) sim_fail("oracle:not-closed", "the descriptor of a released socket stays open");
        if (first) c.fail_until = now + 55 * sec;
        c.maybe_until = sim_now() + 80 * sec;
    };
    auto exchange = [&](Conn &c) {
        if (!c.server || !c.client) return;
        for (int dir = 0; dir < 2; ++dir)
        {
            Tcp &from = dir ? *c.server : *c.client, &to = dir ? *c.client : *c.server;
            std::string const m = "message " + std::to_string(R(0, 99));
            int const before = faults();
            std::size_t sent;
            std::string data;
            if (!async)
            {
                sent = from.send(m);
                if (sent == m.size()) data = to.receive();
            }
            else
            {
                {
                    Ignore ig;
                    got->told = 0, got->sent = 0, got->data.clear();
                }
                from.send_async(m, [got](std::size_t n) {
                    got->published.store(1);
                    Ignore ig;
                    got->sent = n, ++got->told;
                });
                if (!wait(1)) sim_fail("oracle:stalled", "a send does not complete");
                {
                    Ignore ig;
                    sent = got->sent;
                }
                if (sent == m.size())
                {
                    to.receive_async([got](std::string d) {
                        got->published.store(1);
                        Ignore ig;
                        got->data = std::move(d), ++got->told;
                    });
                    if (!wait(2)) sim_fail("oracle:stalled", "a receive does not complete");
                    Ignore ig;
                    data = got->data;
                }
            }
            if (faults() != before)
            {
                if (sent == m.size() && data == m) continue;
                // one side closed itself; what became of the other one does not matter
                c.server.reset(), c.client.reset();
                c.idle = false;
                c.maybe_until = sim_now() + 80 * sec;
                return;
            }
            if (sent != m.size() || data != m) sim_fail("oracle:connection", "an open connection at %s does not transport data", text(c.at).c_str());
        }
    };
    auto datagram = [&](Slot &s) {
        if (s.tcp || !s.bound || !s.u) return;
        for (Slot const &o : slots)
            if (&o != &s && o.bound && !o.tcp && overlap(o.at, s.at)) return;
        Address to = s.at;
        if (to.wild) to.wild = false, to.ip = 1;
        Udp sender(config);
        int const before = faults();
        if (!sender.is_open()) return;
        std::string const m = "datagram " + std::to_string(R(0, 99));
        std::size_t const n = sender.send(endpoint(to), m);
        if (n != m.size())
        {
            if (faults() == before) sim_fail("oracle:false-error", "a datagram was not sent");
            return;
        }
        std::string data;
        if (!async) data = s.u->receive();
        else
        {
            {
                Ignore ig;
                got->told = 0, got->data.clear();
            }
            s.u->receive_async([got](std::string d) {
                got->published.store(1);
                Ignore ig;
                got->data = std::move(d), ++got->told;
            });
            if (!wait(1)) sim_fail("oracle:stalled", "a datagram for %s does not arrive", text(s.at).c_str());
            Ignore ig;
            data = got->data;
        }
        if (faults() != before && data != m) { release(s); return; }
        if (data != m) sim_fail("oracle:datagram", "the socket bound to %s received something else than what was sent there", text(s.at).c_str());
    };
    auto pick = [&](auto &list) -> auto * { return list.empty() ? nullptr : &list[R(0, list.size() - 1)]; };
    int races = 0;
    for (int i = 0; i < nops; ++i)
    {
        int kind = static_cast<int>(R(0, 99));
        Address a;
        a.wild = coin(30), a.ip = v4 && coin(30) ? 2 : 1, a.port = static_cast<port_type>(coin(5) ? 0 : 6000 + static_cast<int>(R(0, static_cast<std::uint64_t>(nports) - 1)));
        bool const tcp = coin(70), reuse = coin(65), name = coin(25);
        static char const *const names[] = {"bind", "listen", "connect", "close server", "close client", "exchange", "release", "take over", "wait", "at once", "datagram", "unknown name"};
        int const op = kind < 22 ? 0 : kind < 34 ? 1 : kind < 50 ? 2 : kind < 57 ? 3 : kind < 61 ? 4 : kind < 67 ? 5 : kind < 73 ? 6 : kind < 83 ? 7 : kind < 87 ? 8 : kind < 92 ? 9 : kind < 98 ? 10 : 11;
        std::uint64_t const which = R(0, 1000), n = R(2, 4);
        std::int64_t const pause = coin(50) ? static_cast<std::int64_t>(R(0, 1000)) * ms : static_cast<std::int64_t>(R(1, 100)) * sec;
        if (!sim_op("%s %s%s", names[op], text(a).c_str(), reuse ? " shared" : "")) continue;
        auto slot = [&] { return slots.empty() ? nullptr : &slots[which % slots.size()]; };
        auto conn = [&] { return conns.empty() ? nullptr : &conns[which % conns.size()]; };
        auto listening = [&]() -> Slot * {
            for (std::size_t k = 0; k < slots.size(); ++k)
                if (Slot &s = slots[(which + k) % slots.size()]; s.listening) return &s;
            return nullptr;
        };
        switch (op)
        {
            case 0:
                if (Slot *s = add(tcp, reuse))
                {
                    bool ok = bind(*s, a, name);
                    if (!ok && coin(50))
                    {
                        // the socket is as it was before
                        Address free;
                        free.port = static_cast<port_type>(20000 + i);
                        ok = bind(*s, free, 0);
                    }
                    if (ok && s->tcp && coin(50)) listen(*s);
                    if (ok && coin(10))
                    {
                        Address other = s->at;
                        other.port = static_cast<port_type>(21000 + i);
                        if (s->tcp ? s->l->bind(endpoint(other), BindMode::AllowReuse) : s->u->bind(endpoint(other), BindMode::AllowReuse))
                            sim_fail("oracle:bound-twice", "a socket could be bound twice");
                        s->reuse = false; // (the second bind may have changed the mode; not specified)
                        release(*s);
                    }
                }
                break;
            case 1:
                if (Slot *s = slot(); s && s->bound && !s->listening) listen(*s);
                break;
            case 2:
                if (Slot *s = listening()) connect(*s, coin(85), name);
                break;
            case 3:
                if (Conn *c = conn()) close_server(*c);
                break;
            case 4:
                if (Conn *c = conn(); c && c->client) c->client.reset();
                break;
            case 5:
                if (Conn *c = conn()) exchange(*c);
                break;
            case 6:
                if (Slot *s = slot()) release(*s);
                break;
            case 7:
                if (Slot *s = listening())
                {
                    Address const at = s->at;
                    release(*s);
                    Slot *t = add(true, reuse);
                    if (t && bind(*t, at, name))
                    {
                        sim_probe(B_TakenOver);
                        listen(*t);
                        if (coin(70)) connect(*t, true, false);
                    }
                }
                break;
            case 8: sim_sleep_ns(pause); break;
            case 9:
            {
                sim_probe(B_AtOnce);
                Address at;
                at.port = static_cast<port_type>(30000 + races++);
                std::vector<int> won(n, 0);
                std::vector<std::shared_ptr<Udp>> us(n);
                std::vector<std::shared_ptr<Listen>> ls(n);
                Threads threads;
                int const before = faults();
                for (std::size_t k = 0; k < n; ++k)
                    threads.start([k, tcp, reuse, at, config, &won, &us, &ls, &endpoint] {
                        BindMode const mode = k == 0 && reuse ? BindMode::AllowReuse : BindMode::SingleUse;
                        bool ok = false;
                        if (tcp)
                        {
                            auto l = std::make_shared<Listen>(config);
                            ok = l->is_open() && l->bind(endpoint(at), mode);
                            if (l->is_listening()) sim_fail("oracle:listening-early", "a socket reports to be listening before it was told to");
                            Ignore ig;
                            ls[k] = l;
                        }
                        else
                        {
                            auto u = std::make_shared<Udp>(config);
                            ok = u->is_open() && u->bind(endpoint(at), mode);
                            Ignore ig;
                            us[k] = u;
                        }
                        Ignore ig;
                        won[k] = ok;
                    });
                threads.join();
                int count = 0;
                for (int x : won) count += x;
                if (count > 1) sim_fail("oracle:shared", "%d of %d simultaneous binds for single use of one address succeeded", count, static_cast<int>(n));
                if (count == 0 && faults() == before) sim_fail("oracle:bind", "none of %d simultaneous binds of one address succeeded", static_cast<int>(n));
                break;
            }
            case 10:
                if (Slot *s = slot()) datagram(*s);
                break;
            case 11:
                if (Slot *s = add(tcp, reuse))
                {
                    sim_probe(B_NoName);
                    bool const ok = s->tcp ? s->l->bind("nowhere", a.port, BindMode::AllowReuse) : s->u->bind("nowhere", a.port, BindMode::AllowReuse);
                    if (ok) sim_fail("oracle:unknown-name", "a bind to a name that does not exist succeeded");
                    s->reuse = true;
                    bind(*s, a, 0);
                }
                break;
        }
    }
    for (Slot &s : slots) // whoever has an address still has it
        if (s.listening) connect(s, true, false);
        else datagram(s);
    for (Conn &c : conns) exchange(c);
    std::uint64_t tag = 0;
    for (Slot &s : slots) tag = tag * 31 + (s.bound ? s.at.port : 0);
    if (manager) manager->stop();
    for (Slot &s : slots) gone(s);
    conns.clear();
    {
        Ignore ig;
        got->accepted.clear();
    }
    service.reset(), runner.reset(), manager.reset();
    if (sim_net_open_fds() != 0) sim_fail("oracle:leak", "%d descriptors of sockets are left open", sim_net_open_fds());
    sim_hash(tag);
    sim_stop();
}

} // namespace

SIM_SCENARIO(net_fair, 1, FAIR_PROBES)
{
    if (coin(70)) fair_net<V4>();
    else fair_net<V6>();
}

SIM_SCENARIO(net_stream, 2, NET_PROBES)
{
    SoupCfg c;
    c.errors = false, c.churn = false;
    if (coin(70)) soup<V4>(c);
    else soup<V6>(c);
}

SIM_SCENARIO(net_faults, 3, NET_PROBES)
{
    SoupCfg c;
    if (coin(70)) soup<V4>(c);
    else soup<V6>(c);
}

SIM_SCENARIO(net_sync, 2, NET_PROBES)
{
    if (coin(70)) sync_net<V4>();
    else sync_net<V6>();
}

SIM_SCENARIO(net_udp, 2, UDP_PROBES)
{
    if (coin(70)) udp_net<V4>();
    else udp_net<V6>();
}

SIM_SCENARIO(net_own, 2, OWN_PROBES)
{
    if (coin(70)) own_net<V4>();
    else own_net<V6>();
}

SIM_SCENARIO(net_bind, 2, BIND_PROBES)
{
    if (coin(70)) bind_net<V4>();
    else bind_net<V6>();
}
