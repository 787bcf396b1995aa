// S02: signals that arrive at any moment while the handler is installed, replaced and removed.
#include "common.hpp"

#include "fly/system/system.hpp"

#include <csignal>

using namespace sim;

namespace {

// A value that the signal handler had: from the call that set it until the return of the next such call.
struct Value
{
    int handler = -1; // -1: the default effect
    std::uint64_t from = 0, to = UINT64_MAX;
};

struct World
{
    std::vector<Value> values;
    int sent = 0, seen = 0, handled = 0, defaults = 0;
    int sleeps[64] = {};
    std::uint64_t raced = 0;
};
World *W;

void outcome(int handler, int sig, std::uint64_t sent)
{
    std::uint64_t const now = sim_seq();
    bool ok = false;
    unsigned candidates = 0;
    for (auto const &v : W->values)
    {
        if (v.from > now || v.to < sent) continue;
        ++candidates;
        ok = ok || v.handler == handler;
    }
    if (!ok)
    {
        if (handler < 0) sim_fail("oracle:signal", "signal %d took its default effect although a handler was set all the time since it was sent", sig);
        else sim_fail("oracle:signal", "signal %d was given to handler %d, which was not set at any time since it was sent", sig, handler);
    }
    ++W->seen;
    if (candidates > 1) sim_probe(0); // sent or handled while the handler changes
    if (handler < 0) ++W->defaults, sim_probe(1);
    else ++W->handled, sim_probe(2);
    sim_hash(static_cast<std::uint64_t>(handler + 2) << 8 ^ static_cast<std::uint64_t>(sig));
}

void default_effect(int sig, std::uint64_t sent)
{
    Ignore i;
    outcome(-1, sig, sent);
}

// What a user's handler owns.
struct State
{
    int id;
    std::vector<int> data;
};

void handler_body(State const &state, int sig)
{
    int sleep = 0;
    // a plain read of what the handler owns: it must be alive, and published to this thread
    for (std::size_t i = 0; i < state.data.size(); ++i)
        if (state.data[i] != state.id * 100 + static_cast<int>(i)) sim_fail("oracle:state", "handler %d sees damaged state", state.id);
    {
        Ignore i;
        outcome(state.id, sig, sim_signal_sent());
        sleep = W->sleeps[state.id];
    }
    if (sleep > 0)
    {
        bool interrupted;
        {
            Ignore i;
            interrupted = W->values.back().handler != state.id;
        }
        sim_sleep_ns(sleep * ms / 10);
        Ignore i;
        if (!interrupted && W->values.back().handler != state.id) sim_probe(3); // replaced while it runs
    }
    else sim_point();
    for (std::size_t i = 0; i < state.data.size(); ++i)
        if (state.data[i] != state.id * 100 + static_cast<int>(i)) sim_fail("oracle:state", "handler %d sees damaged state", state.id);
}

int const SIGNALS[] = {SIGINT, SIGTERM, SIGILL, SIGFPE, SIGABRT, SIGSEGV, SIGSYS, SIGBUS};

} // namespace

SIM_SCENARIO(signal_handler, 1, "handler_changing", "default_effect", "handled", "replaced_while_running")
{
    World world;
    W = &world;
    sim_signal_default(default_effect);

    int const sets = amount("sets", 1, 7, 60);
    int const workers = static_cast<int>(sim_param("workers", 0, 3));
    bool const setter_accepts = workers == 0 || coin(50);
    int const signals = amount("signals", 1, 20, 150);
    struct Set
    {
        int handler;
        int big;
        std::int64_t wait;
    };
    std::vector<Set> plan;
    for (int i = 0; i < sets; ++i)
    {
        Set s {};
        if (!sim_op("set %d", i)) continue;
        s.handler = coin(35) ? -1 : i;
        s.big = coin(70) ? static_cast<int>(R(1, 6)) : 0;
        s.wait = coin(50) ? 0 : static_cast<std::int64_t>(R(0, 600)) * 1000;
        world.sleeps[i] = coin(30) ? static_cast<int>(R(1, 8)) : 0;
        plan.push_back(s);
    }
    struct Send
    {
        int sig;
        std::int64_t wait;
    };
    std::vector<Send> sends;
    for (int i = 0; i < signals; ++i)
    {
        if (!sim_op("signal %d", i)) continue;
        Send s {};
        s.sig = SIGNALS[R(0, 7)];
        s.wait = coin(60) ? 0 : static_cast<std::int64_t>(R(0, 300)) * 1000;
        sends.push_back(s);
    }
    world.values.reserve(128);
    world.values.push_back(Value {});

    std::atomic<int> setters {1}, senders {1};
    std::atomic<bool> finish {false};

    Threads threads;
    threads.start([&] {
        if (setter_accepts) sim_signals_accept(1);
        for (auto const &s : plan)
        {
            if (s.wait > 0) sim_sleep_ns(s.wait);
            fly::system::SignalHandler handler;
            if (s.handler >= 0)
            {
                State state;
                state.id = s.handler;
                for (int i = 0; i < s.big; ++i) state.data.push_back(s.handler * 100 + i);
                handler = [state = std::move(state)](int sig) { handler_body(state, sig); };
            }
            {
                Ignore i;
                Value v;
                v.handler = s.handler;
                v.from = sim_seq();
                world.values.push_back(v);
                sim_note("set handler %d", s.handler);
            }
            fly::system::set_signal_handler(std::move(handler));
            Ignore i;
            world.values[world.values.size() - 2].to = sim_seq();
            sim_note("handler %d is set", s.handler);
        }
        setters.fetch_sub(1);
        while (!finish.load())
        {
            sim_sleep_ns(ms / 10);
            sim_point();
        }
        sim_signals_accept(0);
    });
    for (int w = 0; w < workers; ++w)
    {
        threads.start([&] {
            sim_signals_accept(1);
            while (!finish.load())
            {
                sim_sleep_ns(ms / 20);
                sim_point();
            }
            sim_signals_accept(0);
        });
    }
    threads.start([&] {
        for (auto const &s : sends)
        {
            if (s.wait > 0) sim_sleep_ns(s.wait);
            else sim_point();
            NoPreempt np;
            if (sim_kill(s.sig) != 0) ++world.sent;
        }
        senders.fetch_sub(1);
    });

    if (!wait_until([&] { return setters.load() == 0 && senders.load() == 0; }, 2 * sec)) sim_fail("oracle:progress", "setting a signal handler does not return");
    // afterwards every signal has the effect of the last handler
    for (int sig : SIGNALS)
    {
        NoPreempt np;
        if (sim_kill(sig) != 0) ++world.sent;
    }
    if (!wait_until([&] { return world.seen == world.sent; }, 2 * sec, ms / 10))
        sim_fail("oracle:lost", "%d of %d signals had neither a handler run nor their default effect", world.sent - world.seen, world.sent);
    finish.store(true);
    threads.join();
    if (world.seen != world.sent) sim_fail("oracle:lost", "%d signals were sent and %d had an effect", world.sent, world.seen);
    // no handler that refers to this run is left behind
    fly::system::set_signal_handler(nullptr);
    sim_stop();
}
