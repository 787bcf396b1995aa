// C01 / C02: the concurrent queue and stack.
#include "common.hpp"

#include "fly/types/concurrency/concurrent_queue.hpp"
#include "fly/types/concurrency/concurrent_stack.hpp"

#include <algorithm>
#include <chrono>
#include <unordered_set>

using namespace sim;

namespace {

using Item = std::unique_ptr<std::uint64_t>;

enum Kind { Push, Pop, PopTimed, Size, Empty };
char const *const kind_names[] = {"push", "pop", "pop_timed", "size", "empty"};

struct Rec
{
    int tid;
    Kind kind;
    std::uint64_t arg;
    bool ok;
    std::uint64_t result;
    std::uint64_t inv, res;
    std::int64_t tinv, tres;
    bool done;
};

struct Plan
{
    Kind kind;
    std::uint64_t arg;
    std::int64_t pause;
};

// Linearizability by depth-first search with memoisation (histories are short).
struct Checker
{
    std::vector<Rec> h;
    bool lifo;
    std::unordered_set<std::string> seen;
    std::uint64_t visited = 0;

    bool go(std::uint32_t done, std::vector<std::uint64_t> &q)
    {
        if (done == (h.size() == 32 ? 0xffffffffu : ((1u << h.size()) - 1))) return true;
        if (++visited > 60000) return true; // give up: no verdict
        std::string key(reinterpret_cast<char const *>(&done), 4);
        key.append(reinterpret_cast<char const *>(q.data()), q.size() * 8);
        if (!seen.insert(key).second) return false;
        std::uint64_t first_res = UINT64_MAX;
        for (std::size_t i = 0; i < h.size(); ++i)
            if (!(done >> i & 1) && h[i].res < first_res) first_res = h[i].res;
        for (std::size_t i = 0; i < h.size(); ++i)
        {
            if ((done >> i & 1) || h[i].inv > first_res) continue;
            Rec const &r = h[i];
            switch (r.kind)
            {
                case Push:
                    q.push_back(r.arg);
                    if (go(done | 1u << i, q)) return true;
                    q.pop_back();
                    break;
                case Pop:
                case PopTimed:
                    if (!r.ok)
                    {
                        if (q.empty() && go(done | 1u << i, q)) return true;
                    }
                    else if (!q.empty())
                    {
                        std::size_t const at = lifo ? q.size() - 1 : 0;
                        if (q[at] == r.result)
                        {
                            q.erase(q.begin() + static_cast<long>(at));
                            if (go(done | 1u << i, q)) return true;
                            q.insert(q.begin() + static_cast<long>(at), r.result);
                        }
                    }
                    break;
                case Size:
                    if (q.size() == r.result && go(done | 1u << i, q)) return true;
                    break;
                case Empty:
                    if (q.empty() == (r.result != 0) && go(done | 1u << i, q)) return true;
                    break;
            }
        }
        return false;
    }
};

template <typename Container>
void run_container(bool lifo, bool liveness)
{
    int const nthreads = amount("threads", 2, 5, 12, 3);
    int const per = amount("ops_per_thread", 1, liveness ? 6 : 5, 40, 3);
    sim_fault_rate(SF_SPURIOUS, coin(40) ? 500 : 0);
    int const wpush = static_cast<int>(sim_plan_range(20, 60));
    bool const timed = coin(70);

    std::vector<std::vector<Plan>> plans(static_cast<std::size_t>(nthreads));
    std::uint64_t value = 1;
    std::size_t total = 0;
    for (int t = 0; t < nthreads; ++t)
    {
        int role = static_cast<int>(sim_plan_range(0, 2)); // mixed, producer, consumer
        for (int i = 0; i < per; ++i)
        {
            Plan p {};
            std::uint64_t const d = sim_plan_range(0, 99);
            bool push = static_cast<int>(d) < wpush;
            if (role == 1) push = d < 85;
            if (role == 2) push = d < 10;
            if (push) p.kind = Push;
            else if (sim_plan_range(0, 99) < 18) p.kind = coin(50) ? Size : Empty;
            else p.kind = (timed && coin(50)) ? PopTimed : Pop;
            static std::uint64_t const durs[] = {0, 1, 3, 10, 40, 2000};
            if (p.kind == Push) p.arg = value++;
            if (p.kind == PopTimed) p.arg = durs[sim_plan_range(0, 5)];
            p.pause = coin(25) ? static_cast<std::int64_t>(sim_plan_range(0, 12)) * ms : 0;
            if (total >= 22) continue;
            if (!sim_op("thread %d: %s %lu pause %ld ms", t, kind_names[p.kind], (unsigned long)p.arg, (long)(p.pause / ms)))
                continue;
            ++total;
            plans[static_cast<std::size_t>(t)].push_back(p);
        }
    }
    std::vector<Rec> hist;
    hist.reserve(128);
    Container container;
    std::size_t progress = 0;

    auto exec = [&](int tid, Plan const &p) {
        if (p.pause) sim_sleep_ns(p.pause);
        std::size_t slot;
        {
            Ignore ig;
            slot = hist.size();
            hist.push_back({tid, p.kind, p.arg, true, 0, sim_seq(), 0, sim_now(), 0, false});
            ++progress;
            sim_note("inv %s %lu", kind_names[p.kind], (unsigned long)p.arg);
        }
        bool ok = true;
        std::uint64_t result = 0;
        switch (p.kind)
        {
            case Push:
                container.push(std::make_unique<std::uint64_t>(p.arg));
                break;
            case Pop:
            {
                Item item;
                container.pop(item);
                result = item ? *item : 0;
                break;
            }
            case PopTimed:
            {
                Item item;
                ok = container.pop(item, std::chrono::milliseconds(p.arg));
                result = (ok && item) ? *item : 0;
                break;
            }
            case Size:
                result = container.size();
                break;
            case Empty:
                result = container.empty() ? 1 : 0;
                break;
        }
        Ignore ig;
        Rec &r = hist[slot];
        r.ok = ok;
        r.result = result;
        r.res = sim_seq();
        r.tres = sim_now();
        r.done = true;
        ++progress;
        sim_note("res %s -> %d %lu", kind_names[p.kind], ok, (unsigned long)result);
        if ((p.kind == Pop || p.kind == PopTimed) && ok && result == 0)
            sim_fail("oracle:empty-item", "%s returned success without an item", kind_names[p.kind]);
        if (p.kind == PopTimed && !ok && r.tres - r.tinv < static_cast<std::int64_t>(p.arg) * ms)
            sim_fail("oracle:early-timeout", "timed pop of %lu ms gave up after %ld ns", (unsigned long)p.arg, (long)(r.tres - r.tinv));
        if (p.kind == PopTimed && !ok) sim_probe(0);
        if ((p.kind == Pop || p.kind == PopTimed) && ok && r.tres - r.tinv > ms) sim_probe(1);
    };

    sim_faults_enable(1);
    Threads threads;
    for (int t = 0; t < nthreads; ++t)
        threads.start([&, t]() {
            for (Plan const &p : plans[static_cast<std::size_t>(t)]) exec(t, p);
        });
    // Some more items while the threads are busy.
    std::size_t const extra = sim_plan_range(0, 3);
    for (std::size_t i = 0; i < extra; ++i) exec(nthreads, {Push, 1000 + i, coin(30) ? 5 * ms : 0});

    // From here on nothing disturbs the threads. As long as some thread waits for an item, supply one
    // at a time; an item that stays in the container while a thread waits for one is a lost wakeup.
    if (coin(50)) sim_sleep_ns(static_cast<std::int64_t>(sim_plan_range(0, 40)) * ms);
    sim_drain();
    std::uint64_t supply = 2000;
    for (;;)
    {
        std::size_t const progress_before = progress;
        bool const finished = wait_until([&]() { return progress >= 2 * (total + extra) + 2 * (supply - 2000); }, 150 * ms);
        if (finished) break;
        bool stuck = false, waiting = false;
        std::int64_t held = 0;
        {
            Ignore ig;
            if (progress != progress_before) continue;
            for (Rec const &r : hist)
            {
                if (r.kind == Push && r.done) ++held;
                if ((r.kind == Pop || r.kind == PopTimed) && r.done && r.ok) --held;
                if (r.kind == Push && !r.done) stuck = true;
                if (r.kind == Pop && !r.done) waiting = true;
                if (r.kind == PopTimed && !r.done)
                {
                    waiting = true;
                    if (sim_now() - r.tinv > static_cast<std::int64_t>(r.arg) * ms + 150 * ms)
                        sim_fail("oracle:no-timeout", "a timed pop of %lu ms is still waiting after %ld ms", (unsigned long)r.arg, (long)((sim_now() - r.tinv) / ms));
                }
                if ((r.kind == Size || r.kind == Empty) && !r.done) stuck = true;
            }
            if (stuck) sim_fail("oracle:stuck", "an operation that never waits does not return");
            if (waiting && held > 0)
                sim_fail("oracle:lost-wakeup", "a pop is still waiting although %ld item(s) are available", (long)held);
        }
        if (supply > 2060) sim_fail("sim:supply", "the workload does not end");
        if (waiting) exec(nthreads, {Push, supply++, 0});
    }
    threads.join();
    sim_stop();

    std::int64_t npush = 0, npop = 0;
    for (Rec const &r : hist)
    {
        npush += r.kind == Push;
        npop += (r.kind == Pop || r.kind == PopTimed) && r.ok;
    }
    if (static_cast<std::int64_t>(container.size()) != npush - npop)
        sim_fail("oracle:conservation", "%ld pushed, %ld popped, %zu left", (long)npush, (long)npop, static_cast<std::size_t>(container.size()));
    Checker c;
    for (Rec const &r : hist) c.h.push_back(r);
    std::sort(c.h.begin(), c.h.end(), [](Rec const &a, Rec const &b) { return a.res < b.res; });
    c.lifo = lifo;
    if (c.h.size() > 32) return;
    std::vector<std::uint64_t> q;
    bool const explained = c.go(0, q);
    if (c.visited > 60000) sim_probe(2);
    if (!explained)
    {
        std::string text;
        for (Rec const &r : hist)
            text += std::to_string(r.tid) + ":" + kind_names[r.kind] + "(" + std::to_string(r.arg) + ")=" +
                (r.ok ? std::to_string(r.result) : "none") + "[" + std::to_string(r.inv) + "," + std::to_string(r.res) + "] ";
        sim_fail("oracle:not-linearizable", "no sequential %s history explains: %s", lifo ? "stack" : "queue", text.c_str());
    }
}

} // namespace

SIM_SCENARIO(queue_linear, 3, "timed_out_pop", "waited_for_item", "no_verdict") { run_container<fly::ConcurrentQueue<Item>>(false, false); }
SIM_SCENARIO(stack_linear, 2, "timed_out_pop", "waited_for_item", "no_verdict") { run_container<fly::ConcurrentStack<Item>>(true, false); }
SIM_SCENARIO(queue_live, 1, "timed_out_pop", "waited_for_item", "no_verdict") { run_container<fly::ConcurrentQueue<Item>>(false, true); }
SIM_SCENARIO(stack_live, 1, "timed_out_pop", "waited_for_item", "no_verdict") { run_container<fly::ConcurrentStack<Item>>(true, true); }
