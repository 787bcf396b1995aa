// Shared helpers of the scenarios.
#pragma once
#include "../sim/sim.h"

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>

namespace sim {

constexpr std::int64_t ms = 1000000;
constexpr std::int64_t sec = 1000 * ms;

struct NoPreempt
{
    NoPreempt() { sim_nopreempt_begin(); }
    ~NoPreempt() { sim_nopreempt_end(); }
};

// The runtime copies of harness state live outside of the race detector's view.
using Ignore = SimIgnore;

inline std::uint64_t R(std::uint64_t lo, std::uint64_t hi) { return sim_plan_range(lo, hi); }
inline bool coin(unsigned percent) { return sim_plan_range(0, 99) < percent; }
// A quantity of the plan: usually small, sometimes much larger (long histories, many objects).
inline int amount(char const *name, int lo, int hi, int big, unsigned percent = 4)
{
    bool const much = coin(percent);
    return static_cast<int>(sim_param(name, lo, much ? big : hi));
}

// Wait (in simulated time) until the condition holds; false if it does not within the bound.
template <typename F>
bool wait_until(F &&cond, std::int64_t bound_ns, std::int64_t step_ns = ms)
{
    std::int64_t const end = sim_now() + bound_ns;
    for (;;)
    {
        bool ok;
        {
            Ignore i;
            ok = cond();
        }
        if (ok) return true;
        if (sim_now() >= end) return false;
        sim_sleep_ns(step_ns);
    }
}

// Threads of the workload (real std::thread, scheduled by the simulator).
struct Threads
{
    std::vector<std::thread> list;
    template <typename F>
    void start(F &&f)
    {
        std::thread t(std::forward<F>(f));
        Ignore i;
        list.push_back(std::move(t));
    }
    void join()
    {
        for (auto &t : list)
            if (t.joinable()) t.join();
    }
};

} // namespace sim
