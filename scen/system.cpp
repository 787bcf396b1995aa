// S01: system monitor.
#include "quiet_logger.hpp"

#include "fly/system/system_config.hpp"
#include "fly/system/system_monitor.hpp"
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"

#include <atomic>
#include <cmath>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace sim;
using fly::system::SystemConfig;
using fly::system::SystemMonitor;
using fly::task::SequencedTaskRunner;
using fly::task::TaskManager;

namespace {

struct Conf : SystemConfig
{
    std::chrono::milliseconds poll_interval() const override { return std::chrono::milliseconds(interval.load()); }
    std::atomic<int> interval {100};
};

enum Kind { Progress, Idle, Busy, Stuck, Reset, Missing, Empty, Garbage, NoCpus, FewNumbers };

// One state of the system's counter files.
struct Version
{
    Kind kind = Progress;
    bool usable = true;     // the first line can be read
    std::uint64_t c[4] = {0, 0, 0, 0};
    unsigned cpus = 0;      // 0: not in the file
    std::uint64_t rss = 0;  // kB; 0: not in the file
    int rss_form = 0;
    std::uint64_t total = 0, avail = 0;
    bool sysinfo_ok = true;
};

struct World
{
    std::vector<Version> v;
    std::size_t now = 0; // the current version
    bool done = false;
};
World *W;

void write_file(char const *path, std::string const &text)
{
    char tmp[64];
    std::snprintf(tmp, sizeof tmp, "%s.new", path);
    sim_fs_exempt_begin();
    int const fd = ::open(tmp, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd < 0) sim_fail("sim:io", "cannot write %s", tmp);
    std::size_t done = 0;
    while (done < text.size())
    {
        ssize_t const n = ::write(fd, text.data() + done, text.size() - done);
        if (n <= 0) sim_fail("sim:io", "cannot write %s", tmp);
        done += static_cast<std::size_t>(n);
    }
    ::close(fd);
    if (::rename(tmp, path) != 0) sim_fail("sim:io", "cannot rename %s", tmp);
    sim_fs_exempt_end();
}

void publish(std::size_t i)
{
    std::string stat, status;
    bool missing, status_missing;
    Version v;
    {
        Ignore ig;
        v = W->v[i];
        missing = v.kind == Missing;
        status_missing = v.rss_form == 2;
        char b[200];
        if (v.kind == Garbage) stat = "cpu what is this\nintr 12\n";
        else if (v.kind != Empty)
        {
            if (v.kind == FewNumbers) std::snprintf(b, sizeof b, "cpu  %lu %lu\n", (unsigned long)v.c[0], (unsigned long)v.c[1]);
            else std::snprintf(b, sizeof b, "cpu  %lu %lu %lu %lu 17 0 3 0 0 0\n", (unsigned long)v.c[0], (unsigned long)v.c[1], (unsigned long)v.c[2], (unsigned long)v.c[3]);
            stat = b;
            for (unsigned n = 0; n < v.cpus; ++n)
            {
                std::snprintf(b, sizeof b, "cpu%u %lu %lu %lu %lu 1 0 0 0 0 0\n", n, (unsigned long)(v.c[0] / v.cpus), (unsigned long)(v.c[1] / v.cpus),
                              (unsigned long)(v.c[2] / v.cpus), (unsigned long)(v.c[3] / v.cpus));
                stat += b;
            }
            stat += "intr 1462898 0 9 0 0\nctxt 115315\nbtime 769041601\nprocesses 86031\n";
        }
        status = "Name:\tsim\nState:\tR (running)\nVmPeak:\t 9912344 kB\nVmSize:\t 9912344 kB\n";
        if (v.rss_form == 0)
        {
            std::snprintf(b, sizeof b, "VmRSS:\t %7lu kB\n", (unsigned long)v.rss);
            status += b;
        }
        else if (v.rss_form == 1) status += "VmRSS:\t unknown\n";
        status += "VmData:\t   12 kB\nThreads:\t1\n";
        sim_note("version %zu: kind %d, cpus %u, counters %lu %lu %lu %lu, rss %lu (form %d), memory %lu %lu (ok %d)", i, v.kind, v.cpus, (unsigned long)v.c[0],
                 (unsigned long)v.c[1], (unsigned long)v.c[2], (unsigned long)v.c[3], (unsigned long)v.rss, v.rss_form, (unsigned long)v.total,
                 (unsigned long)v.avail, v.sysinfo_ok);
        W->now = i;
        sim_set_sysinfo(v.total, v.avail, !v.sysinfo_ok);
    }
    sim_fs_exempt_begin();
    if (missing) ::unlink("r/sys/stat");
    if (status_missing) ::unlink("r/sys/status");
    sim_fs_exempt_end();
    if (!missing) write_file("r/sys/stat", stat);
    if (!status_missing) write_file("r/sys/status", status);
}

double usage(std::uint64_t const *a, std::uint64_t const *b, bool &ok)
{
    std::uint64_t d[4];
    ok = true;
    for (int i = 0; i < 4; ++i)
    {
        if (b[i] < a[i]) ok = false;
        d[i] = b[i] - a[i];
    }
    std::uint64_t const active = d[0] + d[1] + d[2];
    if (active + d[3] == 0) ok = false;
    return ok ? 100.0 * static_cast<double>(active) / static_cast<double>(active + d[3]) : 0.0;
}

void in_range(double u, char const *what)
{
    Ignore ig;
    if (std::isnan(u)) sim_fail("oracle:usage-nan", "the %s CPU usage is not a number", what);
    if (!(u >= 0.0 && u <= 100.0)) sim_fail("oracle:usage-range", "the %s CPU usage is %.9g percent", what, u);
}

// The value is one of those published so far, and does not go back to an earlier one.
template <typename Get>
void fresh(std::uint64_t got, std::uint64_t initial, std::size_t &last, char const *what, Get &&get)
{
    Ignore ig;
    if (got == initial && last == 0) return;
    for (std::size_t i = last ? last - 1 : 0; i <= W->now; ++i)
        if (get(W->v[i]) == got)
        {
            last = i + 1;
            return;
        }
    sim_fail("oracle:sample-value", "%s is %lu: no version of the counters since the last value seen had that", what, (unsigned long)got);
}

struct Seen
{
    std::size_t cpus = 0, total = 0, used = 0, rss = 0;
};

void observe(SystemMonitor const &m, Seen &s)
{
    double const u = m.get_system_cpu_usage();
    in_range(u, "system");
    double const p = m.get_process_cpu_usage();
    in_range(p, "process");
    {
        Ignore ig;
        // The usage is the one between two versions.
        bool found = u == 0.0;
        std::uint64_t const zero[4] = {0, 0, 0, 0};
        for (std::size_t j = 0; !found && j <= W->now; ++j)
        {
            if (!W->v[j].usable) continue;
            bool ok;
            double e = usage(zero, W->v[j].c, ok);
            if (ok && std::fabs(e - u) < 1e-6) found = true;
            for (std::size_t i = 0; !found && i < j; ++i)
                if (W->v[i].usable && (e = usage(W->v[i].c, W->v[j].c, ok), ok) && std::fabs(e - u) < 1e-6) found = true;
        }
        if (!found) sim_fail("oracle:usage-value", "the system CPU usage is %.9g percent, which is not that of any two versions of the counters", u);
    }
    // Counters are not unique here: only membership counts.
    std::uint64_t const cpus = m.get_system_cpu_count();
    {
        Ignore ig;
        bool found = false;
        for (std::size_t i = 0; i <= W->now; ++i)
            if (W->v[i].cpus == cpus && W->v[i].cpus) found = true;
        if (!found) sim_fail("oracle:cpu-count", "the CPU count is %lu: the system never had that many", (unsigned long)cpus);
    }
    fresh(m.get_total_system_memory(), 0, s.total, "the total system memory", [](Version const &v) { return v.sysinfo_ok ? v.total : ~0UL; });
    fresh(m.get_system_memory_usage(), 0, s.used, "the system memory usage", [](Version const &v) { return v.sysinfo_ok ? v.total - v.avail : ~0UL; });
    fresh(m.get_process_memory_usage(), 0, s.rss, "the process memory usage", [](Version const &v) { return v.rss_form == 0 ? v.rss << 10 : ~0UL; });
}

// Nothing but a poll that is running keeps a monitor alive.
void released(std::weak_ptr<SystemMonitor> const &weak)
{
    if (!wait_until([&] { return weak.expired(); }, 2 * sec)) sim_fail("oracle:lifetime", "a system monitor that was released goes on polling");
}

enum { P_Nan, P_Reset, P_Broken, P_Hot, P_CreateFailed, P_ReadFault };

} // namespace

SIM_SCENARIO(system_history, 1, "no_progress_between_two_samples", "counters_reset", "counter_file_missing_or_malformed", "CPU_count_changed", "creation_failed_under_faults",
             "read_failed_or_was_short_during_a_sample")
{
    sim_time_budget(3000 * sec);
    W = new World;
    quiet_default_logger();
    ::mkdir("r", 0755);
    ::mkdir("r/sys", 0755);
    sim_fs_redirect("/proc/stat", "r/sys/stat");
    sim_fs_redirect("/proc/self/status", "r/sys/status");
    sim_fs_prefix("r/sys/");

    int const steps = amount("steps", 2, 14, 40);
    int const interval = static_cast<int>(sim_param("interval", 0, 4));
    static int const intervals[] = {1, 10, 35, 100, 1000};
    int const readers = static_cast<int>(sim_param("readers", 0, 2));
    bool const hot = coin(40); // CPUs come and go
    unsigned max_cpus = coin(20) ? (steps > 14 ? 60 : 300) : 8;
    static std::uint64_t const units[] = {1, 1, 1024, 4096};
    std::uint64_t const unit = units[R(0, 3)];
    sim_set_sysinfo_unit(unit);

    // The history of the counters.
    Version v;
    v.cpus = static_cast<unsigned>(R(1, max_cpus));
    for (auto &c : v.c) c = R(1000, 100000);
    std::uint64_t const big = coin(10) ? (1UL << 40) : 0;
    for (auto &c : v.c) c += big;
    for (int i = 0; i < steps + 3; ++i)
    {
        bool const clean = i == 0 || i > steps;
        v.usable = true, v.rss_form = 0, v.sysinfo_ok = true;
        unsigned const keep_cpus = v.cpus;
        Kind k = clean ? Progress : static_cast<Kind>(R(0, 9));
        if (!clean && !sim_op("%d: counters %d", i, k)) k = Progress;
        v.kind = k;
        switch (k)
        {
            case Progress: for (auto &c : v.c) c += R(1, 3000); break;
            case Idle: v.c[3] += R(1, 3000); break;
            case Busy: v.c[R(0, 2)] += R(1, 3000); break;
            case Stuck: break;
            case Reset: for (auto &c : v.c) if (coin(60)) c = R(0, 500); break;
            default: v.usable = false; break;
        }
        if (k == NoCpus) for (auto &c : v.c) c += R(1, 3000), v.usable = true;
        if (hot && !clean && coin(40)) v.cpus = static_cast<unsigned>(R(1, max_cpus));
        unsigned const there = v.cpus;
        if (k == Missing || k == Empty || k == Garbage || k == NoCpus) v.cpus = 0;
        v.rss = 1000 + static_cast<std::uint64_t>(i) * 10 + R(0, 9);
        if (!clean && coin(25)) v.rss_form = static_cast<int>(R(1, 3));
        if (v.rss_form == 3) v.rss_form = 0, v.rss = 4000000000UL + static_cast<std::uint64_t>(i); // 4 TB
        v.total = (static_cast<std::uint64_t>(i + 1) * 1000003UL + R(0, 999)) * 4096;
        v.avail = (static_cast<std::uint64_t>(i) * 700001UL + R(0, 99)) * 4096;
        v.sysinfo_ok = clean || !coin(20);
        W->v.push_back(v);
        v.cpus = v.cpus ? there : (hot ? there : keep_cpus);
    }
    struct Step { std::int64_t wait; int user, sys; int interval; bool churn; };
    std::vector<Step> plan;
    for (int i = 0; i < steps; ++i)
    {
        Step s;
        std::int64_t const iv = intervals[interval] * ms;
        s.wait = static_cast<std::int64_t>(R(0, 40)) * iv / 10;
        s.user = static_cast<int>(R(0, 1000)), s.sys = static_cast<int>(R(0, 1000 - static_cast<std::uint64_t>(s.user)));
        if (coin(40)) s.user = coin(50) ? 1000 : 0, s.sys = 1000 - s.user;
        s.interval = coin(15) ? intervals[R(0, 4)] : 0;
        s.churn = coin(12);
        plan.push_back(s);
    }
    bool const stop_first = coin(30);

    int const rate = coin(30) ? 0 : static_cast<int>(R(50, 2500));
    sim_fault_rate(SF_OPEN_FAIL, rate);
    sim_fault_rate(SF_READ_EIO, rate);
    sim_fault_rate(SF_READ_SHORT, rate);
    sim_fault_rate(SF_EINTR, rate);
    sim_fault_rate(SF_CLOSE_FAIL, rate / 2);
    sim_fault_rate(SF_SYSINFO_FAIL, rate);

    publish(0);
    auto config = std::make_shared<Conf>();
    config->interval = intervals[interval];
    auto manager = TaskManager::create(static_cast<std::uint32_t>(sim_param("workers", 1, 3)));
    auto runner = SequencedTaskRunner::create(manager);
    sim_faults_enable(1);
    auto monitor = SystemMonitor::create(runner, config);
    if (!monitor)
    {
        if (!sim_file_faults()) sim_fail("oracle:create", "the system monitor could not be created although the CPU count can be read");
        sim_probe(P_CreateFailed);
        sim_faults_enable(0);
        monitor = SystemMonitor::create(runner, config);
        if (!monitor) sim_fail("oracle:create", "the system monitor could not be created although the CPU count can be read");
        sim_faults_enable(1);
    }

    Threads threads;
    for (int i = 0; i < readers; ++i)
    {
        threads.start([monitor, config] {
            Seen s;
            for (;;)
            {
                {
                    Ignore ig;
                    if (W->done) break;
                }
                observe(*monitor, s);
                sim_sleep_ns(config->interval.load() * ms / 3 + ms / 2);
            }
        });
    }
    Seen seen;
    unsigned busy = W->v[0].cpus;
    for (int i = 1; i <= steps; ++i)
    {
        Step const &p = plan[static_cast<std::size_t>(i - 1)];
        publish(static_cast<std::size_t>(i));
        {
            Ignore ig;
            Version const &w = W->v[static_cast<std::size_t>(i)];
            if (w.kind == Stuck) sim_probe(P_Nan);
            if (w.kind == Reset) sim_probe(P_Reset);
            if (!w.usable || !w.cpus) sim_probe(P_Broken);
            if (w.cpus && busy != w.cpus) sim_probe(P_Hot);
            if (w.cpus) busy = w.cpus;
            sim_set_cpu_rate(p.user * static_cast<int>(busy), p.sys * static_cast<int>(busy)); // never more than the CPUs there are
        }
        if (p.interval) config->interval = p.interval;
        auto passing = p.churn ? SystemMonitor::create(runner, config) : nullptr; // released at some moment of its life
        if (p.wait) sim_sleep_ns(p.wait);
        observe(*monitor, seen);
        if (passing)
        {
            std::weak_ptr<SystemMonitor> const weak = passing;
            passing.reset();
            released(weak);
        }
    }
    if (sim_file_faults()) sim_probe(P_ReadFault);

    // The faults end; from here on every sample succeeds.
    sim_drain();
    int const final_interval = 1000;
    std::int64_t const before = config->interval.load();
    config->interval = final_interval;
    unsigned const a = static_cast<unsigned>(steps + 1), b = static_cast<unsigned>(steps + 2);
    {
        Ignore ig;
        W->v[b].cpus = W->v[a].cpus;
        int const n = static_cast<int>(W->v[a].cpus);
        sim_set_cpu_rate(300 * n, 250 * n);
    }
    publish(a);
    sim_sleep_ns((before + 2 * final_interval) * ms + 100 * ms);
    observe(*monitor, seen);
    publish(b);
    bool ok;
    double const expect = usage(W->v[a].c, W->v[b].c, ok);
    auto close_to = [](double x, double y, double tol) { return std::fabs(x - y) <= tol; };
    std::int64_t const bound = 2 * final_interval * ms + 100 * ms;
    if (!wait_until([&] { return close_to(monitor->get_system_cpu_usage(), expect, 1e-6); }, bound, 20 * ms))
        sim_fail("oracle:recovery", "two polls after the faults ended, the system CPU usage is %.9g percent instead of %.9g", monitor->get_system_cpu_usage(), expect);
    sim_sleep_ns(final_interval * ms + 50 * ms);
    observe(*monitor, seen);
    {
        Ignore ig;
        Version const &w = W->v[b];
        if (monitor->get_system_cpu_count() != w.cpus)
            sim_fail("oracle:recovery", "two polls after the faults ended, the CPU count is %u instead of %u", monitor->get_system_cpu_count(), w.cpus);
        if (monitor->get_total_system_memory() != w.total || monitor->get_system_memory_usage() != w.total - w.avail)
            sim_fail("oracle:recovery", "two polls after the faults ended, the memory is %lu of %lu instead of %lu of %lu", (unsigned long)monitor->get_system_memory_usage(),
                     (unsigned long)monitor->get_total_system_memory(), (unsigned long)(w.total - w.avail), (unsigned long)w.total);
        if (monitor->get_process_memory_usage() != w.rss << 10)
            sim_fail("oracle:recovery", "two polls after the faults ended, the process memory is %lu instead of %lu", (unsigned long)monitor->get_process_memory_usage(),
                     (unsigned long)(w.rss << 10));
        if (!close_to(monitor->get_process_cpu_usage(), 55.0, 4.0))
            sim_fail("oracle:recovery", "two polls after the faults ended, the process CPU usage is %.9g percent instead of about 55", monitor->get_process_cpu_usage());
        W->done = true;
    }
    threads.join();
    // The monitor goes away while the poll is pending or running.
    if (stop_first) manager->stop();
    threads.list.clear();
    std::weak_ptr<SystemMonitor> const weak = monitor;
    monitor.reset();
    released(weak);
    if (!stop_first)
    {
        sim_sleep_ns(static_cast<std::int64_t>(R(0, 3)) * final_interval * ms);
        manager->stop();
    }
    sim_stop();
    sim_hash(static_cast<std::uint64_t>(expect * 1000));
}
