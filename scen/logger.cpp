// L01 - L04: loggers, logger registry, file logger.
#include "quiet_logger.hpp"

#include "fly/coders/coder_config.hpp"
#include "fly/coders/huffman/huffman_decoder.hpp"
#include "fly/logger/detail/file_sink.hpp"
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"

#include <algorithm>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <optional>
#include <sstream>

using namespace sim;
using namespace fly::logger;
using fly::task::SequencedTaskRunner;
using fly::task::TaskManager;

namespace {

struct Config : LoggerConfig
{
    Config(std::uint32_t max_message, std::uintmax_t max_file = 1 << 20, bool compress = false)
    {
        m_default_max_message_size = max_message;
        m_default_max_log_file_size = max_file;
        m_default_compress_log_files = compress;
    }
};
struct CoderCfg : fly::coders::CoderConfig
{
    CoderCfg(std::uint16_t kb, std::uint8_t len)
    {
        m_default_huffman_encoder_chunk_size_kb = kb;
        m_default_huffman_encoder_max_code_length = len;
    }
};

char const *const files[] = {"alpha.cpp", "beta.cpp", "some/longer/path/gamma.cpp"};
char const *const functions[] = {"run", "operator()", "fly::function<int>"};
char const *const level_names[] = {"debug", "info", "warn", "error"};

std::string make_message(int id, std::size_t size)
{
    std::string s;
    if (size == 0) return s;
    s = std::to_string(id) + ":";
    std::uint32_t x = static_cast<std::uint32_t>(id) * 2654435761u + 12345;
    while (s.size() < size)
    {
        x = x * 1664525 + 1013904223;
        s.push_back("abcdefghijklmnop qrstuvwxyz{}%\n\t\"0123456789\xc3\xa9"[(x >> 24) % 46]); // the last one: a NUL
    }
    s.resize(size);
    return s;
}

// One record to be logged.
struct Rec
{
    int id = 0, logger = 0, thread = 0;
    Level level = Level::Debug;
    std::string message;
    bool trace = true;
    std::int64_t pause = 0;
    // history
    bool called = false, returned = false;
    std::uint64_t inv = 0, res = 0;
    std::int64_t t_inv = 0, t_res = 0;
    int faults_before = 0, faults_after = 0;
    int seen = 0;
};

struct Seen // one call into a sink
{
    int rec = -1; // index of the record; -1 unknown
    std::uintmax_t index = 0;
    std::uint64_t start = 0, end = 0;
    bool ok = true;
    int faults_before = 0, faults_after = 0;
};

struct LogWorld;
LogWorld *W;

struct LoggerInfo
{
    std::shared_ptr<Logger> logger;
    std::weak_ptr<Logger> weak;
    std::shared_ptr<SequencedTaskRunner> runner;
    bool async = false;
    int fail_at = -1;      // the sink fails its fail_at-th record
    bool fail_init = false;
    bool released = false; // released while records may be queued
    std::uint32_t max_message = 256;
    std::int64_t t_create_inv = 0, t_create_res = 0;
    std::vector<Seen> seen;
    std::uint64_t fail_res = 0; // the failing call returned
    int in_sink = 0;
    std::uint64_t plain = 0;
    int slow = 0;
    bool throws = false;
};

struct LogWorld
{
    std::vector<LoggerInfo> loggers;
    std::vector<Rec> recs;
    std::shared_ptr<TaskManager> manager;
};

// The time stamp covers when the record was logged.
void check_time(LoggerInfo const &l, Rec const &r, Log const &log)
{
    double const lo = static_cast<double>(r.t_inv - l.t_create_res) / 1e6, hi = static_cast<double>((r.returned ? r.t_res : sim_now()) - l.t_create_inv) / 1e6;
    if (log.m_time < lo - 1e-6 || log.m_time > hi + 1e-6)
        sim_fail("oracle:log-time", "record %d carries time %f ms, but was logged between %f and %f ms", r.id, log.m_time, lo, hi);
}

struct RecordingSink : Sink
{
    int id;
    explicit RecordingSink(int i) : id(i) {}
    bool initialize() override
    {
        Ignore ig;
        sim_note("sink %d initialize", id);
        return !W->loggers[static_cast<std::size_t>(id)].fail_init;
    }
    bool stream(Log &&log) override
    {
        int slow;
        bool async;
        std::size_t slot;
        {
            Ignore ig;
            LoggerInfo &l = W->loggers[static_cast<std::size_t>(id)];
            sim_note("sink %d receives record %u index %lu", id, log.m_trace.m_line, (unsigned long)log.m_index);
            if (l.fail_init) sim_fail("oracle:failed-init", "record %u reached the sink of logger %d, which failed to initialise", log.m_trace.m_line, id);
            Seen s;
            s.index = log.m_index;
            s.start = sim_seq();
            if (l.async && l.in_sink) sim_fail("oracle:sink-overlap", "two records are in the sink of asynchronous logger %d at once", id);
            ++l.in_sink;
            int const line = static_cast<int>(log.m_trace.m_line) - 1;
            int rid = -1;
            if (log.m_trace.m_file.empty())
            {
                // no trace: identified by the message
                for (Rec const &r : W->recs)
                    if (!r.trace && r.logger == id && r.called && r.seen == 0 && r.message.substr(0, l.max_message) == log.m_message) { rid = r.id; break; }
            }
            else if (line >= 0 && line < static_cast<int>(W->recs.size())) rid = line;
            if (rid < 0) sim_fail("oracle:unknown-record", "logger %d: a record that was never logged reached the sink: line %u, message '%.40s'", id, log.m_trace.m_line, log.m_message.c_str());
            Rec &r = W->recs[static_cast<std::size_t>(rid)];
            s.rec = rid;
            if (!r.called || r.logger != id) sim_fail("oracle:unknown-record", "record %d reached the sink of logger %d", rid, id);
            if (++r.seen > 1) sim_fail("oracle:record-duplicated", "record %d reached its sink twice", rid);
            if (log.m_level != r.level) sim_fail("oracle:record-level", "record %d: level changed", rid);
            std::string const expect = r.message.substr(0, l.max_message);
            if (log.m_message != expect) sim_fail("oracle:record-message", "record %d: message changed ('%.60s' instead of '%.60s')", rid, log.m_message.c_str(), expect.c_str());
            if (r.trace && (log.m_trace.m_file != files[rid % 3] || log.m_trace.m_function != functions[rid % 3]))
                sim_fail("oracle:record-trace", "record %d: trace changed", rid);
            check_time(l, r, log);
            if (l.fail_res && (l.async || r.inv > l.fail_res))
                sim_fail("oracle:record-after-failure", "record %d reached the sink of logger %d after the sink had failed", rid, id);
            slow = l.slow;
            async = l.async;
            slot = l.seen.size();
            l.seen.push_back(s);
        }
        if (async) ++*&W->loggers[static_cast<std::size_t>(id)].plain; // plain memory, ordered by the logger's runner
        for (int i = 0; i < slow; ++i) sim_point();
        if (slow > 2) sim_sleep_ns(slow * ms);
        Ignore ig;
        LoggerInfo &l = W->loggers[static_cast<std::size_t>(id)];
        --l.in_sink;
        l.seen[slot].end = sim_seq();
        bool const ok = l.fail_at < 0 || static_cast<int>(slot) != l.fail_at;
        l.seen[slot].ok = ok;
        if (!ok) sim_note("sink %d fails", id);
        if (!ok && l.async) l.fail_res = sim_seq();
        return ok;
    }
};

void log_one(Logger &logger, Rec const &r)
{
    std::string const &m = r.message;
    char const *f = files[r.id % 3], *fn = functions[r.id % 3];
    std::uint32_t const line = static_cast<std::uint32_t>(r.id + 1);
    if (!r.trace)
    {
        switch (r.level)
        {
            case Level::Debug: logger.debug("{}", m); break;
            case Level::Info: logger.info("{}", m); break;
            case Level::Warn: logger.warn("{}", m); break;
            default: logger.error("{}", m); break;
        }
        return;
    }
    std::size_t const half = m.size() / 2;
    std::string const a = m.substr(0, half), b = m.substr(half);
    switch (r.level)
    {
        case Level::Debug: logger.debug({f, fn, line}, "{}", m); break;
        case Level::Info: logger.info({f, fn, line}, "{}{}", a, b); break;
        case Level::Warn: logger.warn({f, fn, line}, "{}", m); break;
        default: logger.error({f, fn, line}, "{}{}", a, b); break;
    }
}

void run_log(bool failing)
{
    LogWorld world;
    W = &world;
    quiet_default_logger();
    int const nloggers = amount("loggers", failing ? 2 : 1, 3, 10);
    int const nrunners = static_cast<int>(sim_param("runners", 1, 2));
    int const nworkers = static_cast<int>(sim_param("workers", 1, 3));
    int const nthreads = static_cast<int>(sim_param("threads", 1, 4));
    int const total = amount("records", 2, 22, 300);
    bool const release = coin(20);
    sim_fault_rate(SF_SPURIOUS, coin(20) ? 300 : 0);

    static std::uint32_t const maxes[] = {256, 1, 7, 32, 256, 0, 5000, 100000};
    for (int i = 0; i < nloggers; ++i)
    {
        LoggerInfo l;
        l.async = coin(65);
        l.max_message = maxes[R(0, failing ? 0 : 5)];
        if (coin(10)) l.max_message = maxes[R(6, 7)];
        l.slow = static_cast<int>(R(0, 5));
        if (failing && (i == 0 || coin(25)))
        {
            if (coin(12)) l.fail_init = true;
            else l.fail_at = static_cast<int>(R(0, 6));
        }
        l.released = release && i == nloggers - 1 && coin(70);
        world.loggers.push_back(std::move(l));
    }
    std::vector<std::vector<int>> plan(static_cast<std::size_t>(nthreads));
    std::int64_t budget = 0;
    for (int i = 0; i < total; ++i)
    {
        Rec r;
        r.id = i;
        r.logger = static_cast<int>(R(0, static_cast<std::uint64_t>(nloggers - 1)));
        r.thread = static_cast<int>(R(0, static_cast<std::uint64_t>(nthreads - 1)));
        r.level = static_cast<Level>(R(0, 3));
        std::uint32_t const m = world.loggers[static_cast<std::size_t>(r.logger)].max_message;
        static int const delta[] = {-1, 0, 1, 17};
        std::size_t size = 0;
        switch (R(0, 4))
        {
            case 0: size = 0; break;
            case 1: size = R(1, 12); break;
            case 2: size = R(20, 80); break;
            case 3: size = static_cast<std::size_t>(std::max(0, static_cast<int>(m) + delta[R(0, 3)])); break;
            default: size = coin(4) ? R(700, 20000) : R(200, 700); break;
        }
        r.message = make_message(i, size);
        // identified by the message alone: has to be distinctive
        r.trace = coin(80) || m < 32 || size < 12;
        r.pause = coin(25) ? static_cast<std::int64_t>(R(0, 12)) * ms : 0;
        budget += r.pause + 10 * ms;
        bool const on = sim_op("thread %d: log record %d to logger %d (%s%s), %s, %zu bytes, pause %ld ms", r.thread, i, r.logger,
            world.loggers[static_cast<std::size_t>(r.logger)].async ? "asynchronous" : "synchronous",
            world.loggers[static_cast<std::size_t>(r.logger)].fail_at >= 0 ? ", failing" : "", level_names[static_cast<int>(r.level)], size, (long)(r.pause / ms));
        if (on) plan[static_cast<std::size_t>(r.thread)].push_back(i);
        world.recs.push_back(std::move(r));
    }

    world.manager = TaskManager::create(static_cast<std::uint32_t>(nworkers));
    std::vector<std::shared_ptr<SequencedTaskRunner>> runners;
    for (int i = 0; i < nrunners; ++i) runners.push_back(SequencedTaskRunner::create(world.manager));
    for (int i = 0; i < nloggers; ++i)
    {
        LoggerInfo &l = world.loggers[static_cast<std::size_t>(i)];
        l.t_create_inv = sim_now();
        auto config = std::make_shared<Config>(l.max_message);
        if (l.async) l.logger = Logger::create("logger" + std::to_string(i), runners[static_cast<std::size_t>(i % nrunners)], config, std::make_unique<RecordingSink>(i));
        else l.logger = Logger::create("logger" + std::to_string(i), config, std::make_unique<RecordingSink>(i));
        l.t_create_res = sim_now();
        l.weak = l.logger;
        if (l.fail_init && l.logger) sim_fail("oracle:create", "a logger was created although its sink failed to initialise");
        if (!l.fail_init && !l.logger) sim_fail("oracle:create", "a logger with a working sink was not created");
        if (l.fail_init) sim_probe(0);
    }
    sim_faults_enable(1);
    Threads threads;
    for (int t = 0; t < nthreads; ++t)
        threads.start([&, t]() {
            for (int id : plan[static_cast<std::size_t>(t)])
            {
                Rec &r = world.recs[static_cast<std::size_t>(id)];
                if (r.pause) sim_sleep_ns(r.pause);
                std::shared_ptr<Logger> logger;
                {
                    Ignore ig;
                    logger = world.loggers[static_cast<std::size_t>(r.logger)].logger;
                    if (!logger) continue;
                    r.called = true;
                    r.inv = sim_seq();
                    r.t_inv = sim_now();
                    sim_note("log %d", id);
                }
                log_one(*logger, r);
                {
                    Ignore ig;
                    r.returned = true;
                    r.res = sim_seq();
                    r.t_res = sim_now();
                    LoggerInfo &l = world.loggers[static_cast<std::size_t>(r.logger)];
                    if (!l.async && !l.fail_res)
                        for (Seen const &s : l.seen)
                            if (s.rec == id && !s.ok) l.fail_res = r.res;
                    sim_note("logged %d", id);
                }
            }
        });
    if (release)
        for (LoggerInfo &l : world.loggers)
            if (l.released)
            {
                sim_sleep_ns(static_cast<std::int64_t>(R(0, 30)) * ms);
                std::shared_ptr<Logger> gone;
                { Ignore ig; gone = std::move(l.logger); }
                gone.reset();
            }
    threads.join();
    sim_drain();
    auto complete = [&](LoggerInfo const &l) { return !l.fail_init && l.fail_at < 0 && !l.released; };
    auto settled = [&]() {
        for (LoggerInfo const &l : world.loggers)
        {
            if (l.in_sink) return false;
            if (l.fail_at >= 0 && l.async && !l.fail_res && !l.released)
            {
                std::size_t n = 0;
                for (Rec const &r : world.recs)
                    if (r.called && &world.loggers[static_cast<std::size_t>(r.logger)] == &l) ++n;
                if (l.seen.size() < n) return false;
            }
        }
        for (Rec const &r : world.recs)
            if (r.called && complete(world.loggers[static_cast<std::size_t>(r.logger)]) && !r.seen) return false;
        return true;
    };
    if (!wait_until(settled, budget + 500 * ms, 5 * ms))
    {
        Ignore ig;
        for (Rec const &r : world.recs)
            if (r.called && !r.seen && complete(world.loggers[static_cast<std::size_t>(r.logger)])) sim_fail("oracle:record-lost", "record %d of logger %d did not reach its sink", r.id, r.logger);
        sim_fail("oracle:record-lost", "records of a failing logger did not reach its sink before the failure");
    }
    sim_sleep_ns(30 * ms);
    world.manager->stop();
    {
        Ignore ig;
        for (std::size_t i = 0; i < world.loggers.size(); ++i)
        {
            LoggerInfo const &l = world.loggers[i];
            // indices: unique, contiguous, and for an asynchronous logger in the order of arrival
            std::vector<std::uintmax_t> idx;
            for (Seen const &s : l.seen) idx.push_back(s.index);
            if (l.async)
                for (std::size_t k = 0; k < idx.size(); ++k)
                    if (idx[k] != k) sim_fail("oracle:record-index", "asynchronous logger %zu: the record that arrived as number %zu has index %lu", i, k, (unsigned long)idx[k]);
            std::sort(idx.begin(), idx.end());
            for (std::size_t k = 0; k < idx.size(); ++k)
                if (idx[k] != k) sim_fail("oracle:record-index", "logger %zu: indices are not unique and contiguous (%lu at position %zu)", i, (unsigned long)idx[k], k);
            // order: a record logged before another one arrives before it
            for (std::size_t a = 0; a < l.seen.size(); ++a)
                for (std::size_t b = a + 1; b < l.seen.size(); ++b)
                {
                    Rec const &ra = world.recs[static_cast<std::size_t>(l.seen[a].rec)], &rb = world.recs[static_cast<std::size_t>(l.seen[b].rec)];
                    if (rb.returned && rb.res < ra.inv)
                        sim_fail("oracle:record-order", "logger %zu: record %d was logged before record %d but arrived after it", i, rb.id, ra.id);
                }
            if (l.fail_at >= 0 && l.fail_res) sim_probe(1);
            if (l.async && l.fail_at >= 0 && static_cast<int>(l.seen.size()) > l.fail_at + 1)
                sim_fail("oracle:record-after-failure", "logger %zu: records reached the sink after it had failed", i);
            // nothing that preceded the failure is lost
            if (!l.released && l.fail_at >= 0)
            {
                std::uint64_t first_fail = UINT64_MAX;
                for (Seen const &s : l.seen) if (!s.ok) first_fail = s.start;
                for (Rec const &r : world.recs)
                    if (r.called && static_cast<std::size_t>(r.logger) == i && !r.seen && !l.async && r.res < first_fail)
                        sim_fail("oracle:record-lost", "record %d did not reach the sink of logger %zu although it had not failed yet", r.id, i);
                if (l.async && l.fail_res)
                {
                    // records posted before the failing one came first
                    Rec const &f = world.recs[static_cast<std::size_t>(l.seen[static_cast<std::size_t>(l.fail_at)].rec)];
                    for (Rec const &r : world.recs)
                        if (r.called && static_cast<std::size_t>(r.logger) == i && !r.seen && r.returned && r.res < f.inv)
                            sim_fail("oracle:record-lost", "record %d did not reach the sink of logger %zu before it failed", r.id, i);
                }
            }
            if (l.released) sim_probe(2);
        }
    }
    for (LoggerInfo &l : world.loggers)
    {
        l.logger.reset();
        l.runner.reset();
    }
    runners.clear();
    world.manager.reset();
    for (LoggerInfo const &l : world.loggers)
        if (!l.weak.expired()) sim_fail("oracle:leak", "a logger is not released");
    sim_stop();
}

// ---- registry -----------------------------------------------------------------------------------

struct Inst // one logger object
{
    Logger *ptr = nullptr;
    int name = 0;
    std::uint64_t c_inv = 0, c_res = 0;   // creation
    std::uint64_t last_inv = 0, last_res = 0; // last release
    int refs = 0;
    bool failed_init = false;
};
struct Event
{
    enum { Create, FailInit, Get } kind;
    int name = 0;
    std::uint64_t inv = 0, res = 0;
    Logger *got = nullptr;
};

struct PlainSink : Sink
{
    bool ok;
    int points;
    PlainSink(bool o, int p) : ok(o), points(p) {}
    bool initialize() override
    {
        for (int i = 0; i < points; ++i) sim_point();
        return ok;
    }
    bool stream(Log &&) override { return true; }
};

void run_registry()
{
    quiet_default_logger();
    int const nthreads = static_cast<int>(sim_param("threads", 1, 4));
    int const nnames = amount("names", 1, 2, 14, 8);
    int const total = amount("ops", 3, 24, 200);
    std::size_t const nslots = nnames > 2 ? 6 : 2;
    struct Op { int kind; int name; int slot; int points; std::int64_t pause; };
    std::vector<std::vector<Op>> plan(static_cast<std::size_t>(nthreads));
    static char const *const kinds[] = {"create", "create with a failing sink", "look up", "release", "log to"};
    for (int i = 0; i < total; ++i)
    {
        std::size_t const t = R(0, static_cast<std::uint64_t>(nthreads - 1));
        std::uint64_t const k = R(0, 99);
        Op op {k < 35 ? 0 : k < 42 ? 1 : k < 65 ? 2 : k < 90 ? 3 : 4, static_cast<int>(R(0, static_cast<std::uint64_t>(nnames - 1))), static_cast<int>(R(0, nslots - 1)), static_cast<int>(R(0, 2)),
            coin(20) ? static_cast<std::int64_t>(R(0, 3)) * ms : 0};
        if (sim_op("thread %zu: %s name %d, slot %d", t, kinds[op.kind], op.name, op.slot)) plan[t].push_back(op);
    }
    std::vector<Inst> insts;
    std::vector<Event> events;
    auto find = [&](Logger *p) -> Inst & {
        for (Inst &i : insts) if (i.ptr == p) return i;
        Inst n;
        n.ptr = p;
        n.c_inv = n.c_res = 0;
        insts.push_back(n);
        return insts.back();
    };
    auto ref = [&](Logger *p, int name) {
        Inst &i = find(p);
        i.name = name;
        ++i.refs;
    };
    auto config = std::make_shared<Config>(256);
    auto release = [&](std::shared_ptr<Logger> &slot) {
        if (!slot) return;
        Logger *p = slot.get();
        std::uint64_t inv;
        {
            Ignore ig;
            inv = sim_seq();
            Inst &i = find(p);
            --i.refs;
            i.last_inv = std::max(i.last_inv, inv);
            i.last_res = UINT64_MAX;
            sim_note("release %p", (void *)p);
        }
        slot.reset();
        Ignore ig;
        find(p).last_res = sim_seq();
    };
    auto worker = [&](int t) {
        std::vector<std::shared_ptr<Logger>> slots(nslots);
        for (Op const &op : plan[static_cast<std::size_t>(t)])
        {
            if (op.pause) sim_sleep_ns(op.pause);
            std::shared_ptr<Logger> &slot = slots[static_cast<std::size_t>(op.slot)];
            std::string const name = "name" + std::to_string(op.name);
            if (op.kind == 3) { release(slot); continue; }
            if (op.kind == 4)
            {
                if (slot)
                {
                    slot->info("x");
                    if (slot->name() != "name" + std::to_string([&]() { Ignore ig; return find(slot.get()).name; }()))
                        sim_fail("oracle:name", "a logger changed its name");
                }
                continue;
            }
            std::uint64_t inv;
            { Ignore ig; inv = sim_seq(); sim_note("%s %d", kinds[op.kind], op.name); }
            std::shared_ptr<Logger> got;
            if (op.kind == 2) got = Logger::get(name);
            else got = Logger::create(name, config, std::make_unique<PlainSink>(op.kind == 0, op.points));
            {
                Ignore ig;
                std::uint64_t const res = sim_seq();
                sim_note("-> %p", (void *)got.get());
                events.push_back({op.kind == 0 ? Event::Create : op.kind == 1 ? Event::FailInit : Event::Get, op.name, inv, res, got.get()});
                if (got)
                {
                    ref(got.get(), op.name);
                    if (op.kind == 1) sim_fail("oracle:create", "a logger was created although its sink failed to initialise");
                    Inst &i = find(got.get());
                    if (op.kind == 0) { i.c_inv = inv; i.c_res = res; }
                    if (got->name() != name) sim_fail("oracle:name", "a logger is retrievable under another name");
                }
            }
            release(slot);
            slot = std::move(got);
        }
        for (auto &slot : slots) release(slot);
    };
    sim_faults_enable(1);
    Threads threads;
    for (int t = 0; t < nthreads; ++t) threads.start([&, t]() { worker(t); });
    threads.join();
    sim_drain();
    // all references are gone: every name is available, and retrievable while referenced, also all of them together
    std::vector<std::shared_ptr<Logger>> kept;
    for (int n = 0; n < nnames; ++n)
    {
        std::string const name = "name" + std::to_string(n);
        if (Logger::get(name)) sim_fail("oracle:registry-stale", "a released logger is still retrievable");
        auto l = Logger::create(name, config, std::make_unique<PlainSink>(true, 0));
        if (!l) sim_fail("oracle:name-lost", "name %d cannot be used although all of its loggers are gone", n);
        auto failed = Logger::create(name, config, std::make_unique<PlainSink>(true, 0));
        if (failed) sim_fail("oracle:name-reused", "a second logger was created for a name in use");
        if (Logger::get(name) != l) sim_fail("oracle:registry-lost", "a failed creation made the live logger of that name unreachable");
        if (Logger::create(name, config, std::make_unique<PlainSink>(true, 0))) sim_fail("oracle:name-reused", "a second logger was created for a name in use");
        kept.push_back(std::move(l));
    }
    for (int n = 0; n < nnames; ++n)
    {
        if (Logger::get("name" + std::to_string(n)) != kept[static_cast<std::size_t>(n)])
            sim_fail("oracle:registry-lost", "the live logger %d of %d is not retrievable", n, nnames);
    }
    kept.clear();
    {
        Ignore ig;
        // creation intervals of loggers whose initialisation failed (seen through lookups only)
        for (Inst &i : insts)
        {
            if (i.c_res) continue;
            bool known = false;
            for (Event const &e : events)
                if (e.kind == Event::FailInit && e.name == i.name)
                    for (Event const &g : events)
                        if (g.got == i.ptr && g.res > e.inv) known = true;
            if (!known) sim_fail("oracle:registry-ghost", "a lookup returned a logger that was never created");
            i.failed_init = true;
        }
        for (std::size_t a = 0; a < insts.size(); ++a)
            for (std::size_t b = 0; b < insts.size(); ++b)
            {
                Inst const &x = insts[a], &y = insts[b];
                if (a == b || x.name != y.name || x.failed_init || y.failed_init) continue;
                if (x.c_res < y.c_inv && x.last_inv > y.c_res)
                    sim_fail("oracle:name-reused", "two loggers named %d existed at the same time", x.name);
                if (a < b && x.c_res < y.last_inv && y.c_res < x.last_inv)
                    sim_fail("oracle:name-reused", "two loggers named %d existed at the same time", x.name);
            }
        for (Event const &e : events)
        {
            if (e.kind == Event::Create && !e.got)
            {
                bool excused = false;
                for (Inst const &i : insts)
                    if (i.name == e.name && (i.failed_init ? 0 : i.c_inv) < e.res && i.last_res > e.inv) excused = true;
                for (Event const &f : events)
                    if (f.kind == Event::FailInit && f.name == e.name && f.inv < e.res && f.res > e.inv) excused = true;
                if (!excused) sim_fail("oracle:name-lost", "creating a logger of name %d failed although no such logger existed", e.name);
                sim_probe(0);
            }
            if (e.kind == Event::Get && e.got)
            {
                Inst const &i = find(e.got);
                if (!i.failed_init && i.c_inv > e.res) sim_fail("oracle:registry-ghost", "a lookup returned a logger before it was created");
            }
            if (e.kind == Event::Get && !e.got)
            {
                for (Inst const &i : insts)
                    if (!i.failed_init && i.name == e.name && i.c_res < e.inv && i.last_inv > e.res)
                        sim_fail("oracle:registry-lost", "the live logger of name %d was not found", e.name);
            }
        }
    }
    sim_stop();
}

// ---- file logger --------------------------------------------------------------------------------

struct FileWorld
{
    std::vector<Rec> recs;
    std::vector<Seen> seen;   // calls into the file sink (wrapped)
    int in_sink = 0;
};
FileWorld *F;

// Observes the calls into the real file sink.
struct WrappedFileSink : Sink
{
    detail::FileSink inner;
    WrappedFileSink(std::shared_ptr<LoggerConfig> c, std::shared_ptr<fly::coders::CoderConfig> k, std::filesystem::path d) : inner(std::move(c), std::move(k), std::move(d)) {}
    bool initialize() override { return inner.initialize(); }
    bool stream(Log &&log) override
    {
        std::size_t slot;
        {
            Ignore ig;
            Seen s;
            int const line = static_cast<int>(log.m_trace.m_line) - 1;
            bool const ours = !log.m_trace.m_file.empty() && (log.m_trace.m_file == files[0] || log.m_trace.m_file == files[1] || log.m_trace.m_file == files[2]);
            s.rec = ours ? line : -1;
            s.index = log.m_index;
            s.start = sim_seq();
            s.faults_before = sim_file_faults();
            slot = F->seen.size();
            F->seen.push_back(s);
        }
        bool const ok = inner.stream(std::move(log));
        Ignore ig;
        Seen &s = F->seen[slot];
        s.ok = ok;
        s.end = sim_seq();
        s.faults_after = sim_file_faults();
        sim_note("file sink: record %d index %lu -> %d", s.rec, (unsigned long)s.index, ok);
        return ok;
    }
};

struct LogFile
{
    int number = 0;
    std::string name;
    bool plain = false, compressed = false;
    std::string content;
};

// Reads the log directory back, decoding compressed files where the original is gone.
std::vector<LogFile> read_back(std::string const &dir, bool crashed, bool several = false)
{
    std::map<std::string, LogFile> found;
    for (auto const &e : std::filesystem::directory_iterator(dir))
    {
        std::string const n = e.path().filename().string();
        std::string stem = n;
        bool enc = false;
        if (stem.size() > 8 && stem.substr(stem.size() - 8) == ".log.enc") { enc = true; stem = stem.substr(0, stem.size() - 8); }
        else if (stem.size() > 4 && stem.substr(stem.size() - 4) == ".log") stem = stem.substr(0, stem.size() - 4);
        else sim_fail("oracle:stray-file", "unexpected file %s in the log directory", n.c_str());
        LogFile &f = found[stem];
        f.name = stem;
        if (stem.substr(0, 4) != "Log_") sim_fail("oracle:stray-file", "unexpected file %s in the log directory", n.c_str());
        f.number = atoi(stem.c_str() + 4);
        (enc ? f.compressed : f.plain) = true;
    }
    std::vector<LogFile> res;
    for (auto &[stem, f] : found)
    {
        std::string const base = dir + "/" + stem;
        if (f.plain)
        {
            std::ifstream in(base + ".log", std::ios::binary);
            std::stringstream ss;
            ss << in.rdbuf();
            f.content = ss.str();
        }
        else
        {
            fly::coders::HuffmanDecoder decoder;
            std::string const out = dir + "/decoded.tmp";
            bool ok = false;
            try { ok = decoder.decode_file(base + ".log.enc", out); } catch (...) {}
            if (!ok) sim_fail("oracle:log-undecodable", "%s.log.enc does not decode, and the original log file is gone%s", stem.c_str(), crashed ? " (process crash)" : "");
            std::ifstream in(out, std::ios::binary);
            std::stringstream ss;
            ss << in.rdbuf();
            f.content = ss.str();
            std::filesystem::remove(out);
            sim_probe(1);
        }
        res.push_back(f);
    }
    std::sort(res.begin(), res.end(), [](LogFile const &a, LogFile const &b) { return a.number < b.number; });
    for (std::size_t i = 1; i < res.size(); ++i)
        if (!several && res[i].number == res[i - 1].number) sim_fail("oracle:stray-file", "two log files of number %d", res[i].number);
    return res;
}

void run_file(bool faults)
{
    FileWorld world;
    F = &world;
    quiet_default_logger();
    bool const async = coin(60);
    bool const compress = coin(70);
    bool const self_default = coin(25);  // the file logger is the default logger
    bool const plain_api = !faults && coin(30);
    bool const crash = coin(30);
    int const nthreads = static_cast<int>(sim_param("threads", 1, 3));
    int const total = amount("records", 2, 40, 400);
    std::uintmax_t max_file = static_cast<std::uintmax_t>(sim_param("max_file_size", 20, 900));
    std::uint32_t max_message = static_cast<std::uint32_t>(R(0, 2) == 0 ? R(0, 40) : 256);
    if (self_default) { max_message = std::min<std::uint32_t>(max_message, 60); max_file = max_file + 700; } // the library logs a record per compressed file
    std::uint8_t const code_length = static_cast<std::uint8_t>(R(0, 5) == 0 ? 16 + R(0, 4) : R(9, 15)); // 16 and above: the encoder refuses
    std::int64_t const crash_after = static_cast<std::int64_t>(R(0, 40));

    std::vector<std::vector<int>> plan(static_cast<std::size_t>(nthreads));
    std::int64_t budget = 0;
    for (int i = 0; i < total; ++i)
    {
        Rec r;
        r.id = i;
        r.thread = static_cast<int>(R(0, static_cast<std::uint64_t>(nthreads - 1)));
        r.level = static_cast<Level>(R(0, 3));
        r.message = make_message(i, R(0, 3) == 0 ? R(0, 10) : R(0, 2) == 0 ? R(200, 400) : R(10, 120));
        r.pause = coin(15) ? static_cast<std::int64_t>(R(0, 12)) * ms : 0;
        budget += r.pause + 25 * ms;
        bool const on = sim_op("thread %d: log record %d (%s), %zu bytes, pause %ld ms", r.thread, i, level_names[static_cast<int>(r.level)], r.message.size(), (long)(r.pause / ms));
        if (on) plan[static_cast<std::size_t>(r.thread)].push_back(i);
        world.recs.push_back(std::move(r));
    }
    std::string const dir = std::string(sim_scratch()) + "/logs";
    std::filesystem::create_directory(dir);
    sim_fs_prefix(dir.c_str());
    if (faults)
    {
        static int const kinds[] = {SF_OPEN_FAIL, SF_READ_EIO, SF_READ_SHORT, SF_EINTR, SF_WRITE_ENOSPC, SF_WRITE_SHORT, SF_WRITE_EIO, SF_CLOSE_FAIL, SF_UNLINK_FAIL};
        int const rate = static_cast<int>(R(0, 2)) == 0 ? 1500 : 300;
        int chosen = 0;
        for (int k : kinds)
            if (coin(35)) { sim_fault_rate(k, rate); ++chosen; }
        if (!chosen) sim_fault_rate(SF_WRITE_ENOSPC, rate);
    }
    // log calls on several threads need a synchronised logger; the plan is the same for both kinds
    auto manager = new std::shared_ptr<TaskManager>(TaskManager::create(static_cast<std::uint32_t>(R(1, 2))));
    auto runner = new std::shared_ptr<SequencedTaskRunner>(SequencedTaskRunner::create(*manager));
    auto config = std::make_shared<Config>(max_message, max_file, compress);
    auto coder = std::make_shared<CoderCfg>(static_cast<std::uint16_t>(R(1, 2)), code_length);
    sim_faults_enable(1);
    auto logger = new std::shared_ptr<Logger>;
    int const faults0 = sim_file_faults();
    if (plain_api) *logger = async ? create_file_logger("file", *runner, config, coder, dir) : create_file_logger("file", config, coder, dir);
    else if (async) *logger = Logger::create("file", *runner, config, std::make_unique<WrappedFileSink>(config, coder, dir));
    else *logger = Logger::create("file", config, std::make_unique<WrappedFileSink>(config, coder, dir));
    if (!*logger)
    {
        if (sim_file_faults() == faults0) sim_fail("oracle:create", "a file logger was not created in a writable directory");
        sim_probe(0);
        (*manager)->stop();
        sim_stop();
        return;
    }
    if (self_default) Logger::set_default_logger(*logger);

    auto threads = new Threads;
    int running = nthreads;
    for (int t = 0; t < nthreads; ++t)
        threads->start([&, t]() {
            for (int id : plan[static_cast<std::size_t>(t)])
            {
                Rec &r = world.recs[static_cast<std::size_t>(id)];
                if (r.pause) sim_sleep_ns(r.pause);
                {
                    Ignore ig;
                    r.called = true;
                    r.inv = sim_seq();
                    r.faults_before = sim_file_faults();
                    sim_note("log %d", id);
                }
                log_one(**logger, r);
                Ignore ig;
                r.returned = true;
                r.res = sim_seq();
                r.faults_after = sim_file_faults();
                sim_note("logged %d", id);
            }
            Ignore ig;
            --running;
        });
    bool crashed = false;
    if (crash && sim_op("main: the process dies"))
    {
        crashed = true;
        sim_sleep_ns(crash_after * crash_after * 50000);
        for (std::uint64_t i = R(0, 300); i > 0; --i) sim_point();
        sim_note("crash");
        sim_stop(); // every other thread is gone, unwritten buffers with them
        if (self_default) quiet_default_logger("_sim_quiet2_");
        sim_probe(2);
    }
    else
    {
        threads->join();
        // the faults go on until the records have been processed
        if (faults) { Ignore ig; }
        auto accepted_all = [&]() {
            for (Rec const &r : world.recs)
            {
                if (!r.called) continue;
                bool in = false;
                for (Seen const &s : world.seen) if (s.rec == r.id && s.end) in = true;
                if (!in) return false;
            }
            return true;
        };
        if (plain_api) sim_sleep_ns(budget + 200 * ms);
        else if (!wait_until(accepted_all, budget + 500 * ms, 5 * ms) && sim_file_faults() == 0)
            sim_fail("oracle:record-lost", "a record of the file logger did not reach the sink on a healthy disk");
        sim_drain();
        sim_sleep_ns(50 * ms);
        (*manager)->stop();
        if (self_default) quiet_default_logger("_sim_quiet2_");
        std::weak_ptr<Logger> weak = *logger;
        logger->reset();
        sim_stop();
    }

    // ---- the files left behind
    sim_fs_exempt_begin();
    std::vector<LogFile> const all = read_back(dir, crashed);
    int const nfaults = sim_file_faults();
    // a fragment of a record followed by the same record
    auto torn_retry = [&](std::string const &rec) {
        for (std::size_t n = 1; n < rec.size(); ++n)
            if (rec.compare(n, n, rec, 0, std::min(n, rec.size() - n)) == 0 && rec.size() >= 2 * n && rec.compare(0, n, rec, n, n) == 0) return true;
        return false;
    };
    // exactly a record that went through the sink
    auto intact = [&](std::vector<std::string> const &parts) {
        if (parts.size() != 5) return false;
        for (Seen const &q : world.seen)
        {
            if (std::to_string(q.index) != parts[0]) continue;
            if (q.rec < 0) return parts[3].find("fly/") != std::string::npos;
            Rec const &r = world.recs[static_cast<std::size_t>(q.rec)];
            return parts[4] == r.message.substr(0, max_message) && parts[3] == std::string(files[r.id % 3]) + ":" + functions[r.id % 3] + ":" + std::to_string(r.id + 1);
        }
        return false;
    };
    struct Found { std::uintmax_t index; int rec; int file; };
    std::vector<Found> found;
    for (std::size_t fi = 0; fi < all.size(); ++fi)
    {
        LogFile const &f = all[fi];
        std::size_t pos = 0, last = 0;
        while (pos < f.content.size())
        {
            std::size_t const end = f.content.find('\x1e', pos);
            if (end == std::string::npos)
            {
                // an incomplete record: only at the end of a file that met a fault or a crash
                if (nfaults == 0 && !crashed) sim_fail("oracle:record-torn", "file %d ends with an incomplete record on a healthy disk", f.number);
                sim_probe(3);
                break;
            }
            std::string const rec = f.content.substr(pos, end - pos);
            last = pos;
            // a torn write may be followed by a second attempt (closing the file retries it), hence the
            // last record of a file that met a fault may start with a fragment of itself
            bool const tail = nfaults != 0 && end + 1 == f.content.size();
            std::vector<std::string> parts;
            std::size_t a = 0;
            for (int i = 0; i < 4; ++i)
            {
                std::size_t const b = rec.find('\x1f', a);
                if (b == std::string::npos && tail) break;
                if (b == std::string::npos) sim_fail("oracle:record-garbled", "file %d: a record does not have five fields", f.number);
                parts.push_back(rec.substr(a, b - a));
                a = b + 1;
            }
            parts.push_back(rec.substr(a));
            pos = end + 1;
            if (tail && torn_retry(rec) && !intact(parts)) { sim_probe(3); break; }
            if (parts.size() != 5) sim_fail("oracle:record-garbled", "file %d: a record does not have five fields", f.number);
            Found x {std::strtoull(parts[0].c_str(), nullptr, 10), -1, f.number};
            for (Rec const &r : world.recs)
            {
                std::string const trace = std::string(files[r.id % 3]) + ":" + functions[r.id % 3] + ":" + std::to_string(r.id + 1);
                if (trace == parts[3]) x.rec = r.id;
            }
            if (x.rec < 0)
            {
                // the library's own records, if this is the default logger
                if (!self_default || parts[3].find("fly/") == std::string::npos) sim_fail("oracle:unknown-record", "file %d contains a record that was never logged: %.80s", f.number, parts[3].c_str());
            }
            else
            {
                Rec &r = world.recs[static_cast<std::size_t>(x.rec)];
                if (!r.called) sim_fail("oracle:unknown-record", "file %d contains record %d, which was never logged", f.number, r.id);
                if (++r.seen > 1) sim_fail("oracle:record-duplicated", "record %d is in the log files twice", r.id);
                if (parts[1].size() != 1 || parts[1][0] != static_cast<char>(r.level)) sim_fail("oracle:record-level", "record %d: level changed", r.id);
                if (parts[4] != r.message.substr(0, max_message)) sim_fail("oracle:record-message", "record %d: message changed", r.id);
            }
            if (async && !found.empty() && found.back().index >= x.index)
                sim_fail("oracle:record-order", "file %d: record index %lu follows index %lu", f.number, (unsigned long)x.index, (unsigned long)found.back().index);
            if (x.rec >= 0)
                for (Found const &o : found)
                    if (o.rec >= 0 && world.recs[static_cast<std::size_t>(x.rec)].returned && world.recs[static_cast<std::size_t>(x.rec)].res < world.recs[static_cast<std::size_t>(o.rec)].inv)
                        sim_fail("oracle:record-order", "file %d: record %d was logged before record %d but follows it", f.number, x.rec, o.rec);
            found.push_back(x);
        }
        if (!self_default && last > max_file) sim_fail("oracle:file-size", "file %d went on to grow after exceeding %lu bytes (%zu)", f.number, (unsigned long)max_file, last);
        // a rotation happens only when the limit is exceeded
        if (!self_default && fi + 1 < all.size() && nfaults == 0 && !crashed && f.content.size() <= max_file)
            sim_fail("oracle:file-size", "file %d was rotated at %zu bytes, the limit is %lu", f.number, f.content.size(), (unsigned long)max_file);
        if (fi + 1 < all.size() && nfaults == 0 && !crashed && compress && code_length < 16 && f.plain) sim_fail("oracle:not-compressed", "rotated file %d was not compressed", f.number);
        if ((!compress || code_length >= 16) && !f.plain) sim_fail("oracle:not-compressed", "file %d was compressed although compression is off", f.number);
    }
    if (all.size() > 1) sim_probe(4);
    if (nfaults == 0 && !crashed)
    {
        for (Rec const &r : world.recs)
            if (r.called && !r.seen) sim_fail("oracle:record-lost", "record %d is in no log file (healthy disk)", r.id);
        std::vector<std::uintmax_t> idx;
        for (Found const &x : found) idx.push_back(x.index);
        std::sort(idx.begin(), idx.end());
        for (std::size_t i = 0; i < idx.size(); ++i)
            if (idx[i] != i) sim_fail("oracle:record-lost", "index %zu is in no log file (healthy disk)", i);
    }
    // what the sink took in without meeting a fault is there
    for (Seen const &s : world.seen)
    {
        if (!s.end || s.rec < 0 || !s.ok) continue;
        if (!world.recs[static_cast<std::size_t>(s.rec)].seen)
            sim_fail("oracle:record-lost", "record %d was accepted by the file sink, but is in no log file%s", s.rec, crashed ? " after the process crash" : "");
    }
    if (!async)
        for (Rec const &r : world.recs)
            if (r.called && r.returned && r.faults_after == 0 && !r.seen) // nothing failed before or during the call
                sim_fail("oracle:record-lost", "record %d was logged before the first fault, but is in no log file%s", r.id, crashed ? " after the process crash" : "");
}

// Several file loggers in one directory, loggers that are created again, and a new process after a crash:
// nobody touches the files of the others.
void run_shared()
{
    quiet_default_logger();
    bool const compress = coin(50), crash = coin(40);
    int const nloggers = static_cast<int>(sim_param("loggers", 1, 3));
    int const lives = static_cast<int>(sim_param("lives", 1, 4));
    int const total = static_cast<int>(sim_param("records", 1, 6));
    std::uintmax_t const max_file = static_cast<std::uintmax_t>(sim_param("max_file_size", 20, 1500));
    std::int64_t const crash_after = static_cast<std::int64_t>(R(0, 40));
    struct Life { bool async; std::vector<int> recs; std::int64_t pause; };
    struct World
    {
        std::vector<Rec> recs;
        std::vector<int> owner; // which logger instance logs the record
        std::vector<std::vector<Life>> lives;
        std::vector<Life> after;
        bool crashed = false;
    };
    auto *w = new World;
    int owner = 0;
    auto life = [&](int logger, bool sync) {
        Life l;
        l.async = !sync && coin(50);
        l.pause = coin(30) ? static_cast<std::int64_t>(R(0, 1500)) * ms : 0;
        for (int i = 0; i < total; ++i)
        {
            Rec r;
            r.id = static_cast<int>(w->recs.size());
            r.logger = logger;
            r.level = static_cast<Level>(R(0, 3));
            r.message = make_message(r.id, R(1, 120));
            if (sim_op("logger %d: record %d, %zu bytes", logger, r.id, r.message.size())) l.recs.push_back(r.id);
            w->recs.push_back(std::move(r));
            w->owner.push_back(owner);
        }
        ++owner;
        return l;
    };
    for (int i = 0; i < nloggers; ++i)
    {
        w->lives.emplace_back();
        for (int k = 0; k < lives; ++k) w->lives.back().push_back(life(i, false));
    }
    if (crash)
        for (int k = 0; k < lives; ++k) w->after.push_back(life(100, true));
    std::string const dir = std::string(sim_scratch()) + "/logs";
    std::filesystem::create_directory(dir);
    sim_fs_prefix(dir.c_str());
    auto *manager = new std::shared_ptr<TaskManager>(TaskManager::create(2));
    auto config = std::make_shared<Config>(256, max_file, compress);
    auto coder = std::make_shared<CoderCfg>(static_cast<std::uint16_t>(1), static_cast<std::uint8_t>(11));
    sim_faults_enable(1);
    auto live = [w, manager, config, coder, dir](std::string const &name, Life const &l) {
        std::shared_ptr<Logger> logger;
        std::shared_ptr<SequencedTaskRunner> runner;
        if (l.async) runner = SequencedTaskRunner::create(*manager);
        for (int i = 0; i < 50 && !logger; ++i)
        {
            // The name is free as soon as the last task of the previous logger has ended.
            if (i) sim_sleep_ns(100 * ms);
            if (l.async) logger = create_file_logger(name, runner, config, coder, dir);
            else logger = create_file_logger(name, config, coder, dir);
        }
        if (!logger) sim_fail("oracle:create", "a file logger was not created in a writable directory");
        for (int id : l.recs)
        {
            Rec &r = w->recs[static_cast<std::size_t>(id)];
            {
                Ignore ig;
                r.called = true;
            }
            log_one(*logger, r);
            Ignore ig;
            if (!l.async) r.returned = true; // written
        }
        if (l.async)
        {
            // Let it write everything.
            auto done = std::make_shared<bool>(false);
            runner->post_task(FROM_HERE, [done] {
                Ignore ig;
                *done = true;
            });
            if (!wait_until([done] { return *done; }, 60 * sec)) sim_fail("oracle:stalled", "an asynchronous logger does not get on");
            Ignore ig;
            for (int id : l.recs) w->recs[static_cast<std::size_t>(id)].returned = true;
        }
        if (l.pause) sim_sleep_ns(l.pause);
    };
    auto *threads = new Threads;
    for (int i = 0; i < nloggers; ++i)
        threads->start([w, live, i] {
            for (Life const &l : w->lives[static_cast<std::size_t>(i)]) live("file " + std::to_string(i), l);
        });
    if (crash && sim_op("main: the process dies"))
    {
        sim_sleep_ns(crash_after * crash_after * 1000000);
        for (std::uint64_t i = R(0, 300); i > 0; --i) sim_point();
        sim_note("crash");
        {
            Ignore ig;
            w->crashed = true;
        }
        sim_stop();
        // The next process, perhaps within the same second.
        for (std::size_t k = 0; k < w->after.size(); ++k) live("after " + std::to_string(k), w->after[k]);
        sim_probe(0);
    }
    else
    {
        threads->join();
        sim_drain();
        sim_sleep_ns(2 * sec);
        (*manager)->stop();
        sim_stop();
    }
    sim_fs_exempt_begin();
    std::vector<LogFile> const all = read_back(dir, w->crashed, true);
    for (LogFile const &f : all)
    {
        int file_owner = -1;
        std::size_t pos = 0;
        while (pos < f.content.size())
        {
            std::size_t const end = f.content.find('\x1e', pos);
            if (end == std::string::npos)
            {
                if (!w->crashed) sim_fail("oracle:record-torn", "%s ends with an incomplete record on a healthy disk", f.name.c_str());
                break;
            }
            std::string const rec = f.content.substr(pos, end - pos);
            pos = end + 1;
            std::vector<std::string> parts;
            std::stringstream ss(rec);
            for (std::string part; std::getline(ss, part, '\x1f');) parts.push_back(part);
            Rec *found = nullptr;
            for (Rec &r : w->recs)
                if (parts.size() == 5 && parts[3] == std::string(files[r.id % 3]) + ":" + functions[r.id % 3] + ":" + std::to_string(r.id + 1)) found = &r;
            if (!found || !found->called || parts[4] != found->message) sim_fail("oracle:unknown-record", "%s contains a record that was never logged: %.80s", f.name.c_str(), rec.c_str());
            if (++found->seen > 1) sim_fail("oracle:record-duplicated", "record %d is in the log files twice", found->id);
            int const o = w->owner[static_cast<std::size_t>(found->id)];
            if (file_owner >= 0 && file_owner != o) sim_fail("oracle:shared-file", "%s contains records of two loggers", f.name.c_str());
            file_owner = o;
        }
    }
    for (Rec const &r : w->recs)
        if (r.called && !r.seen && (r.returned || !w->crashed)) sim_fail("oracle:record-lost", "record %d of logger %d is in no log file (healthy disk%s)", r.id, r.logger, w->crashed ? ", process crash" : "");
    sim_hash(all.size());
}

// ---------------------------------------------------------------------------------------------------------------------
// Console loggers: the terminal is a pair of recording stream buffers that lets other threads run between any two writes.

struct Terminal : std::streambuf
{
    std::string text;
    int xsputn_calls = 0;
    std::size_t flushed = 0; // what precedes is out of the process
    int_type overflow(int_type c) override
    {
        if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
        char const ch = traits_type::to_char_type(c);
        return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
    }
    std::streamsize xsputn(char const *s, std::streamsize n) override
    {
        sim_point();
        {
            Ignore ig;
            ++xsputn_calls;
            text.append(s, static_cast<std::size_t>(n));
        }
        sim_point();
        return n;
    }
    int sync() override
    {
        sim_point();
        Ignore ig;
        flushed = text.size();
        return 0;
    }
};

std::string mask_digits(std::string s)
{
    for (char &c : s)
        if (c >= '0' && c <= '9') c = '#';
    return s;
}

struct ConsoleRec
{
    int id = 0, logger = 0, thread = 0, level = 0;
    bool trace = true;
    std::string message;
    std::int64_t pause = 0;
    bool called = false, returned = false;
    std::uint64_t inv = 0, res = 0;
    int seen = 0;
    std::size_t at = 0; // position in its stream
};

void log_console(Logger &l, int level, bool trace, std::string const &m)
{
    Trace const t {"console.cpp", "run", 7};
    switch (level)
    {
        case 0: trace ? l.debug(Trace(t), "{}", m) : l.debug("{}", m); break;
        case 1: trace ? l.info(Trace(t), "{}", m) : l.info("{}", m); break;
        case 2: trace ? l.warn(Trace(t), "{}", m) : l.warn("{}", m); break;
        default: trace ? l.error(Trace(t), "{}", m) : l.error("{}", m); break;
    }
}

void run_console()
{
    struct World
    {
        std::vector<ConsoleRec> recs;
        std::vector<std::shared_ptr<Logger>> loggers; // null: the default logger
        std::string prefix[4][2], suffix[4][2];
    };
    auto *w = new World;
    auto *out = new Terminal, *err = new Terminal;
    std::cout.flush();
    std::cerr.flush();
    std::cout.clear();
    std::cerr.clear();
    std::streambuf *const old_out = std::cout.rdbuf(out), *const old_err = std::cerr.rdbuf(err);
    Logger::set_default_logger(nullptr);

    int const nloggers = static_cast<int>(sim_param("loggers", 1, 3));
    int const nthreads = static_cast<int>(sim_param("threads", 1, 4));
    int const nworkers = static_cast<int>(sim_param("workers", 1, 3));
    int const nrunners = static_cast<int>(sim_param("runners", 1, 2));
    int const total = amount("records", 1, 14, 200);
    sim_fault_rate(SF_SPURIOUS, coin(20) ? 300 : 0);
    std::vector<bool> async(static_cast<std::size_t>(nloggers));
    bool const use_default = coin(70);
    for (int i = 0; i < nloggers; ++i) async[static_cast<std::size_t>(i)] = !(i == 0 && use_default) && coin(50);
    std::vector<std::vector<int>> plan(static_cast<std::size_t>(nthreads));
    std::int64_t budget = 0;
    for (int i = 0; i < total; ++i)
    {
        ConsoleRec r;
        r.id = i;
        r.logger = static_cast<int>(R(0, static_cast<std::uint64_t>(nloggers - 1)));
        r.thread = static_cast<int>(R(0, static_cast<std::uint64_t>(nthreads - 1)));
        r.level = static_cast<int>(R(0, 3));
        r.trace = coin(75);
        r.message = "<" + std::to_string(i) + "|";
        std::size_t const size = coin(15) ? R(60, 180) : R(0, 20);
        for (std::size_t k = 0; k < size; ++k) r.message.push_back("abc xyz{}%\t\"0123[;m\xc3"[R(0, 19)]);
        r.message.push_back('>');
        r.pause = coin(15) ? static_cast<std::int64_t>(R(0, 9)) * ms : 0;
        budget += r.pause + 10 * ms;
        if (sim_op("thread %d: log record %d to %s logger %d, %s, %zu bytes, pause %ld ms", r.thread, i, async[static_cast<std::size_t>(r.logger)] ? "asynchronous" : "synchronous",
                r.logger, level_names[r.level], r.message.size(), (long)(r.pause / ms)))
            plan[static_cast<std::size_t>(r.thread)].push_back(i);
        w->recs.push_back(std::move(r));
    }
    auto manager = new std::shared_ptr<TaskManager>(TaskManager::create(static_cast<std::uint32_t>(nworkers)));
    auto runners = new std::vector<std::shared_ptr<SequencedTaskRunner>>;
    for (int i = 0; i < nrunners; ++i) runners->push_back(SequencedTaskRunner::create(*manager));
    for (int i = 0; i < nloggers; ++i)
    {
        std::shared_ptr<Logger> l;
        if (!(i == 0 && use_default))
        {
            std::string const name = "console" + std::to_string(i);
            if (async[static_cast<std::size_t>(i)]) l = create_console_logger(name, (*runners)[static_cast<std::size_t>(i % nrunners)], std::make_shared<LoggerConfig>());
            else l = create_console_logger(name, std::make_shared<LoggerConfig>());
            if (!l) sim_fail("oracle:create", "a console logger could not be created");
        }
        w->loggers.push_back(l);
    }
    // How one record is printed when nothing else is.
    std::string looks[4];
    for (int level = 0; level < 4; ++level)
        for (int trace = 0; trace < 2; ++trace)
        {
            std::string const m = "<reference>";
            std::size_t const o = out->text.size(), e = err->text.size();
            log_console(*Logger::get_default_logger(), level, trace != 0, m);
            Ignore ig;
            Terminal const &t = level < 2 ? *out : *err;
            std::size_t const from = level < 2 ? o : e;
            if (level < 2 ? err->text.size() != e : out->text.size() != o) sim_fail("oracle:console-stream", "a %s record was printed to the wrong stream", level_names[level]);
            std::string const line = t.text.substr(from);
            std::size_t const pos = line.find(m);
            if (pos == std::string::npos) sim_fail("oracle:record-lost", "a %s record was not printed by the default logger", level_names[level]);
            if (line.empty() || line.back() != '\n' || line.find('\n') != line.size() - 1) sim_fail("oracle:console-line", "a %s record was not printed as one line: '%s'", level_names[level], line.c_str());
            w->prefix[level][trace] = mask_digits(line.substr(0, pos));
            w->suffix[level][trace] = mask_digits(line.substr(pos + m.size(), line.size() - pos - m.size() - 1));
            if (trace && line.find("console.cpp") == std::string::npos) sim_fail("oracle:record-trace", "a record was printed without its trace");
            // the control sequence before the text
            std::string const look = line[0] == '\x1b' ? line.substr(0, line.find('m') + 1) : std::string();
            for (int other = 0; other < level; ++other)
                if (looks[other] == look) sim_fail("oracle:console-style", "%s and %s records are printed in the same style", level_names[other], level_names[level]);
            looks[level] = look;
        }
    std::size_t const skip_out = out->text.size(), skip_err = err->text.size();
    sim_faults_enable(1);
    Threads threads;
    for (int t = 0; t < nthreads; ++t)
        threads.start([w, t, mine = plan[static_cast<std::size_t>(t)]]() {
            for (int id : mine)
            {
                ConsoleRec &r = w->recs[static_cast<std::size_t>(id)];
                if (r.pause) sim_sleep_ns(r.pause);
                Logger *l;
                {
                    Ignore ig;
                    l = w->loggers[static_cast<std::size_t>(r.logger)].get();
                    r.called = true;
                    r.inv = sim_seq();
                }
                if (!l) l = Logger::get_default_logger();
                log_console(*l, r.level, r.trace, r.message);
                Ignore ig;
                r.returned = true;
                r.res = sim_seq();
            }
        });
    threads.join();
    sim_drain();
    std::size_t called = 0;
    for (ConsoleRec const &r : w->recs) called += r.called;
    auto lines = [&]() {
        return static_cast<std::size_t>(std::count(out->text.begin() + static_cast<std::ptrdiff_t>(skip_out), out->text.end(), '\n') + std::count(err->text.begin() + static_cast<std::ptrdiff_t>(skip_err), err->text.end(), '\n'));
    };
    wait_until([&]() { return lines() >= called; }, budget + 500 * ms, 5 * ms);
    sim_sleep_ns(30 * ms);
    (*manager)->stop();
    sim_stop();
    std::cout.rdbuf(old_out);
    std::cerr.rdbuf(old_err);
    Ignore ig;
    for (Terminal const *t : {out, err})
        if (t->flushed != t->text.size()) sim_fail("oracle:not-printed", "%zu characters of the records never leave the process", t->text.size() - t->flushed);
    for (int s = 0; s < 2; ++s)
    {
        std::string const text = s == 0 ? out->text.substr(skip_out) : err->text.substr(skip_err);
        std::size_t pos = 0, number = 0;
        while (pos < text.size())
        {
            std::size_t const end = text.find('\n', pos);
            if (end == std::string::npos) sim_fail("oracle:console-line", "the last line of a stream is not complete: '%s'", text.substr(pos).c_str());
            std::string const line = text.substr(pos, end - pos);
            pos = end + 1;
            ConsoleRec *r = nullptr;
            std::size_t at = 0;
            for (ConsoleRec &c : w->recs)
                if (c.called && (at = line.find(c.message)) != std::string::npos) { r = &c; break; }
            if (!r) sim_fail("oracle:console-line", "a line holds no complete record: '%s'", line.c_str());
            std::string const before = mask_digits(line.substr(0, at)), after = mask_digits(line.substr(at + r->message.size()));
            if (before != w->prefix[r->level][r->trace] || after != w->suffix[r->level][r->trace])
                sim_fail("oracle:console-line", "record %d was printed differently while other threads log: '%s'", r->id, line.c_str());
            if (s != (r->level < 2 ? 0 : 1)) sim_fail("oracle:console-stream", "%s record %d was printed to the wrong stream", level_names[r->level], r->id);
            if (++r->seen > 1) sim_fail("oracle:record-duplicated", "record %d was printed twice", r->id);
            r->at = number++;
        }
        if (number > 1) sim_probe(s);
    }
    for (ConsoleRec const &r : w->recs)
        if (r.called && !r.seen) sim_fail("oracle:record-lost", "record %d was not printed", r.id);
    for (ConsoleRec const &a : w->recs)
        for (ConsoleRec const &b : w->recs)
            if (a.called && b.called && a.logger == b.logger && (a.level < 2) == (b.level < 2) && a.returned && a.res < b.inv && a.at > b.at)
                sim_fail("oracle:record-order", "record %d was logged before record %d to logger %d but printed after it", a.id, b.id, a.logger);
    sim_hash(out->text.size());
    sim_hash(err->text.size());
    std::string all = out->text + err->text;
    for (std::size_t i = 0; i + 1 < all.size(); ++i)
        if (all[i] == '<') sim_hash(static_cast<std::uint64_t>(all[i + 1]));
}

} // namespace

SIM_SCENARIO(log_order, 3, "initialisation_failed", "sink_failed", "released_early") { run_log(false); }
SIM_SCENARIO(log_fail, 3, "initialisation_failed", "sink_failed", "released_early") { run_log(true); }
SIM_SCENARIO(log_registry, 3, "creation_refused") { run_registry(); }
SIM_SCENARIO(log_file, 3, "create_failed", "decoded", "crashed", "torn_record", "rotated") { run_file(false); }
SIM_SCENARIO(log_file_faults, 3, "create_failed", "decoded", "crashed", "torn_record", "rotated") { run_file(true); }
SIM_SCENARIO(log_shared, 3, "next_process", "decoded") { run_shared(); }
SIM_SCENARIO(log_console, 3, "lines_on_stdout", "lines_on_stderr") { run_console(); }
