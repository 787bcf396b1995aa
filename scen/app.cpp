// X01, X02: an application made of all components at once, configured by a file that changes while they run, and taken down in any order.
#include "quiet_logger.hpp"

#include "fly/coders/coder_config.hpp"
#include "fly/coders/huffman/huffman_decoder.hpp"
#include "fly/coders/huffman/huffman_encoder.hpp"
#include "fly/config/config_manager.hpp"
#include "fly/net/endpoint.hpp"
#include "fly/net/ipv4_address.hpp"
#include "fly/net/network_config.hpp"
#include "fly/net/socket/socket_service.hpp"
#include "fly/net/socket/tcp_socket.hpp"
#include "fly/net/socket/listen_socket.hpp"
#include "fly/net/socket/udp_socket.hpp"
#include "fly/path/path_config.hpp"
#include "fly/path/path_monitor.hpp"
#include "fly/system/system_config.hpp"
#include "fly/system/system_monitor.hpp"
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"

#include <algorithm>
#include <atomic>
#include <cmath>
#include <deque>
#include <dirent.h>
#include <fcntl.h>
#include <optional>
#include <sys/stat.h>
#include <unistd.h>

using namespace sim;
using namespace fly::config;
using fly::coders::CoderConfig;
using fly::logger::Logger;
using fly::logger::LoggerConfig;
using fly::net::NetworkConfig;
using fly::net::SocketService;
using fly::path::PathConfig;
using fly::path::PathEvent;
using fly::path::PathMonitor;
using fly::system::SystemConfig;
using fly::system::SystemMonitor;
using fly::task::ParallelTaskRunner;
using fly::task::SequencedTaskRunner;
using fly::task::TaskManager;
using EP = fly::net::Endpoint<fly::net::IPv4Address>;
using Udp = fly::net::UdpSocket<EP>;

extern "C" int sim_inotify_open(void);

namespace {

enum Key { MaxMessage, MaxFile, Compress, PathPoll, SysPoll, Packet, IoWait, Chunk, MaxCode, NumKeys };
struct KeyInfo { char const *section, *name; std::int64_t def; std::vector<std::int64_t> choices; };
KeyInfo const keys[] = {
    {"logger", "max_message_size", 256, {16, 64, 100, 300, 5000}},
    {"logger", "max_log_file_size", 20 << 20, {150, 1000, 5000, 1000000}},
    {"logger", "compress_log_files", 1, {0, 1}},
    {"path", "poll_interval", 1000, {10, 50, 200}},
    {"system", "poll_interval", 1000, {10, 50, 200}},
    {"network", "packet_size", 4096, {50, 100, 1000, 20000}},
    {"network", "socket_io_wait_time", 10000, {5000, 30000, 100000}},
    {"coder", "encoder_chunk_size_kb", 256, {1, 4, 16}},
    {"coder", "encoder_max_code_length", 11, {8, 11, 15}}};

struct Settings
{
    std::optional<std::int64_t> v[NumKeys];
    bool there = true; // the file exists
    std::int64_t get(Key k) const { return there && v[k] ? *v[k] : keys[k].def; }
};

struct Sent { std::string text; int done = 0; std::size_t bytes = 0; };
struct LogRec { std::size_t size = 0; int seen = 0; bool returned = false; };
struct Job { int task = 0, reply = 0; bool posted = false; };

struct World
{
    bool json = true;
    int workers = 1;
    std::deque<Settings> published; // everything the file ever was; the first: nothing
    Settings now;
    std::deque<LogRec> logs;
    std::deque<Sent> sent;
    std::deque<Job> jobs;
    std::map<std::string, int> created; // events seen
    std::size_t received = 0, largest = 0, sends = 0;
    char mark = 'a'; // the content of datagrams
    int metrics = 0;
    std::uint64_t memory = 0, counters = 1000;
    int files = 0;
    bool stopped = false; // the task manager was stopped
    bool down = false;    // being taken down
};
World *W;

std::string const cfg_dir = "r/cfg", cfg_file = "r/cfg/settings", files_dir = "r/files", log_dir = "r/logs", sys_dir = "r/sys";

std::string render(Settings const &s, bool json)
{
    std::string t = json ? "{" : "";
    bool first = true;
    for (char const *section : {"logger", "path", "system", "network", "coder"})
    {
        std::string body;
        for (int k = 0; k < NumKeys; ++k)
        {
            if (std::strcmp(keys[k].section, section) != 0 || !s.v[k]) continue;
            std::string const value = k == Compress ? (*s.v[k] ? "true" : "false") : std::to_string(*s.v[k]);
            if (json) body += std::string(body.empty() ? "" : ", ") + "\"" + keys[k].name + "\" : " + value;
            else body += std::string(keys[k].name) + " = " + value + "\n";
        }
        if (json) t += std::string(first ? "\n" : ",\n") + " \"" + section + "\" : {" + body + "}";
        else t += std::string("[") + section + "]\n" + body;
        first = false;
    }
    return t + (json ? "\n}\n" : "");
}

void put(std::string const &path, std::string const &text, bool replace)
{
    sim_fs_exempt_begin();
    std::string const to = replace ? path + ".new" : path;
    int const fd = ::open(to.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd < 0 || ::write(fd, text.data(), text.size()) != static_cast<ssize_t>(text.size())) sim_fail("sim:workload", "cannot write %s", to.c_str());
    ::close(fd);
    if (replace && ::rename(to.c_str(), path.c_str()) != 0) sim_fail("sim:workload", "cannot rename %s", to.c_str());
    sim_fs_exempt_end();
}

void publish(Settings const &s)
{
    std::string text;
    {
        Ignore ig;
        W->published.push_back(s);
        text = render(s, W->json);
        sim_note("configuration: %s", s.there ? text.c_str() : "removed");
    }
    if (s.there) put(cfg_file, text, true);
    else ::unlink(cfg_file.c_str());
    Ignore ig;
    W->now = s;
}

// A value of the key in any state of the file so far.
bool ever(Key k, std::int64_t value)
{
    for (Settings const &s : W->published)
        if (s.get(k) == value) return true;
    return false;
}
std::int64_t most(Key k)
{
    std::int64_t m = 0;
    for (Settings const &s : W->published) m = std::max(m, s.get(k));
    return m;
}

void publish_system()
{
    std::string stat, status;
    {
        Ignore ig;
        ++W->metrics;
        W->counters += 1000;
        W->memory = 1000003UL * 4096 * static_cast<std::uint64_t>(W->metrics + 1);
        char b[300];
        std::snprintf(b, sizeof b, "cpu  %lu 0 0 %lu 0 0 0 0 0 0\ncpu0 0 0 0 0 0 0 0 0 0 0\ncpu1 0 0 0 0 0 0 0 0 0 0\nintr 1\n", (unsigned long)W->counters, (unsigned long)W->counters * 3);
        stat = b;
        std::snprintf(b, sizeof b, "Name:\tsim\nVmRSS:\t %d kB\n", 1000 + W->metrics);
        status = b;
        sim_set_sysinfo(W->memory, 4096, 0);
    }
    put(sys_dir + "/stat", stat, true);
    put(sys_dir + "/status", status, true);
}

struct RecSink : fly::logger::Sink
{
    bool async;
    explicit RecSink(bool a) : async(a) {}
    bool initialize() override { return true; }
    bool stream(fly::logger::Log &&log) override
    {
        Ignore ig;
        if (async && W->stopped) sim_fail("oracle:after-stop", "a record reached the sink of an asynchronous logger after the task manager was stopped");
        if (log.m_trace.m_file != "app.cpp") return true; // the library's own
        std::size_t const id = log.m_trace.m_line;
        LogRec &r = W->logs.at(id);
        sim_note("record %zu: %zu bytes", id, log.m_message.size());
        if (++r.seen != 1) sim_fail("oracle:log-twice", "log record %zu reached the sink twice", id);
        if (log.m_message.size() != r.size && (log.m_message.size() > r.size || !ever(MaxMessage, static_cast<std::int64_t>(log.m_message.size()))))
            sim_fail("oracle:log-size", "a message of %zu bytes was recorded with %zu bytes, which was never the limit", r.size, log.m_message.size());
        r.returned = true;
        last = log.m_message.size();
        return true;
    }
    static inline std::size_t last = 0;
};

struct App
{
    std::shared_ptr<TaskManager> manager;
    std::shared_ptr<SequencedTaskRunner> runner, net_runner, log_runner;
    std::shared_ptr<ParallelTaskRunner> parallel;
    std::shared_ptr<ConfigManager> configs;
    std::shared_ptr<LoggerConfig> logger_config;
    std::shared_ptr<CoderConfig> coder_config;
    std::shared_ptr<PathConfig> path_config;
    std::shared_ptr<SystemConfig> system_config;
    std::shared_ptr<NetworkConfig> network_config;
    std::shared_ptr<Logger> logger, file_logger;
    std::shared_ptr<PathMonitor> paths;
    std::shared_ptr<SystemMonitor> system;
    std::shared_ptr<SocketService> sockets;
    std::shared_ptr<Udp> a, b;
    bool async_log = false;
};

// ---- what the application does ------------------------------------------------------------------
void write_log(App const &app, std::size_t size)
{
    std::size_t id;
    {
        Ignore ig;
        id = W->logs.size();
        W->logs.emplace_back();
        W->logs.back().size = size;
    }
    app.logger->info({"app.cpp", "write_log", static_cast<std::uint32_t>(id)}, "{}", std::string(size, 'm'));
}

void write_file_log(App const &app, int n)
{
    for (int i = 0; i < n; ++i) app.file_logger->warn({"app.cpp", "write_file_log", static_cast<std::uint32_t>(i)}, "{}", std::string(90, 'f'));
}

std::string new_file()
{
    std::string name;
    {
        Ignore ig;
        name = "file" + std::to_string(W->files++);
        W->created[name] = 0;
    }
    int const fd = ::open((files_dir + "/" + name).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd < 0) sim_fail("sim:workload", "cannot create %s", name.c_str());
    ::close(fd);
    return name;
}

void receive_next(std::weak_ptr<Udp> const &weak)
{
    auto const s = weak.lock();
    if (!s) return;
    s->receive_async([weak](std::string data) {
        bool again;
        {
            Ignore ig;
            if (W->stopped) sim_fail("oracle:after-stop", "a receive completed after the task manager was stopped");
            sim_note("received %zu bytes", data.size());
            if (!data.empty() && data[0] == W->mark)
            {
                W->received += data.size();
                W->largest = std::max(W->largest, data.size());
            }
            for (char c : data)
                if (c != data[0] || c < 'a' || c > W->mark) sim_fail("oracle:datagram", "a datagram was received with other content than sent");
            if (static_cast<std::int64_t>(data.size()) > most(Packet)) sim_fail("oracle:packet-size", "%zu bytes were received at once: the packet size was never above %ld", data.size(), (long)most(Packet));
            again = !data.empty();
        }
        if (again) receive_next(weak);
    });
}

void send(App const &app, std::size_t size)
{
    std::weak_ptr<Udp> const weak = app.a;
    {
        Ignore ig;
        ++W->sends;
    }
    app.net_runner->post_task(FROM_HERE, [weak, size]() {
        auto const s = weak.lock();
        if (!s) return;
        Sent *m;
        {
            Ignore ig;
            m = &W->sent.emplace_back();
            m->text.assign(size, W->mark);
        }
        bool const ok = s->send_async(EP(fly::net::IPv4Address::in_addr_loopback(), 6001), std::string_view(m->text), [m](std::size_t bytes) {
            Ignore ig;
            if (++m->done != 1) sim_fail("oracle:send-twice", "a send completed twice");
            m->bytes = bytes;
            if (bytes != m->text.size()) sim_fail("oracle:send-size", "a send of %zu bytes completed with %zu bytes", m->text.size(), bytes);
        });
        Ignore ig;
        if (!ok && !W->down) sim_fail("oracle:send", "a send was refused by an open socket");
    });
}

void post_job(App const &app, std::uint64_t kind, std::uint64_t value)
{
    Job *j;
    {
        Ignore ig;
        j = &W->jobs.emplace_back();
    }
    auto task = [j, value, coder = app.coder_config]() -> std::uint64_t {
        {
            Ignore ig;
            if (W->stopped) sim_fail("oracle:after-stop", "a task started after the task manager was stopped");
            if (++j->task != 1) sim_fail("oracle:task-twice", "a task was executed twice");
        }
        if (value % 3 == 0 && coder)
        {
            std::string in(20 + value % 300, 'x'), enc, dec;
            for (std::size_t i = 0; i < in.size(); ++i) in[i] = static_cast<char>('a' + (i * value) % 23);
            fly::coders::HuffmanEncoder encoder(coder);
            fly::coders::HuffmanDecoder decoder;
            if (!encoder.encode_string(in, enc) || !decoder.decode_string(enc, dec) || dec != in) sim_fail("oracle:coder", "a string was not restored by the coder");
        }
        return value;
    };
    auto reply = [j, value](std::uint64_t got) {
        Ignore ig;
        if (++j->reply != 1 || got != value) sim_fail("oracle:reply", "a reply was executed %d times, with %lu instead of %lu", j->reply, (unsigned long)got, (unsigned long)value);
    };
    bool ok = false;
    switch (kind % 4)
    {
        case 0: ok = app.parallel->post_task_with_reply(FROM_HERE, std::move(task), std::move(reply)); break;
        case 1: ok = app.runner->post_task_with_reply(FROM_HERE, std::move(task), std::move(reply)); break;
        case 2: ok = app.parallel->post_task_with_delay_and_reply(FROM_HERE, std::chrono::milliseconds(value % 40), std::move(task), std::move(reply)); break;
        default: ok = app.log_runner->post_task_with_reply(FROM_HERE, std::move(task), std::move(reply)); break;
    }
    Ignore ig;
    j->posted = ok;
}

void read_metrics(App const &app)
{
    double const u = app.system->get_system_cpu_usage(), p = app.system->get_process_cpu_usage();
    auto const total = app.system->get_total_system_memory();
    Ignore ig;
    if (!(u >= 0 && u <= 100) || !(p >= 0 && p <= 100)) sim_fail("oracle:usage", "CPU usage %g, %g percent", u, p);
    if (total % (1000003UL * 4096) != 0) sim_fail("oracle:memory", "the total memory is %lu, which the system never had", (unsigned long)total);
}

struct Op { int kind; std::uint64_t a; std::int64_t pause; };
enum { OpLog, OpFileLog, OpFile, OpSend, OpJob, OpMetrics, OpWatch, NumOps };
char const *const op_names[] = {"log", "log to files", "create a file", "send a datagram", "post a task", "read the metrics", "watch another directory"};

void perform(App const &app, Op const &op)
{
    switch (op.kind)
    {
        case OpLog: write_log(app, 10 + op.a % 700); break;
        case OpFileLog: write_file_log(app, 1 + static_cast<int>(op.a % 5)); break;
        case OpFile: new_file(); break;
        case OpSend: send(app, 1 + op.a % 3000); break;
        case OpJob: post_job(app, op.a, op.a / 4); break;
        case OpMetrics: read_metrics(app); break;
        default:
            app.paths->add_path(sys_dir, [](std::filesystem::path const &, PathEvent) {});
            app.paths->remove_path(sys_dir);
            break;
    }
}

// ---- construction and release -------------------------------------------------------------------
App build(int workers, bool async_log, bool app_default, int generation)
{
    App app;
    app.async_log = async_log;
    app.manager = TaskManager::create(static_cast<std::uint32_t>(workers));
    if (!app.manager) sim_fail("oracle:create", "the task manager was not created");
    app.runner = SequencedTaskRunner::create(app.manager);
    app.net_runner = SequencedTaskRunner::create(app.manager);
    app.log_runner = SequencedTaskRunner::create(app.manager);
    app.parallel = ParallelTaskRunner::create(app.manager);
    if (app_default) // before anything logs
    {
        auto const config = std::make_shared<LoggerConfig>();
        auto const logger = async_log ? Logger::create("default", SequencedTaskRunner::create(app.manager), config, std::make_unique<RecSink>(true)) : Logger::create("default", config, std::make_unique<RecSink>(false));
        if (!logger) sim_fail("oracle:create", "a logger was not created (start %d of the application)", generation);
        Logger::set_default_logger(logger);
    }
    app.configs = ConfigManager::create(app.runner, W->json ? ConfigFileType::Json : ConfigFileType::Ini, cfg_file);
    if (!app.configs) sim_fail("oracle:create", "the configuration manager was not created");
    app.logger_config = app.configs->create_config<LoggerConfig>();
    app.coder_config = app.configs->create_config<CoderConfig>();
    app.path_config = app.configs->create_config<PathConfig>();
    app.system_config = app.configs->create_config<SystemConfig>();
    app.network_config = app.configs->create_config<NetworkConfig>();
    if (!app.logger_config || !app.coder_config || !app.path_config || !app.system_config || !app.network_config) sim_fail("oracle:create", "a configuration was not created");
    app.logger = async_log ? Logger::create("app", app.log_runner, app.logger_config, std::make_unique<RecSink>(true)) : Logger::create("app", app.logger_config, std::make_unique<RecSink>(false));
    app.file_logger = async_log ? fly::logger::create_file_logger("files", app.log_runner, app.logger_config, app.coder_config, log_dir) : fly::logger::create_file_logger("files", app.logger_config, app.coder_config, log_dir);
    if (!app.logger || !app.file_logger) sim_fail("oracle:create", "a logger was not created (start %d of the application)", generation);
    app.paths = PathMonitor::create(app.runner, app.path_config);
    if (!app.paths) sim_fail("oracle:create", "the path monitor was not created");
    bool const ok = app.paths->add_path(files_dir, [](std::filesystem::path const &path, PathEvent e) {
        Ignore ig;
        if (W->stopped) sim_fail("oracle:after-stop", "a path event was told after the task manager was stopped");
        auto it = W->created.find(path.filename().string());
        if (it == W->created.end()) sim_fail("oracle:path", "an event for '%s', which was never there", path.c_str());
        if (e == PathEvent::Created) ++it->second;
    });
    if (!ok) sim_fail("oracle:create", "a directory could not be watched");
    app.system = SystemMonitor::create(app.parallel ? app.runner : app.runner, app.system_config);
    if (!app.system) sim_fail("oracle:create", "the system monitor was not created");
    app.sockets = SocketService::create(app.net_runner, app.network_config);
    app.a = app.sockets->create_socket<Udp>();
    app.b = app.sockets->create_socket<Udp>();
    if (!app.a || !app.b || !app.b->bind(EP(fly::net::IPv4Address::in_addr_loopback(), 6001), fly::net::BindMode::AllowReuse)) sim_fail("oracle:create", "a socket was not created or bound");
    std::weak_ptr<Udp> const weak = app.b;
    app.net_runner->post_task(FROM_HERE, [weak]() { receive_next(weak); });
    return app;
}

enum Part { PConfigs, PLoggerConfig, PCoderConfig, PPathConfig, PSystemConfig, PNetworkConfig, PLogger, PFileLogger, PPaths, PSystem, PSockets, PA, PB, PRunner, PNetRunner, PLogRunner, PParallel, PStop, PManager, NumParts };
char const *const part_names[] = {"configuration manager", "logger configuration", "coder configuration", "path configuration", "system configuration", "network configuration", "logger", "file logger", "path monitor",
                                  "system monitor", "socket service", "sending socket", "receiving socket", "task runner", "network task runner", "log task runner", "parallel task runner", "stop", "task manager"};

// What must be gone in the end.
struct Watch
{
    std::vector<std::pair<char const *, std::weak_ptr<void>>> list;
    explicit Watch(App const &a)
    {
        list = {{"configuration manager", a.configs}, {"logger configuration", a.logger_config}, {"path configuration", a.path_config}, {"system configuration", a.system_config}, {"network configuration", a.network_config},
                {"logger", a.logger}, {"file logger", a.file_logger}, {"path monitor", a.paths}, {"system monitor", a.system}, {"socket service", a.sockets}, {"sending socket", a.a}, {"receiving socket", a.b},
                {"task runner", a.runner}, {"network task runner", a.net_runner}, {"log task runner", a.log_runner}, {"parallel task runner", a.parallel}, {"task manager", a.manager}};
    }
};

void release(App &app, int part, std::shared_ptr<TaskManager> &manager)
{
    sim_note("release: %s", part_names[part]);
    switch (part)
    {
        case PConfigs: app.configs.reset(); break;
        case PLoggerConfig: app.logger_config.reset(); break;
        case PCoderConfig: app.coder_config.reset(); break;
        case PPathConfig: app.path_config.reset(); break;
        case PSystemConfig: app.system_config.reset(); break;
        case PNetworkConfig: app.network_config.reset(); break;
        case PLogger: app.logger.reset(); break;
        case PFileLogger: app.file_logger.reset(); break;
        case PPaths: app.paths.reset(); break;
        case PSystem: app.system.reset(); break;
        case PSockets: app.sockets.reset(); break;
        case PA: app.a.reset(); break;
        case PB: app.b.reset(); break;
        case PRunner: app.runner.reset(); break;
        case PNetRunner: app.net_runner.reset(); break;
        case PLogRunner: app.log_runner.reset(); break;
        case PParallel: app.parallel.reset(); break;
        case PStop:
        {
            if (!manager) break;
            manager->stop();
            Ignore ig;
            W->stopped = true;
            break;
        }
        default: app.manager.reset(); break;
    }
}

std::set<std::string> log_files()
{
    std::set<std::string> names;
    Ignore ig;
    if (DIR *d = ::opendir(log_dir.c_str()))
    {
        while (dirent *e = ::readdir(d))
            if (e->d_name[0] != '.') names.insert(e->d_name);
        ::closedir(d);
    }
    return names;
}

enum { P_Config, P_Removed, P_Rotated, P_Truncated, P_Split, P_Stopped, P_Busy, P_Coder, P_IoWait };

struct Plan
{
    std::vector<std::vector<Op>> threads;
    std::vector<std::pair<Settings, std::int64_t>> writer;
};

Settings draw_settings(bool ini)
{
    Settings s;
    for (int k = 0; k < NumKeys; ++k)
        if (!coin(30) && !(ini && k == Compress)) s.v[k] = keys[k].choices[R(0, keys[k].choices.size() - 1)];
    return s;
}

// One run of a worker thread of the application. (Not inlined: the stacks are small.)
[[gnu::noinline]] void user(App const &app, std::vector<Op> const &ops)
{
    for (Op const &op : ops)
    {
        if (op.pause) sim_sleep_ns(op.pause);
        perform(app, op);
    }
}

// With one worker thread, whatever goes on waits for the polls of two path monitors and of the socket service, several times.
std::int64_t hop_time(std::int64_t path, std::int64_t io) { return 2 * path * ms + io * 1000; }
std::int64_t settle_time(std::int64_t path, std::int64_t io) { return 6 * hop_time(path, io) + 200 * ms; }

// After the settings changed and time passed, every component goes by them. (Nothing else is going on.)
[[gnu::noinline]] void check_settings(App const &app, int phase)
{
    Settings now;
    {
        Ignore ig;
        now = W->now;
    }
    std::int64_t const cycle = settle_time(now.get(PathPoll), now.get(IoWait));
    // the configuration objects
    auto value = [&](Key k, std::int64_t got) {
        if (got != now.get(k)) sim_fail("oracle:config-value", "phase %d: %s.%s is %ld, the file says %ld", phase, keys[k].section, keys[k].name, (long)got, (long)now.get(k));
    };
    value(MaxMessage, app.logger_config->max_message_size());
    value(MaxFile, static_cast<std::int64_t>(app.logger_config->max_log_file_size()));
    value(Compress, app.logger_config->compress_log_files());
    value(PathPoll, app.path_config->poll_interval().count());
    value(SysPoll, app.system_config->poll_interval().count());
    value(Packet, static_cast<std::int64_t>(app.network_config->packet_size()));
    value(IoWait, app.network_config->socket_io_wait_time().count());
    value(Chunk, app.coder_config->huffman_encoder_chunk_size() >> 10);
    value(MaxCode, app.coder_config->huffman_encoder_max_code_length());

    // the logger
    write_log(app, 800);
    if (!wait_until([] { return W->logs.back().seen == 1; }, cycle)) sim_fail("oracle:log-lost", "a record did not reach the sink within %ld ms", (long)(cycle / ms));
    {
        Ignore ig;
        std::size_t const limit = static_cast<std::size_t>(std::min<std::int64_t>(800, now.get(MaxMessage)));
        if (RecSink::last != limit) sim_fail("oracle:log-limit", "phase %d: a message of 800 bytes was recorded with %zu bytes, the limit is %zu", phase, RecSink::last, limit);
        if (limit < 800) sim_probe(P_Truncated);
    }
    // the files of the file logger
    auto const before = log_files();
    bool const small = now.get(MaxFile) <= 1000 && now.get(MaxMessage) >= 64;
    write_file_log(app, 14);
    post_job(app, 3, 1); // after them, if they are written asynchronously
    std::int64_t const written = cycle + 30 * hop_time(now.get(PathPoll), now.get(IoWait));
    if (!wait_until([] { return W->jobs.back().reply == 1; }, written)) sim_fail("oracle:task-late", "phase %d: a task behind 14 log records was not executed within %ld ms", phase, (long)(written / ms));
    if (small)
    {
        if (log_files() == before)
            sim_fail("oracle:log-rotation", "phase %d: 14 records were written, and no new log file was started with a limit of %ld bytes", phase, (long)now.get(MaxFile));
        sim_probe(P_Rotated);
    }
    else if (now.get(MaxFile) >= 1000000 && log_files() != before) sim_fail("oracle:log-rotation", "phase %d: a new log file was started although the limit is %ld bytes", phase, (long)now.get(MaxFile));
    if (small)
    {
        // files that were replaced meanwhile are compressed, or are not
        for (std::string const &name : log_files())
        {
            bool const encoded = name.ends_with(".enc");
            if (before.count(name)) continue;
            if (encoded)
            {
                // version, chunk size and length limit follow the first byte
                unsigned char head[5] = {};
                sim_fs_exempt_begin();
                int const fd = ::open((log_dir + "/" + name).c_str(), O_RDONLY);
                bool const read = fd >= 0 && ::read(fd, head, sizeof head) == sizeof head;
                if (fd >= 0) ::close(fd);
                sim_fs_exempt_end();
                if (read && (head[2] << 8 | head[3]) != now.get(Chunk)) sim_fail("oracle:log-coder", "phase %d: '%s' was compressed in chunks of %d kb, the configuration says %ld", phase, name.c_str(), head[2] << 8 | head[3], (long)now.get(Chunk));
                if (read && head[4] != now.get(MaxCode)) sim_fail("oracle:log-coder", "phase %d: '%s' was compressed with codes of %d bits, the configuration says %ld", phase, name.c_str(), head[4], (long)now.get(MaxCode));
                if (read) sim_probe(P_Coder);
            }
            if (encoded && !now.get(Compress)) sim_fail("oracle:log-compression", "phase %d: '%s' was compressed, although compression is off", phase, name.c_str());
        }
    }
    // the path monitor
    std::string const name = new_file();
    if (!wait_until([&] { return W->created[name] != 0; }, cycle)) sim_fail("oracle:path-late", "phase %d: the event of a new file was not told within %ld ms", phase, (long)(cycle / ms));
    // the system monitor
    publish_system();
    std::int64_t const sample = cycle + now.get(SysPoll) * 2 * ms;
    bool fresh = false;
    for (std::int64_t const end = sim_now() + sample; !fresh && sim_now() < end; sim_sleep_ns(ms))
        fresh = app.system->get_total_system_memory() == W->memory;
    if (!fresh) sim_fail("oracle:system-late", "phase %d: the metrics are those of %ld ms ago, the poll interval is %ld ms", phase, (long)(sample / ms), (long)now.get(SysPoll));
    // the sockets
    std::uint64_t const receiver = sim_net_id(static_cast<int>(app.b->handle()));
    if (!wait_until([&] { return sim_net_info(receiver, SN_DELIVERED) == sim_net_info(receiver, SN_RECEIVED) && W->sent.size() == W->sends && (W->sent.empty() || W->sent.back().done); }, 600 * sec, 20 * ms)) sim_fail("oracle:datagram-late", "datagrams are not read");
    {
        Ignore ig;
        W->largest = W->received = 0;
        ++W->mark;
    }
    send(app, 2500);
    std::int64_t const transfer = cycle + 2 * (2500 / now.get(Packet)) * hop_time(now.get(PathPoll), now.get(IoWait));
    if (!wait_until([] { return W->received == 2500; }, transfer)) sim_fail("oracle:datagram-lost", "phase %d: of 2500 bytes, %zu were received within %ld ms", phase, W->received, (long)(transfer / ms));
    {
        Ignore ig;
        std::size_t const piece = static_cast<std::size_t>(std::min<std::int64_t>(2500, now.get(Packet)));
        if (W->largest != piece) sim_fail("oracle:packet-size", "phase %d: 2500 bytes were received in pieces of %zu bytes, the packet size is %ld", phase, W->largest, (long)now.get(Packet));
        if (piece < 2500) sim_probe(P_Split);
    }
    // A socket waits for data all the time: the service waits for it that long at a time. (Nothing else needs a worker for long.)
    if (W->workers >= 4)
    {
        std::int64_t const io = now.get(IoWait) * 1000;
        std::int64_t const expected = 20;
        sim_sleep_ns(io);
        std::uint64_t const before = sim_net_selects();
        sim_sleep_ns(expected * io);
        std::int64_t const selects = static_cast<std::int64_t>(sim_net_selects() - before);
        if (selects < expected / 3 || selects > expected * 3)
            sim_fail("oracle:io-wait", "phase %d: in %ld us the sockets were polled %ld times, socket_io_wait_time is %ld us", phase, (long)(expected * io / 1000), (long)selects, (long)(io / 1000));
        sim_probe(P_IoWait);
    }
    // tasks
    post_job(app, 0, 3);
    if (!wait_until([] { return W->jobs.back().reply == 1; }, cycle)) sim_fail("oracle:task-late", "phase %d: a task and its reply were not executed within %ld ms", phase, (long)(cycle / ms));
}

// Everything the application asked for happened, once.
void everything_done()
{
    Ignore ig;
    for (std::size_t i = 0; i < W->logs.size(); ++i)
        if (W->logs[i].seen != 1) sim_fail("oracle:log-lost", "log record %zu reached the sink %d times", i, W->logs[i].seen);
    for (Job const &j : W->jobs)
        if (j.posted && (j.task != 1 || j.reply != 1)) sim_fail("oracle:task-lost", "a task was executed %d times, its reply %d times", j.task, j.reply);
    for (auto const &[name, n] : W->created)
        if (n != 1) sim_fail("oracle:path-lost", "the creation of '%s' was told %d times", name.c_str(), n);
    for (Sent const &s : W->sent)
        if (s.done != 1) sim_fail("oracle:send-lost", "a send completed %d times", s.done);
}
bool backlog_gone()
{
    for (LogRec const &r : W->logs)
        if (!r.seen) return false;
    for (Job const &j : W->jobs)
        if (j.posted && !j.reply) return false;
    for (auto const &[name, n] : W->created)
        if (!n) return false;
    for (Sent const &s : W->sent)
        if (!s.done) return false;
    return W->sent.size() == W->sends;
}

void run_app(bool shutdown)
{
    W = new World;
    sim_time_budget(3000 * sec);
    quiet_default_logger();
    for (std::string const &d : {std::string("r"), cfg_dir, files_dir, log_dir, sys_dir}) ::mkdir(d.c_str(), 0755);
    sim_fs_redirect("/proc/stat", "r/sys/stat");
    sim_fs_redirect("/proc/self/status", "r/sys/status");
    int const rate = coin(50) ? 0 : static_cast<int>(R(20, 1500));
    for (int kind : {SF_EINTR, SF_READ_SHORT, SF_POLL_DELAY, SF_EVENT_SPLIT, SF_READ_EAGAIN, SF_NET_DELAY, SF_NET_AGAIN, SF_SELECT_SPUR}) sim_fault_rate(kind, rate);
    sim_fs_prefix("r/");
    sim_faults_enable(1);
    sim_net_params(static_cast<std::int64_t>(R(0, 3)) * ms / 2, 1500, 200000);
    publish_system();
    W->json = sim_param("json", 0, 2) != 0;
    int const generations = shutdown ? static_cast<int>(sim_param("starts", 1, 2)) : 1;
    int const nthreads = static_cast<int>(sim_param("threads", 1, 3));
    int const workers = W->workers = static_cast<int>(sim_param("workers", 1, 4));
    bool const async_log = coin(60), app_default = coin(40);
    {
        Settings none;
        none.there = false;
        W->published.push_back(none);
        W->now = none;
    }
    int const threads0 = sim_threads_alive(), inotify0 = sim_inotify_open();

    for (int g = 0; g < generations; ++g)
    {
        Plan plan;
        plan.threads.resize(static_cast<std::size_t>(nthreads));
        int const total = amount("ops", 2, shutdown ? 16 : 12, 80);
        for (int i = 0; i < total; ++i)
        {
            std::size_t const t = R(0, static_cast<std::uint64_t>(nthreads - 1));
            Op op {static_cast<int>(R(0, NumOps - 1)), R(0, 1 << 20), coin(40) ? 0 : static_cast<std::int64_t>(R(0, 60)) * ms / 2};
            if (sim_op("start %d, thread %zu: %s %lu (after %ld us)", g, t, op_names[op.kind], (unsigned long)op.a, (long)(op.pause / 1000))) plan.threads[t].push_back(op);
        }
        for (std::uint64_t i = 0, n = R(0, shutdown ? 2 : 5); i < n; ++i)
        {
            Settings s = draw_settings(!W->json);
            s.there = !coin(15);
            std::int64_t const pause = coin(40) ? static_cast<std::int64_t>(R(0, 1500)) * ms : static_cast<std::int64_t>(R(0, 20)) * ms;
            if (sim_op("start %d: %s the configuration (after %ld ms)", g, s.there ? "replace" : "remove", (long)(pause / ms))) plan.writer.emplace_back(s, pause);
        }
        std::vector<Settings> phases;
        for (std::uint64_t i = 0, n = shutdown ? R(0, 1) : R(1, 3); i < n; ++i)
        {
            Settings s = draw_settings(!W->json);
            s.there = !coin(10);
            phases.push_back(s);
        }
        std::vector<int> order;
        for (int i = 0; i < NumParts; ++i) order.push_back(i);
        for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[R(0, i - 1)]);
        bool const stop_first = coin(30), join_first = !shutdown || coin(40);
        std::int64_t const lifetime = static_cast<std::int64_t>(R(0, shutdown ? 300 : 0)) * ms;
        std::vector<std::int64_t> gaps;
        for (int i = 0; i < NumParts; ++i) gaps.push_back(coin(70) ? 0 : static_cast<std::int64_t>(R(0, 40)) * ms / 2);

        App app = build(workers, async_log, app_default, g);
        Watch const watch(app);
        std::shared_ptr<TaskManager> manager = app.manager; // whoever started it stops it

        Threads threads;
        for (auto const &ops : plan.threads)
            threads.start([app, &ops]() mutable {
                user(app, ops);
                app = App();
            });
        threads.start([&plan] {
            for (auto const &[s, pause] : plan.writer)
            {
                sim_sleep_ns(pause);
                publish(s);
            }
        });
        if (join_first) threads.join();
        else sim_sleep_ns(lifetime);

        if (!shutdown || (join_first && !phases.empty()))
        {
            threads.join();
            sim_drain();
            post_job(app, 3, 1); // after the records
            if (!wait_until(backlog_gone, 900 * sec, 20 * ms)) everything_done();
            for (std::size_t i = 0; i < phases.size(); ++i)
            {
                std::int64_t slowest;
                {
                    Ignore ig;
                    slowest = most(PathPoll);
                }
                publish(phases[i]);
                if (!phases[i].there) sim_probe(P_Removed);
                sim_probe(P_Config);
                sim_sleep_ns(settle_time(std::max(slowest, phases[i].get(PathPoll)), 100000));
                check_settings(app, static_cast<int>(i));
            }
            everything_done();
        }

        // Taking it down, in any order.
        if (!join_first) sim_probe(P_Busy);
        {
            Ignore ig;
            W->down = true;
        }
        if (stop_first) std::iter_swap(order.begin(), std::find(order.begin(), order.end(), static_cast<int>(PStop)));
        if (order.front() == PStop) sim_probe(P_Stopped);
        for (std::size_t i = 0; i < order.size(); ++i)
        {
            if (gaps[i]) sim_sleep_ns(gaps[i]);
            release(app, order[i], manager);
        }
        threads.join();
        manager.reset();
        if (app_default) quiet_default_logger(("_quiet" + std::to_string(g)).c_str());
        for (auto const &[name, weak] : watch.list)
        {
            bool gone;
            {
                Ignore ig;
                gone = weak.expired();
            }
            if (!gone) sim_fail("oracle:not-released", "the %s is still there although nothing refers to it and the task manager was stopped", name);
        }
        if (sim_net_open_fds() != 0) sim_fail("oracle:descriptor-leak", "%d socket(s) left open by an application that ended", sim_net_open_fds());
        if (sim_inotify_open() != inotify0) sim_fail("oracle:descriptor-leak", "a path monitor left its descriptor open");
        if (sim_threads_alive() != threads0) sim_fail("oracle:thread-leak", "%d thread(s) left by an application that ended", sim_threads_alive() - threads0);
        {
            Ignore ig;
            sim_hash(W->received), sim_hash(W->logs.size());
            W->stopped = W->down = false;
            W->sent.clear(), W->jobs.clear(), W->logs.clear(), W->created.clear();
            W->received = W->largest = W->sends = 0;
            W->mark = 'a';
            Settings const now = W->now; // a configuration written before the start is not loaded
            W->published.clear();
            W->published.push_back(now);
            Settings none;
            none.there = false;
            W->published.push_back(none);
        }
    }
    sim_stop();
}

} // namespace

#define APP_PROBES "configuration_took_effect", "configuration_removed", "log_file_rotated", "message_truncated", "datagram_split", "stopped_before_any_release", "taken_down_in_use", "coder_settings_followed", "io_wait_time_followed"
SIM_SCENARIO(app_configure, 1, APP_PROBES) { run_app(false); }
SIM_SCENARIO(app_shutdown, 1, APP_PROBES) { run_app(true); }
