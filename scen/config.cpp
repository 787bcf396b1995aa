// G01, G02: configuration manager; R01: parsing files.
#include "quiet_logger.hpp"

#include "fly/config/config.hpp"
#include "fly/config/config_manager.hpp"
#include "fly/parser/ini_parser.hpp"
#include "fly/parser/json_parser.hpp"
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"
#include "fly/types/json/json.hpp"

#include <algorithm>
#include <array>
#include <atomic>
#include <fcntl.h>
#include <filesystem>
#include <optional>
#include <sys/stat.h>
#include <unistd.h>

using namespace sim;
using namespace fly::config;
using fly::task::SequencedTaskRunner;
using fly::task::TaskManager;

extern "C" int sim_inotify_open(void);

namespace {

struct Alpha : Config
{
    static constexpr char const *identifier = "alpha";
    int n() const { return get_value<int>("n", -1); }
    std::string s() const { return get_value<std::string>("s", "default"); }
    double f(double def) const { return get_value<double>("f", def); }
    bool b(bool def) const { return get_value<bool>("b", def); }
};
struct Beta : Config
{
    static constexpr char const *identifier = "beta";
    int n() const { return get_value<int>("n", -1); }
    std::string s() const { return get_value<std::string>("s", "default"); }
    double f(double def) const { return get_value<double>("f", def); }
    bool b(bool def) const { return get_value<bool>("b", def); }
};
struct Impostor : Config // uses the name of another configuration
{
    static constexpr char const *identifier = "alpha";
};

// One content of the configuration file.
struct Version
{
    bool valid = true;   // parses
    bool exists = true;
    bool has[2] = {true, true};        // the sections
    int n_state[2] = {0, 0};           // 0: there, 1: missing, 2: not a number
    bool s_there[2] = {true, true};
    int interval = 0;                  // ms; 0: not in the file
    std::string text;
    bool started = false;
    bool chunks = false; // written piece by piece: a prefix of it was the file's content
};

int number(int v, int section)
{
    if (v % 7 == 3) return 0;
    return (v % 3 == 1 ? -1 : 1) * (v * 10 + section + 1); // -1 is the callers' default
}
double fraction(int v, int section) { return number(v, section) + 0.25; }
bool flag(int v, int section) { return (v + section) % 2 == 0; }
// The text of a value; in an INI file it is written without escapes.
std::string pattern(int v, int section)
{
    if ((v + section) % 6 == 5) return "";
    if ((v + section) % 6 == 4) return "de " + std::to_string(number(v, section)) + " = \xc3\xa9 [x] ; #";
    std::string s = "v" + std::to_string(number(v, section)) + "-";
    for (int i = 0; i < 5 + (v * 13) % 40; ++i) s.push_back(static_cast<char>('a' + (v + section + i) % 26));
    return s + "-end" + std::to_string(number(v, section));
}
char const *const sections[] = {"alpha", "beta"};

std::string fraction_text(int v, int section)
{
    char b[40];
    std::snprintf(b, sizeof b, "%.2f", fraction(v, section));
    return b;
}

std::string render(Version const &v, int id, bool json, std::size_t pad)
{
    std::string t;
    if (!v.valid)
    {
        t = json ? "{ \"alpha\" : { \"n\" : 12, \"s\" : \"torn" : "[alpha\nn = 12\n";
    }
    else if (json)
    {
        t = "{";
        bool first = true;
        auto open = [&](std::string const &name) {
            t += std::string(first ? "" : ",") + "\n  \"" + name + "\" : {";
            first = false;
        };
        for (int s = 0; s < 2; ++s)
        {
            if (!v.has[s]) continue;
            open(sections[s]);
            t += "\"other\" : [1, true, null]";
            if (v.n_state[s] == 0)
            {
                t += ", \"n\" : " + std::to_string(number(id, s)) + ", \"f\" : " + fraction_text(id, s);
                t += std::string(", \"b\" : ") + (flag(id, s) ? "true" : "false");
            }
            if (v.n_state[s] == 2) t += ", \"n\" : \"not a number\", \"f\" : [1.5]";
            if (v.s_there[s]) t += ", \"s\" : \"" + pattern(id, s) + "\"";
            t += "}";
        }
        if (v.interval)
        {
            open("path");
            t += "\"poll_interval\" : " + std::to_string(v.interval) + "}";
        }
        t += "\n}\n";
    }
    else
    {
        t = "; configuration\n[main]\nother = 1\n";
        for (int s = 0; s < 2; ++s)
        {
            if (!v.has[s]) continue;
            t += std::string("[") + sections[s] + "]\n";
            if (v.n_state[s] == 0) t += "n = " + std::to_string(number(id, s)) + "\nf=" + fraction_text(id, s) + "\n";
            if (v.n_state[s] == 2) t += "n = \"not a number\"\nf = false\n";
            bool const quoted = id % 2 || !pattern(id, s).starts_with("v");
            if (v.s_there[s]) t += "s = " + std::string(quoted ? "\"" : "") + pattern(id, s) + (quoted ? "\"" : "") + "\n";
        }
        if (v.interval) t += "[path]\npoll_interval=" + std::to_string(v.interval) + "\n";
    }
    while (t.size() < pad) t += "\n";
    return t;
}

struct World
{
    std::vector<Version> versions;
    bool json = true;
    int current = -1; // version in the file; -1: no file
};
World *W;

int expected_n(int v, int s)
{
    if (v < 0) return -1;
    Version const &x = W->versions[static_cast<std::size_t>(v)];
    return x.valid && x.has[s] && x.n_state[s] == 0 ? number(v, s) : -1;
}
std::string expected_s(int v, int s)
{
    if (v < 0) return "default";
    Version const &x = W->versions[static_cast<std::size_t>(v)];
    return x.valid && x.has[s] && x.s_there[s] ? pattern(v, s) : "default";
}

// An INI file may end in the middle of a value.
bool cut(int v, std::string const &full, std::string const &value)
{
    return !W->json && W->versions[static_cast<std::size_t>(v)].chunks && full.starts_with(value);
}

void check_read_n(int s, int n)
{
    Ignore ig;
    sim_note("read %s.n = %d", sections[s], n);
    if (n == -1) return;
    for (int v = 0; v < static_cast<int>(W->versions.size()); ++v)
        if (W->versions[static_cast<std::size_t>(v)].started && (expected_n(v, s) == n || cut(v, std::to_string(expected_n(v, s)), std::to_string(n)))) return;
    sim_fail("oracle:value-invented", "%s.n was read as %d, which the file never contained", sections[s], n);
}
void check_read_s(int s, std::string const &value)
{
    Ignore ig;
    sim_note("read %s.s = %s", sections[s], value.c_str());
    if (value == "default") return;
    for (int v = 0; v < static_cast<int>(W->versions.size()); ++v)
        if (W->versions[static_cast<std::size_t>(v)].started && (expected_s(v, s) == value || cut(v, expected_s(v, s), value))) return;
    sim_fail("oracle:value-invented", "%s.s was read as '%s', which the file never contained", sections[s], value.c_str());
}

double expected_f(int v, int s, double def)
{
    if (v < 0) return def;
    Version const &x = W->versions[static_cast<std::size_t>(v)];
    return x.valid && x.has[s] && x.n_state[s] == 0 ? fraction(v, s) : def;
}
bool expected_b(int v, int s, bool def)
{
    if (v < 0) return def;
    Version const &x = W->versions[static_cast<std::size_t>(v)];
    return W->json && x.valid && x.has[s] && x.n_state[s] == 0 ? flag(v, s) : def;
}
void check_read_f(int s, double f)
{
    Ignore ig;
    sim_note("read %s.f = %g", sections[s], f);
    if (f == 1e9) return;
    for (int v = 0; v < static_cast<int>(W->versions.size()); ++v)
    {
        Version const &x = W->versions[static_cast<std::size_t>(v)];
        if (!x.started) continue;
        if (expected_f(v, s, 1e9) == f) return;
        for (std::string t = fraction_text(v, s); !W->json && x.chunks && !t.empty(); t.pop_back())
            if (std::atof(t.c_str()) == f) return;
    }
    sim_fail("oracle:value-invented", "%s.f was read as %g, which the file never contained", sections[s], f);
}
void check_read_b(int s, bool b, bool def)
{
    Ignore ig;
    sim_note("read %s.b = %d", sections[s], b);
    if (b == def) return;
    for (int v = 0; v < static_cast<int>(W->versions.size()); ++v)
        if (W->versions[static_cast<std::size_t>(v)].started && expected_b(v, s, def) == b) return;
    sim_fail("oracle:value-invented", "%s.b was read as %d, which the file never contained", sections[s], b);
}

std::string const dir = "r/cfg", file = "r/cfg/settings";

enum Action { Replace, Rewrite, Chunks, Remove, NumActions };
char const *const action_names[] = {"replace", "rewrite in place", "rewrite in chunks", "remove"};

void write_file(std::string const &path, std::string const &text, int flags, std::size_t chunk)
{
    int const fd = ::open(path.c_str(), O_WRONLY | O_CREAT | flags, 0600);
    if (fd < 0) sim_fail("sim:workload", "cannot open %s: errno %d", path.c_str(), errno);
    for (std::size_t at = 0; at < text.size();)
    {
        std::size_t const n = std::min(chunk, text.size() - at);
        if (::write(fd, text.data() + at, n) != static_cast<ssize_t>(n)) sim_fail("sim:workload", "cannot write %s", path.c_str());
        at += n;
    }
    ::close(fd);
}

void apply(Action action, int v)
{
    Version *x = nullptr;
    {
        Ignore ig;
        x = &W->versions[static_cast<std::size_t>(v)];
        if (action != Remove) x->started = true;
        if (action == Chunks) x->chunks = true;
        sim_note("%s: version %d", action_names[action], v);
    }
    switch (action)
    {
        case Replace:
            write_file(dir + "/temporary", x->text, O_TRUNC, 1 << 20);
            ::rename((dir + "/temporary").c_str(), file.c_str());
            break;
        case Rewrite: write_file(file, x->text, O_TRUNC, 1 << 20); break;
        case Chunks: write_file(file, x->text, O_TRUNC, x->text.size() / 3 + 1); break;
        default: ::unlink(file.c_str()); break;
    }
    Ignore ig;
    W->current = action == Remove ? -1 : v;
    sim_note("file done");
}

// A configuration object as some thread holds it.
struct Hold
{
    void const *object = nullptr;
    int section = 0;
    std::uint64_t inv = 0, res = 0, released = ~std::uint64_t {0};
};

void run_config(bool faults, bool life)
{
    W = new World;
    World &world = *W;
    quiet_default_logger();
    sim_time_budget(900 * sec);

    world.json = sim_param("json", 0, 1) == 1;
    bool const in_place = sim_param("in_place", 0, 2) == 0;
    int const nreaders = static_cast<int>(sim_param("readers", 1, life ? 2 : 3));
    int const nworkers = static_cast<int>(sim_param("workers", 1, 2));
    bool const existing = sim_param("existing", 0, 1) == 1;

    // the versions of the file
    struct Step
    {
        Action action;
        int version;
        std::int64_t pause;
    };
    std::vector<Step> steps;
    auto add_version = [&]() {
        Version v;
        v.valid = !coin(10);
        for (int s = 0; s < 2; ++s)
        {
            v.has[s] = !coin(12);
            v.n_state[s] = coin(80) ? 0 : static_cast<int>(R(1, 2));
            v.s_there[s] = !coin(12);
        }
        if (coin(60)) v.interval = std::array<int, 4> {5, 20, 100, 400}[R(0, 3)];
        // an in-place rewrite keeps the size, and other bytes of the old content are the same or gone
        v.text = render(v, static_cast<int>(world.versions.size()), world.json, in_place ? 420 : coin(10) ? 9000 : 0);
        world.versions.push_back(v);
        return static_cast<int>(world.versions.size()) - 1;
    };
    if (existing) add_version();
    std::uint64_t const n = R(1, coin(4) ? 60 : life ? 6 : 10);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        Step s;
        s.action = coin(20) ? Remove : in_place && coin(70) ? (coin(50) ? Rewrite : Chunks) : Replace;
        s.version = add_version();
        s.pause = coin(30) ? 0 : static_cast<std::int64_t>(R(0, 60)) * ms / 2;
        if (coin(15)) s.pause = static_cast<std::int64_t>(R(0, 1200)) * ms;
        if (sim_op("writer: %s version %d (pause %ld us)", action_names[s.action], s.version, (long)(s.pause / 1000))) steps.push_back(s);
    }
    int const last = add_version(); // written when the faults are over
    Action const last_action = coin(15) ? Remove : in_place && coin(60) ? Rewrite : Replace;

    enum ReadWhat { ReadN, ReadS, ReadF, ReadB, Release, Prune, Imposing, DropManager };
    struct ReadStep
    {
        ReadWhat what;
        int section;
        std::int64_t pause;
    };
    static char const *const read_names[] = {"read n of", "read s of", "read f of", "read b of", "release", "prune at", "misuse the name of", "release the manager at"};
    std::vector<std::vector<ReadStep>> plan(static_cast<std::size_t>(nreaders));
    for (int t = 0; t < nreaders; ++t)
    {
        std::uint64_t const m = R(2, coin(4) ? 80 : life ? 8 : 14);
        for (std::uint64_t i = 0; i < m; ++i)
        {
            ReadStep r;
            unsigned const pick = static_cast<unsigned>(R(0, 99));
            r.what = pick < 25 ? ReadN : pick < 50 ? ReadS : pick < 60 ? ReadF : pick < 70 ? ReadB : pick < 85 ? Release : pick < 92 ? Prune : life ? DropManager : Imposing;
            r.section = static_cast<int>(R(0, 1));
            r.pause = coin(50) ? 0 : static_cast<std::int64_t>(R(0, 40)) * ms / 2;
            if (sim_op("reader %d: %s %s (pause %ld us)", t, read_names[r.what], sections[r.section], (long)(r.pause / 1000))) plan[static_cast<std::size_t>(t)].push_back(r);
        }
    }
    std::int64_t const drop_after = life ? static_cast<std::int64_t>(R(0, 60)) * ms : -1;

    if (faults)
    {
        if (coin(50)) sim_fault_rate(SF_OPEN_FAIL, static_cast<int>(R(500, 4000)));
        if (coin(50)) sim_fault_rate(SF_READ_EIO, static_cast<int>(R(500, 4000)));
        if (coin(40) && !in_place) sim_fault_rate(SF_READ_SHORT, static_cast<int>(R(500, 5000)));
        if (coin(30)) sim_fault_rate(SF_EINTR, static_cast<int>(R(300, 2000)));
        if (coin(30)) sim_fault_rate(SF_POLL_FAIL, static_cast<int>(R(300, 2000)));
        if (coin(30)) sim_fault_rate(SF_READ_EAGAIN, static_cast<int>(R(300, 2000)));
        if (coin(15)) sim_fault_rate(SF_WATCH_FAIL, 2000);
        sim_fault_cap(SF_POLL_FAIL, 20);
        sim_fault_cap(SF_READ_EAGAIN, 20);
        sim_fault_cap(SF_EINTR, 30);
    }
    if (coin(40)) sim_fault_rate(SF_POLL_DELAY, static_cast<int>(R(500, 3000)));
    sim_fs_prefix("r/cfg/settings");

    ::mkdir(dir.c_str(), 0700);
    sim_fs_exempt_begin();
    if (existing) apply(Replace, 0);
    sim_fs_exempt_end();
    // a file that exists before the manager is read when it changes

    auto manager = TaskManager::create(static_cast<std::uint32_t>(nworkers));
    auto runner = SequencedTaskRunner::create(manager);
    int const inotify0 = sim_inotify_open();
    sim_faults_enable(1);
    auto config = ConfigManager::create(runner, world.json ? ConfigFileType::Json : ConfigFileType::Ini, file);
    if (!config)
    {
        if (sim_fault_count(SF_WATCH_FAIL) == 0) sim_fail("oracle:create", "the configuration manager was not created");
        sim_probe(0);
        sim_drain();
        if (!wait_until([&]() { return sim_inotify_open() == inotify0; }, 10 * sec, 10 * ms)) sim_fail("oracle:release", "the path monitor of a configuration manager was not released");
        manager->stop();
        sim_stop();
        return;
    }
    sim_fault_rate(SF_WATCH_FAIL, 0);
    std::weak_ptr<ConfigManager> weak = config;

    std::vector<Hold> holds;
    auto get = [&](auto *type, int section, std::shared_ptr<ConfigManager> const &from) {
        using T = std::remove_pointer_t<decltype(type)>;
        Hold h;
        {
            Ignore ig;
            h.section = section;
            h.inv = sim_seq();
        }
        std::shared_ptr<T> c = from->create_config<T>();
        Ignore ig;
        h.res = sim_seq();
        h.object = c.get();
        sim_note("configuration %s", sections[section]);
        if (!c) sim_fail("oracle:config", "the configuration %s was not created", sections[section]);
        for (Hold const &o : holds)
            if (o.section == section && o.res < h.inv && o.released > h.res && o.object != h.object)
                sim_fail("oracle:two-objects", "a second object was created for the configuration %s while the first was referenced", sections[section]);
        holds.push_back(h);
        return std::make_pair(c, holds.size() - 1);
    };

    Threads threads;
    auto reader = [&](int t, std::shared_ptr<ConfigManager> own) {
        std::shared_ptr<Alpha> alpha;
        std::shared_ptr<Beta> beta;
        std::size_t held[2] = {0, 0};
        auto ensure = [&](int s) {
            if (s == 0 && !alpha && own) std::tie(alpha, held[0]) = get(static_cast<Alpha *>(nullptr), 0, own);
            if (s == 1 && !beta && own) std::tie(beta, held[1]) = get(static_cast<Beta *>(nullptr), 1, own);
            return s == 0 ? alpha != nullptr : beta != nullptr;
        };
        for (ReadStep const &r : plan[static_cast<std::size_t>(t)])
        {
            if (r.pause) sim_sleep_ns(r.pause);
            switch (r.what)
            {
                case ReadN:
                    if (ensure(r.section)) check_read_n(r.section, r.section ? beta->n() : alpha->n());
                    break;
                case ReadS:
                    if (ensure(r.section)) check_read_s(r.section, r.section ? beta->s() : alpha->s());
                    break;
                case ReadF:
                    if (ensure(r.section)) check_read_f(r.section, r.section ? beta->f(1e9) : alpha->f(1e9));
                    break;
                case ReadB:
                {
                    bool const def = r.pause == 0;
                    if (ensure(r.section)) check_read_b(r.section, r.section ? beta->b(def) : alpha->b(def), def);
                    break;
                }
                case Release:
                    if (r.section ? beta != nullptr : alpha != nullptr)
                    {
                        {
                            Ignore ig;
                            holds[held[r.section]].released = sim_seq();
                        }
                        if (r.section) beta.reset();
                        else alpha.reset();
                    }
                    break;
                case Prune:
                    if (own)
                    {
                        std::size_t const k = own->prune();
                        Ignore ig;
                        std::size_t const least = 1 + (alpha != nullptr) + (beta != nullptr);
                        if (k < least || k > 3) sim_fail("oracle:prune", "prune returned %zu, with at least %zu and at most 3 configurations alive", k, least);
                    }
                    break;
                case Imposing:
                    if (ensure(0))
                        if (own && own->create_config<Impostor>() != nullptr) sim_fail("oracle:impostor", "a configuration was created under the name of another one in use");
                    break;
                case DropManager: own.reset(); break;
            }
        }
        Ignore ig;
        if (alpha) holds[held[0]].released = sim_seq();
        if (beta) holds[held[1]].released = sim_seq();
    };
    for (int t = 0; t < nreaders; ++t)
        threads.start([&reader, t, shared = config]() mutable { reader(t, std::move(shared)); });
    threads.start([&]() {
        sim_fs_exempt_begin();
        for (Step const &s : steps)
        {
            if (s.pause) sim_sleep_ns(s.pause);
            apply(s.action, s.version);
        }
        sim_fs_exempt_end();
    });

    if (life)
    {
        // keep objects beyond the manager's life
        auto alpha = config->create_config<Alpha>();
        sim_sleep_ns(drop_after);
        {
            Ignore ig;
            sim_note("release the manager");
        }
        config.reset();
        threads.join();
        sim_drain();
        if (!wait_until([&]() { return weak.expired() && sim_inotify_open() == inotify0; }, 30 * sec, 10 * ms))
            sim_fail("oracle:release", "the configuration manager was not released");
        check_read_n(0, alpha->n());
        check_read_s(0, alpha->s());
        if (sim_fault_count(SF_READ_EIO) > 0) sim_probe(1);
    }
    else
    {
        threads.join();
        sim_drain();
        // the last modification happens without faults
        if (faults || coin(50))
        {
            sim_sleep_ns(static_cast<std::int64_t>(R(0, 30)) * ms);
            apply(last_action, last);
        }
        bool const touched = faults || !steps.empty() || world.versions[static_cast<std::size_t>(last)].started || last_action == Remove;
        auto [alpha, ha] = get(static_cast<Alpha *>(nullptr), 0, config);
        std::shared_ptr<Beta> beta;
        bool const late = coin(50);
        if (!late) beta = get(static_cast<Beta *>(nullptr), 1, config).first;
        int n0 = 0, n1 = 0;
        std::string s0, s1;
        auto current = [&]() {
            n0 = alpha->n();
            s0 = alpha->s();
            if (beta) n1 = beta->n(), s1 = beta->s();
            for (bool const def : {false, true})
                if (alpha->b(def) != expected_b(world.current, 0, def) || (beta && beta->b(def) != expected_b(world.current, 1, def))) return false;
            for (double const def : {1e9, -1e9})
                if (alpha->f(def) != expected_f(world.current, 0, def) || (beta && beta->f(def) != expected_f(world.current, 1, def))) return false;
            return n0 == expected_n(world.current, 0) && s0 == expected_s(world.current, 0) && (!beta || (n1 == expected_n(world.current, 1) && s1 == expected_s(world.current, 1)));
        };
        // the poll interval may still be the default of one second
        bool const settled = !touched || wait_until(current, 10 * sec, 5 * ms);
        if (!settled)
            sim_fail("oracle:stale", "the file holds version %d (alpha.n %d, alpha.s %s, beta.n %d), but alpha.n is %d, alpha.s %s, beta.n %d", world.current, expected_n(world.current, 0),
                expected_s(world.current, 0).c_str(), expected_n(world.current, 1), n0, s0.c_str(), n1);
        sim_sleep_ns(2 * sec);
        if (touched)
        {
            if (late) beta = get(static_cast<Beta *>(nullptr), 1, config).first; // a new object has the values as well
            if (!current())
                sim_fail("oracle:stale", "version %d: the values were right and then changed, or a new configuration object lacks them: alpha.n %d, alpha.s %s, beta.n %d", world.current, n0, s0.c_str(), n1);
        }
        for (int round = 0; round < 3; ++round)
        {
            std::size_t const k = config->prune();
            int const alive = 1 + (alpha != nullptr) + (beta != nullptr);
            if (k != static_cast<std::size_t>(alive)) sim_fail("oracle:prune", "prune returned %zu with %d configurations alive", k, alive);
            if (coin(50)) alpha.reset();
            else beta.reset();
        }
        if (sim_fault_count(SF_READ_EIO) > 0) sim_probe(1);
        config.reset();
        if (!wait_until([&]() { return weak.expired() && sim_inotify_open() == inotify0; }, 30 * sec, 10 * ms))
            sim_fail("oracle:release", "the configuration manager was not released");
    }
    if (in_place) sim_probe(2);
    manager->stop();
    sim_stop();
}

// ---- R01 ----------------------------------------------------------------------------------------
// A document the harness knows the meaning of.
struct Node
{
    enum Kind { Null, Bool, Signed, Unsigned, Float, String, Array, Object } kind = Null;
    std::string s;
    std::int64_t i = 0;
    double d = 0;
    std::vector<std::pair<std::string, Node>> kids;
};
struct Doc
{
    bool json = true;
    int state = 0;       // 0: means root, 1: must be rejected, 2: checked against the parser's own opinion of the complete content
    int features = 0;
    Node root;
    std::string text;    // in UTF-8
    std::string bytes;   // as stored
};

std::string make_text(int id)
{
    static char const *const words[] = {"value", "with blanks", "\xc3\xa9t\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "x=y", "12", "-3.5", "true"};
    std::string v = std::to_string(id) + ":";
    for (std::uint64_t w = R(1, 4); w > 0; --w) v += std::string(v.size() % 2 ? " " : "_") + words[R(0, 8)];
    return v;
}
Node make_node(int id, int depth, int &left)
{
    Node n;
    --left;
    std::uint64_t const k = R(0, 99);
    if (depth > 0 && left > 0 && k < 35)
    {
        n.kind = k < 15 ? Node::Array : Node::Object;
        std::uint64_t count = R(0, 5);
        for (std::uint64_t i = 0; i < count && left > 0; ++i) n.kids.emplace_back("key" + std::to_string(i), make_node(id, depth - 1, left));
    }
    else if (k < 45) n.kind = Node::Bool, n.i = coin(50);
    else if (k < 50) n.kind = Node::Null;
    else if (k < 58) n.kind = Node::Signed, n.i = -static_cast<std::int64_t>(coin(30) ? R(0, 0x7fffffffffffffffULL) : R(0, 100000)), n.i = n.i ? n.i : -1;
    else if (k < 66) n.kind = Node::Unsigned, n.i = static_cast<std::int64_t>(coin(30) ? R(0, 0x7fffffffffffffffULL) : R(0, 100000));
    else if (k < 74) n.kind = Node::Float, n.d = static_cast<double>(static_cast<std::int64_t>(R(0, 2000000)) - 1000000) / 64;
    else
    {
        n.kind = Node::String, n.s = make_text(id);
        if (coin(30)) n.s += std::string("\n\t\"\\/") + (coin(50) ? "\b\f\r" : "");
    }
    return n;
}
std::string blank(int features)
{
    static char const *const spaces[] = {"", "", " ", "\n", "\t", "\r\n", "  "};
    std::string s = spaces[R(0, 6)];
    if ((features & 1) && coin(8)) s += coin(50) ? "// \"a\" : { comment\n" : "/* a [ comment *, } **/";
    return s;
}
void print_string(std::string const &s, std::string &out)
{
    out += '"';
    for (std::size_t i = 0; i < s.size();)
    {
        unsigned char const c = static_cast<unsigned char>(s[i]);
        int const len = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
        std::uint32_t p = len == 1 ? c : c & (0xff >> (len + 1));
        for (int k = 1; k < len; ++k) p = p << 6 | (static_cast<unsigned char>(s[i + static_cast<std::size_t>(k)]) & 0x3f);
        static char const plain[] = "\n\t\r\b\f\"\\", names[] = "ntrbf\"\\";
        char const *const special = len == 1 && c ? std::strchr(plain, c) : nullptr;
        char u[16];
        if (special && coin(70)) out += '\\', out += names[special - plain];
        else if (special || (len > 1 && coin(15)))
        {
            if (p >= 0x10000) std::snprintf(u, sizeof u, "\\u%04x\\u%04X", 0xd800 + ((p - 0x10000) >> 10), 0xdc00 + ((p - 0x10000) & 0x3ff));
            else std::snprintf(u, sizeof u, "\\u%04x", p);
            out += u;
        }
        else if (c == '/' && coin(30)) out += "\\/";
        else out.append(s, i, static_cast<std::size_t>(len));
        i += static_cast<std::size_t>(len);
    }
    out += '"';
}
void print_json(Node const &n, int features, std::string &out)
{
    char num[64];
    switch (n.kind)
    {
        case Node::Null: out += "null"; break;
        case Node::Bool: out += n.i ? "true" : "false"; break;
        case Node::Signed:
        case Node::Unsigned: out += std::to_string(n.i); break;
        case Node::Float: std::snprintf(num, sizeof num, coin(50) ? "%.6f" : coin(50) ? "%.16e" : "%.16E", n.d), out += num; break;
        case Node::String: print_string(n.s, out); break;
        case Node::Array:
        case Node::Object:
        {
            bool const object = n.kind == Node::Object;
            out += object ? '{' : '[';
            for (std::size_t i = 0; i < n.kids.size(); ++i)
            {
                if (i) out += blank(features) + ",";
                out += blank(features);
                if (object) print_string(n.kids[i].first, out), out += blank(0) + ":" + blank(features);
                print_json(n.kids[i].second, features, out);
            }
            if ((features & 2) && !n.kids.empty() && coin(30)) out += blank(features) + ",";
            out += blank(features);
            out += object ? '}' : ']';
            break;
        }
    }
}
bool same(Node const &n, fly::Json const &j)
{
    switch (n.kind)
    {
        case Node::Null: return j.is_null();
        case Node::Bool: return j.is_boolean() && static_cast<bool>(j) == (n.i != 0);
        case Node::Signed: return (j.is_signed_integer() || j.is_unsigned_integer()) && static_cast<std::int64_t>(j) == n.i;
        case Node::Unsigned: return (j.is_signed_integer() || j.is_unsigned_integer()) && static_cast<std::uint64_t>(j) == static_cast<std::uint64_t>(n.i);
        case Node::Float: return j.is_float() && static_cast<double>(j) == n.d;
        case Node::String: return j.is_string() && std::string(j) == n.s;
        case Node::Array:
            if (!j.is_array() || j.size() != n.kids.size()) return false;
            for (std::size_t i = 0; i < n.kids.size(); ++i)
                if (!same(n.kids[i].second, j.at(i))) return false;
            return true;
        case Node::Object:
            if (!j.is_object() || j.size() != n.kids.size()) return false;
            for (auto const &[k, v] : n.kids)
                if (!j.contains(k) || !same(v, j.at(k))) return false;
            return true;
    }
    return false;
}

std::string encode(std::string const &utf8, int encoding)
{
    // 0: plain, 1: UTF-8 with a byte order mark, 2: UTF-16 BE, 3: UTF-16 LE, 4: UTF-32 BE, 5: UTF-32 LE
    if (encoding == 0) return utf8;
    if (encoding == 1) return "\xef\xbb\xbf" + utf8;
    std::vector<std::uint32_t> points {0xfeff};
    for (std::size_t i = 0; i < utf8.size();)
    {
        unsigned char const c = static_cast<unsigned char>(utf8[i]);
        int const len = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
        std::uint32_t p = len == 1 ? c : c & (0xff >> (len + 1));
        for (int k = 1; k < len; ++k) p = p << 6 | (static_cast<unsigned char>(utf8[i + static_cast<std::size_t>(k)]) & 0x3f);
        points.push_back(p);
        i += static_cast<std::size_t>(len);
    }
    std::string out;
    auto unit = [&](std::uint32_t v, int bytes, bool big) {
        for (int k = 0; k < bytes; ++k) out.push_back(static_cast<char>(v >> (8 * (big ? bytes - 1 - k : k))));
    };
    for (std::uint32_t p : points)
    {
        if (encoding >= 4) unit(p, 4, encoding == 4);
        else if (p >= 0x10000)
        {
            unit(0xd800 + ((p - 0x10000) >> 10), 2, encoding == 2);
            unit(0xdc00 + ((p - 0x10000) & 0x3ff), 2, encoding == 2);
        }
        else unit(p, 2, encoding == 2);
    }
    return out;
}

Doc make_doc(int id, bool json, int encoding, bool large)
{
    Doc d;
    d.json = json;
    d.root.kind = Node::Object;
    std::string &t = d.text;
    if (json)
    {
        d.features = coin(50) ? 0 : static_cast<int>(R(0, 7));
        int left = static_cast<int>(large ? R(50, 400) : R(3, 25));
        if (coin(50))
        {
            // like a configuration file
            for (std::uint64_t s = 0, n = R(1, 4); s < n; ++s)
            {
                Node section;
                section.kind = Node::Object;
                for (std::uint64_t k = R(0, large ? 150 : 6); k > 0; --k)
                {
                    Node v;
                    v.kind = Node::String, v.s = make_text(id);
                    section.kids.emplace_back("key" + std::to_string(k), v);
                }
                d.root.kids.emplace_back("section" + std::to_string(s), section);
            }
        }
        else if ((d.features & 4) && coin(25)) d.root = make_node(id, 0, left);
        else
        {
            d.root.kind = coin(50) ? Node::Array : Node::Object;
            for (std::uint64_t k = R(0, 12); left > 0 && k > 0; --k) d.root.kids.emplace_back("name" + std::to_string(k), make_node(id, static_cast<int>(R(0, 12)), left));
        }
        t = blank(d.features);
        print_json(d.root, d.features, t);
        bool const container = d.root.kind >= Node::Array;
        std::size_t const end = t.size();
        std::string const tail = blank(d.features);
        t += tail;
        switch (coin(65) ? 0 : container ? R(1, 4) : 0)
        {
            case 1: // torn
                d.state = 1;
                t.resize(R(0, end - 1));
                while (!t.empty() && (static_cast<unsigned char>(t.back()) & 0x80)) t.pop_back();
                break;
            case 2: // the rest of an older, longer document follows
            {
                d.state = 1;
                std::string older;
                print_json(d.root, d.features, older);
                t += older.substr(R(0, older.size() - 1));
                break;
            }
            case 4: // something malformed
            {
                static char const *const bad[] = {"01", "-01", "00", "1.", "-", "+1", "tru", "nul", "falsee", "1e", "1e+", "0x10", "1.2.3", "NaN", "'a'", "\"\\x\"", "\"\\u12\"", "\"\\ud800\"", "\"a",
                                                  "[1 2]", "[1,,2]", "[,1]", "[1", "{\"a\" 1}", "{a:1}", "{\"a\":}", "{\"a\"}", "{1:2}", "{\"a\":1]", "/* x", "/ x", "1 2", "\"a\" \"b\"", ""};
                d.state = 1;
                std::size_t const at = end - 1;
                t = t.substr(0, at) + (d.root.kids.empty() ? "" : ",") + (d.root.kind == Node::Object ? "\"bad\":" : "1,") + bad[R(0, sizeof bad / sizeof *bad - 1)] + t.substr(at);
                if (d.root.kind == Node::Array && t.substr(at).find(",]") != std::string::npos) d.state = 2; // a trailing comma may be allowed
                break;
            }
            case 3: // one character is missing
                d.state = 2;
                t.erase(R(0, end - 1), 1);
                for (char c : t)
                    if (c & 0x80) d.state = 3;
                break;
        }
    }
    else
    {
        for (std::uint64_t s = 0, n = R(1, 4); s < n; ++s)
        {
            Node section;
            section.kind = Node::Object;
            for (std::uint64_t k = R(0, large ? 150 : 6); k > 0; --k)
            {
                Node v;
                v.kind = Node::String, v.s = make_text(id);
                section.kids.emplace_back("key" + std::to_string(k), v);
            }
            d.root.kids.emplace_back("section" + std::to_string(s), section);
        }
        auto noise = [&] {
            if (coin(15)) t += coin(50) ? "; [a] comment = 1\n" : coin(50) ? "\n" : " \t \n";
        };
        auto gap = [] { return std::string(coin(70) ? "" : coin(50) ? " " : "\t "); };
        for (auto const &[name, section] : d.root.kids)
        {
            noise();
            t += gap() + "[" + gap() + name + gap() + "]" + gap() + "\n";
            for (auto const &[k, v] : section.kids)
            {
                noise();
                char const *const quote = coin(70) ? "" : coin(50) ? "\"" : "'";
                t += gap() + k + gap() + "=" + gap() + quote + v.s + quote + gap() + "\n";
            }
        }
        if (coin(30)) t.pop_back();
        switch (coin(75) ? 0 : R(1, 3))
        {
            case 1: // torn
                d.state = 2;
                t.resize(R(0, t.size() - 1));
                while (!t.empty() && (static_cast<unsigned char>(t.back()) & 0x80)) t.pop_back();
                break;
            case 2: // ends within a section's name, or without the value
            {
                static char const *const bad[] = {"[section", "section]", "key", "key = \"abc", "key = abc\"", "key = 'abc", "key = abc'", "\"key\" = value", "'key' = value", "[\"section\"]", "['section']"};
                d.state = 1;
                t += std::string("\n") + bad[R(0, 10)] + (coin(50) ? "\n" : "");
                if (coin(50)) t += "\n[last]\nkey = value\n";
            }
                break;
            case 3: // a value without a section
                d.state = 1;
                t = "key = value\n" + t;
                break;
        }
    }
    if (d.state == 3) d.state = 2, encoding = static_cast<int>(R(0, 1)); // may be ill-formed
    d.bytes = encode(t, encoding);
    return d;
}

void run_parse()
{
    quiet_default_logger();
    sim_time_budget(900 * sec);
    bool const json = sim_param("json", 0, 1) == 1;
    int const nthreads = static_cast<int>(sim_param("parsers", 1, 2));
    int const ndocs = static_cast<int>(sim_param("documents", 1, 3));
    std::vector<Doc> docs;
    for (int i = 0; i < ndocs; ++i) docs.push_back(make_doc(i, json, static_cast<int>(R(0, 5)), coin(35)));
    std::vector<std::vector<int>> plan(static_cast<std::size_t>(nthreads));
    static char const *const targets[] = {"the file", "a missing file", "a directory"};
    for (int t = 0; t < nthreads; ++t)
        for (std::uint64_t k = R(1, 5); k > 0; --k)
        {
            int const what = coin(84) ? 0 : static_cast<int>(R(1, 2));
            if (sim_op("parser %d: parse %s", t, targets[what])) plan[static_cast<std::size_t>(t)].push_back(what);
        }
    std::vector<int> replace;
    for (int i = 1; i < ndocs; ++i)
        if (sim_op("replace the file by document %d", i)) replace.push_back(i);
    if (coin(40)) sim_fault_rate(SF_READ_EIO, static_cast<int>(R(300, 4000)));
    if (coin(50)) sim_fault_rate(SF_READ_SHORT, static_cast<int>(R(500, 8000)));
    if (coin(40)) sim_fault_rate(SF_EINTR, static_cast<int>(R(300, 3000)));
    if (coin(20)) sim_fault_rate(SF_OPEN_FAIL, static_cast<int>(R(300, 3000)));
    sim_fs_prefix("r/cfg/");
    ::mkdir(dir.c_str(), 0700);
    sim_fs_exempt_begin();
    write_file(dir + "/doc", docs[0].bytes, O_TRUNC, 1 << 20);
    ::mkdir((dir + "/directory").c_str(), 0700);
    sim_fs_exempt_end();
    int features = 0;
    for (Doc const &d : docs) features |= d.features; // (a document that uses fewer of them means the same)
    auto make_parser = [&]() -> std::unique_ptr<fly::parser::Parser> {
        if (json) return std::make_unique<fly::parser::JsonParser>(static_cast<fly::parser::JsonParser::Features>(features));
        return std::make_unique<fly::parser::IniParser>();
    };
    // what the parser makes of the complete contents
    std::vector<std::optional<fly::Json>> expected;
    for (Doc const &d : docs)
    {
        expected.push_back(make_parser()->parse_string(d.text));
        auto const &own = expected.back();
        if (d.state == 0 && !own) sim_fail("oracle:parse", "a valid document was rejected: %s", d.text.substr(0, 300).c_str());
        if (d.state == 0 && !same(d.root, *own)) sim_fail("oracle:parse", "the value of a document is not what it says: %s", d.text.substr(0, 300).c_str());
        if (d.state == 1 && own) sim_fail("oracle:parse", "a damaged document was accepted: %s", d.text.size() > 300 ? d.text.substr(d.text.size() - 300).c_str() : d.text.c_str());
    }
    int first = 0, latest = 0; // the file holds one of these
    sim_faults_enable(1);
    Threads threads;
    for (int t = 0; t < nthreads; ++t)
        threads.start([&, t]() {
            auto parser = make_parser(); // used again and again
            for (int what : plan[static_cast<std::size_t>(t)])
            {
                int from, faults;
                auto hard = []() { return sim_fault_count(SF_READ_EIO) + sim_fault_count(SF_OPEN_FAIL); };
                {
                    Ignore ig;
                    from = first;
                    faults = hard();
                    sim_note("parse %s", targets[what]);
                }
                std::optional<fly::Json> result;
                try
                {
                    result = parser->parse_file(dir + (what == 0 ? "/doc" : what == 1 ? "/missing" : "/directory"));
                }
                catch (std::exception const &e)
                {
                    Ignore ig;
                    sim_fail("oracle:exception", "parsing %s threw %s", targets[what], e.what());
                }
                Ignore ig;
                sim_note("parsed %s: %s", targets[what], result ? "a value" : "no value");
                if (what != 0)
                {
                    if (result) sim_fail("oracle:parse", "parsing %s yielded a value", targets[what]);
                    continue;
                }
                bool ok = false;
                for (int i = from; i <= latest; ++i)
                    if (result ? (expected[static_cast<std::size_t>(i)] && *result == *expected[static_cast<std::size_t>(i)]) : !expected[static_cast<std::size_t>(i)]) ok = true;
                if (!result && hard() > faults)
                {
                    ok = true;
                    sim_probe(0);
                }
                if (!ok)
                    sim_fail(result ? "oracle:partial" : "oracle:rejected", "the file was parsed to %s", result ? "something that differs from its complete content" : "nothing, although every read worked");
            }
        });
    for (int i : replace)
    {
        sim_sleep_ns(static_cast<std::int64_t>(R(0, 40)) * 1000);
        sim_fs_exempt_begin();
        write_file(dir + "/new", docs[static_cast<std::size_t>(i)].bytes, O_TRUNC, 1 << 20);
        {
            Ignore ig;
            latest = i;
            sim_note("replacing");
        }
        ::rename((dir + "/new").c_str(), (dir + "/doc").c_str());
        {
            Ignore ig;
            first = i;
            sim_note("replaced");
        }
        sim_fs_exempt_end();
    }
    threads.join();
    sim_stop();
}

} // namespace

SIM_SCENARIO(config_values, 3, "create_failed", "read_error", "in_place") { run_config(false, false); }
SIM_SCENARIO(config_faults, 3, "create_failed", "read_error", "in_place") { run_config(true, false); }
SIM_SCENARIO(config_life, 3, "create_failed", "read_error", "in_place") { run_config(sim_param("faults", 0, 1) == 1, true); }
SIM_SCENARIO(parse_file, 3, "failed_by_fault") { run_parse(); }
