// P01, P02: path monitor.
#include "quiet_logger.hpp"

#include "fly/path/path_config.hpp"
#include "fly/path/path_monitor.hpp"
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"

#include <algorithm>
#include <array>
#include <fcntl.h>
#include <filesystem>
#include <sys/stat.h>
#include <unistd.h>

using namespace sim;
using namespace fly::path;
using fly::task::SequencedTaskRunner;
using fly::task::TaskManager;

extern "C" int sim_inotify_open(void);
extern "C" int sim_inotify_pending(void);
extern "C" void sim_inotify_watch_limit(int n);

namespace {

struct PathCfg : PathConfig
{
    explicit PathCfg(int interval_ms) { m_default_poll_interval = interval_ms; }
};

// ---- history ------------------------------------------------------------------------------------
enum Kind { Created, Deleted, Changed, Unknown };
char const *const kind_names[] = {"Created", "Deleted", "Changed", "?"};

Kind kind_of(PathEvent e)
{
    switch (e)
    {
        case PathEvent::Created: return Created;
        case PathEvent::Deleted: return Deleted;
        case PathEvent::Changed: return Changed;
        default: return Unknown;
    }
}

// A change of a file (or of a directory entry) made by the workload.
struct FileOp
{
    Kind kind = Unknown;
    std::uint64_t inv = 0, res = 0;
};
// A callback.
struct Event
{
    int handler = -1;
    Kind kind = Unknown;
    std::uint64_t start = 0, end = 0;
};
struct FileHist
{
    std::vector<FileOp> ops;
    std::vector<Event> events;
};

enum RegKind { AddPath, RemovePath, AddFile, RemoveFile, RemoveAll };
char const *const reg_names[] = {"add_path", "remove_path", "add_file", "remove_file", "remove_all_paths"};

struct RegOp
{
    int id = 0;
    RegKind kind = AddPath;
    int dir = 0, file = -1; // of the workload
    int handler = -1;
    std::int64_t pause = 0;
    int thread = 0;
    // history
    bool called = false, returned = false, ok = false;
    std::uint64_t inv = 0, res = ~std::uint64_t {0};
    int faults = 0; // watch faults while it ran
    std::vector<int> seen_dirs;
};

constexpr int NAMES = 4;
// the longest name a file can have, which makes the largest event there is
char const long_name[] = "a name with blanks, which is as long as names can be "
                         "-----------------------------------------------------------------------------------------------------"
                         "-----------------------------------------------------------------------------------------------------";
static_assert(sizeof(long_name) - 1 == 255);
char const *const names[NAMES] = {"a", "b.txt", long_name, "\xc3\xa9"};

struct World
{
    std::filesystem::path root;
    int ndirs = 1;
    std::map<std::pair<int, std::string>, FileHist> files;
    std::vector<RegOp> regs;
    int running_callbacks = 0;
    std::int64_t slow = 0;
    bool released = false;
    std::uint64_t dead = 0; // the monitor was observed to be destroyed
    std::shared_ptr<TaskManager> manager;
};
World *W;

std::string dir_name(int d) { return "d" + std::to_string(d); }
std::filesystem::path dir_path(int d) { return W->root / dir_name(d); }

PathMonitor::PathEventCallback make_callback(int handler)
{
    return [handler](std::filesystem::path path, PathEvent event) {
        FileHist *h = nullptr;
        std::size_t slot = 0;
        std::int64_t slow;
        {
            Ignore ig;
            RegOp const &reg = W->regs[static_cast<std::size_t>(handler)];
            sim_note("callback %d: %s %s", handler, path.c_str(), kind_names[kind_of(event)]);
            if (W->dead) sim_fail("oracle:after-release", "a callback ran after the path monitor had been destroyed");
            std::filesystem::path const expected = dir_path(reg.dir) / path.filename();
            if (path != expected || (reg.file >= 0 && path.filename() != names[reg.file]))
                sim_fail("oracle:wrong-path", "the callback registered with %s for %s was called for %s", reg_names[reg.kind],
                    (reg.file >= 0 ? dir_path(reg.dir) / names[reg.file] : dir_path(reg.dir)).c_str(), path.c_str());
            Event e;
            e.handler = handler;
            e.kind = kind_of(event);
            e.start = sim_seq();
            h = &W->files[{reg.dir, path.filename().string()}];
            slot = h->events.size();
            h->events.push_back(e);
            slow = W->slow;
        }
        sim_point();
        if (slow) sim_sleep_ns(slow);
        Ignore ig;
        h->events[slot].end = sim_seq();
        sim_note("callback %d done", handler);
    };
}

// ---- the workload -------------------------------------------------------------------------------
enum What { Create, Write, Truncate, Unlink, Rename };
struct Step
{
    What what = Write;
    int dir = 0, to_dir = 0;
    int file = 0, to_file = 0;
    std::int64_t pause = 0;
};

// One file of the workload; it belongs to one thread.
struct FileState
{
    bool exists = false;
    std::size_t size = 0;
};

struct Recorder // of an operation on a file
{
    FileHist &h;
    std::size_t slot;
    Recorder(int dir, int file, Kind kind) : h(W->files[{dir, names[file]}]), slot(h.ops.size())
    {
        FileOp op;
        op.kind = kind;
        op.inv = sim_seq();
        op.res = ~std::uint64_t {0};
        h.ops.push_back(op);
    }
    void done() { h.ops[slot].res = sim_seq(); }
};

void do_step(Step const &s, std::map<std::pair<int, int>, FileState> &state)
{
    std::string from, to;
    bool exists, to_exists;
    std::size_t size;
    {
        Ignore ig;
        from = (dir_path(s.dir) / names[s.file]).string();
        to = (dir_path(s.to_dir) / names[s.to_file]).string();
        exists = state[{s.dir, s.file}].exists;
        to_exists = state[{s.to_dir, s.to_file}].exists;
        size = state[{s.dir, s.file}].size;
    }
    (void)to_exists;
    auto record = [&](int dir, int file, Kind kind) {
        Ignore ig;
        sim_note("%s %s", kind_names[kind], (dir_path(dir) / names[file]).c_str());
        return new Recorder(dir, file, kind);
    };
    auto done = [&](Recorder *r) {
        Ignore ig;
        r->done();
        delete r;
    };
    if (!exists)
    {
        Recorder *r = record(s.dir, s.file, Created);
        int const fd = ::open(from.c_str(), O_CREAT | O_EXCL | O_WRONLY, 0600);
        done(r);
        if (fd < 0) sim_fail("sim:workload", "cannot create %s: errno %d", from.c_str(), errno);
        ::close(fd);
        Ignore ig;
        state[{s.dir, s.file}] = {true, 0};
        return;
    }
    switch (s.what)
    {
        case Create:
        case Write:
        {
            int const fd = ::open(from.c_str(), O_WRONLY | O_APPEND);
            if (fd < 0) sim_fail("sim:workload", "cannot open %s: errno %d", from.c_str(), errno);
            Recorder *r = record(s.dir, s.file, Changed);
            ssize_t const n = ::write(fd, "x", 1);
            done(r);
            ::close(fd);
            if (n != 1) sim_fail("sim:workload", "cannot write %s", from.c_str());
            Ignore ig;
            ++state[{s.dir, s.file}].size;
            break;
        }
        case Truncate:
        {
            if (!size) break;
            Recorder *r = record(s.dir, s.file, Changed);
            int const fd = ::open(from.c_str(), O_WRONLY | O_TRUNC);
            done(r);
            ::close(fd);
            Ignore ig;
            state[{s.dir, s.file}].size = 0;
            break;
        }
        case Unlink:
        {
            Recorder *r = record(s.dir, s.file, Deleted);
            ::unlink(from.c_str());
            done(r);
            Ignore ig;
            state[{s.dir, s.file}] = {};
            break;
        }
        case Rename:
        {
            if (from == to) break;
            Recorder *r1 = record(s.dir, s.file, Deleted);
            Recorder *r2 = record(s.to_dir, s.to_file, Created);
            ::rename(from.c_str(), to.c_str());
            done(r1);
            done(r2);
            Ignore ig;
            state[{s.to_dir, s.to_file}] = {true, size};
            state[{s.dir, s.file}] = {};
            break;
        }
    }
}

void do_reg(PathMonitor &monitor, RegOp &op)
{
    {
        Ignore ig;
        op.called = true;
        op.faults = sim_fault_count(SF_WATCH_FAIL);
        op.inv = sim_seq();
        sim_note("%d: %s %s", op.id, reg_names[op.kind], op.kind == RemoveAll ? "" : (op.file >= 0 ? dir_path(op.dir) / names[op.file] : dir_path(op.dir)).c_str());
    }
    bool ok = true;
    switch (op.kind)
    {
        case AddPath: ok = monitor.add_path(dir_path(op.dir), make_callback(op.handler)); break;
        case RemovePath: ok = monitor.remove_path(dir_path(op.dir)); break;
        case AddFile: ok = monitor.add_file(dir_path(op.dir) / names[op.file], make_callback(op.handler)); break;
        case RemoveFile: ok = monitor.remove_file(dir_path(op.dir) / names[op.file]); break;
        case RemoveAll: monitor.remove_all_paths(); break;
    }
    Ignore ig;
    op.ok = ok;
    op.returned = true;
    op.faults = sim_fault_count(SF_WATCH_FAIL) - op.faults;
    op.res = sim_seq();
    sim_note("%d: -> %d", op.id, ok);
}

// ---- oracle -------------------------------------------------------------------------------------

// Could the operation end the registration `handler`?
bool removes(RegOp const &r, RegOp const &h)
{
    if (!r.called) return false;
    switch (r.kind)
    {
        case RemoveAll: return true;
        case RemovePath: return r.dir == h.dir;
        case RemoveFile: return r.dir == h.dir && h.kind == AddFile && r.file == h.file;
        default: return false;
    }
}
// Does the operation replace the registration?
bool replaces(RegOp const &r, RegOp const &h)
{
    return r.called && r.id != h.id && r.kind == h.kind && r.dir == h.dir && r.file == h.file && (r.kind == AddPath || r.kind == AddFile);
}

// The registration was certainly there during [from, to] and was for this file.
bool certain(RegOp const &h, std::uint64_t from, std::uint64_t to)
{
    if (!h.returned || !h.ok || h.res > from) return false;
    for (RegOp const &r : W->regs)
        if (removes(r, h) && r.res > h.inv && r.inv < to) return false;
    return true;
}

// Some callback for the file was certainly registered during [from, to].
bool covered(int dir, std::string const &name, std::uint64_t from, std::uint64_t to)
{
    for (RegOp const &h : W->regs)
    {
        if (h.kind != AddPath && h.kind != AddFile) continue;
        if (h.dir != dir || (h.kind == AddFile && name != names[h.file])) continue;
        if (certain(h, from, to)) return true;
    }
    return false;
}

// Could anything have been registered for the directory at some time during [from, to]?
bool watched(int dir, std::uint64_t from, std::uint64_t to)
{
    for (RegOp const &h : W->regs)
    {
        if ((h.kind != AddPath && h.kind != AddFile) || h.dir != dir || !h.called || h.inv > to) continue;
        bool gone = h.returned && !h.ok && h.res < from;
        for (RegOp const &r : W->regs)
            if (removes(r, h) && r.returned && h.returned && r.inv > h.res && r.res < from && (r.ok || r.kind == RemoveAll)) gone = true;
        if (!gone) return true;
    }
    return false;
}

void check_event(int dir, std::string const &name, Event const &e)
{
    RegOp const &h = W->regs[static_cast<std::size_t>(e.handler)];
    for (RegOp const &r : W->regs)
    {
        // removed before the callback started
        if (r.id != h.id && removes(r, h) && r.returned && h.returned && r.inv > h.res && r.res < e.start && (r.ok || r.kind == RemoveAll))
            sim_fail("oracle:after-remove", "callback of registration %d (%s) ran after %s (%d) had returned", h.id, reg_names[h.kind], reg_names[r.kind], r.id);
        if (r.id != h.id && removes(r, h) && r.returned && r.ok && h.returned && r.inv > h.res && r.res > e.start && r.res < e.end)
            sim_fail("oracle:during-remove", "callback of registration %d (%s) was still running when %s (%d) returned", h.id, reg_names[h.kind], reg_names[r.kind], r.id);
        if (replaces(r, h) && r.returned && r.ok && h.returned && r.inv > h.res && r.res < e.start)
            sim_fail("oracle:replaced", "callback of registration %d (%s) ran after registration %d had replaced it", h.id, reg_names[h.kind], r.id);
        // precedence
        if (h.kind == AddPath && r.kind == AddFile && r.dir == dir && name == names[r.file] && certain(r, e.start, e.end))
            sim_fail("oracle:precedence", "the directory's callback (%d) was called for a file with a callback of its own (%d)", h.id, r.id);
    }
}

bool explained(int dir, std::string const &name, FileHist const &h)
{
    std::size_t const n = h.ops.size(), m = h.events.size();
    // The events are an ordered subsequence of the operations. An operation may lack an event only if nothing was
    // certainly registered for it, or if it repeats its predecessor, whose event had not been delivered yet.
    // reach[j]: the first i operations can explain the first j events; the bit tells whether the last event
    // delivered belongs to the run of identical operations that operation i - 1 is part of.
    std::vector<std::array<bool, 2>> reach(m + 1, {false, false}), next;
    reach[0][0] = true;
    for (std::size_t i = 0; i < n; ++i)
    {
        next.assign(m + 1, {false, false});
        bool const same = i > 0 && h.ops[i].kind == h.ops[i - 1].kind;
        for (std::size_t j = 0; j <= m; ++j)
            for (int bit = 0; bit < 2; ++bit)
            {
                if (!reach[j][static_cast<std::size_t>(bit)]) continue;
                bool const in_run = same && bit;
                // delivered
                if (j < m && h.events[j].kind == h.ops[i].kind && h.events[j].start > h.ops[i].inv && watched(dir, h.ops[i].inv, h.ops[i].res)) next[j + 1][1] = true;
                // merged with its predecessor, or optional
                if (in_run && h.events[j - 1].start > h.ops[i].inv) next[j][1] = true;
                if (!covered(dir, name, h.ops[i].inv, ~std::uint64_t {0})) next[j][in_run ? 1 : 0] = true;
            }
        reach = next;
    }
    return reach[m][0] || reach[m][1];
}
void check_file(int dir, std::string const &name, FileHist const &h)
{
    std::size_t const n = h.ops.size(), m = h.events.size();
    if (explained(dir, name, h)) return;
    std::string text;
    for (FileOp const &o : h.ops)
        text += std::string(" ") + kind_names[o.kind] + (covered(dir, name, o.inv, ~std::uint64_t {0}) ? "!" : "") + "@" + std::to_string(o.inv);
    text += "; reported:";
    for (Event const &e : h.events) text += std::string(" ") + kind_names[e.kind] + "@" + std::to_string(e.start);
    bool const missing = m < n;
    sim_fail(missing ? "oracle:event-lost" : "oracle:event-invented", "%s/%s: done (! = must be reported):%s", dir_name(dir).c_str(), name.c_str(), text.c_str());
}
bool files_settled()
{
    for (auto const &[key, h] : W->files)
    {
        if (!explained(key.first, key.second, h)) return false;
        for (Event const &e : h.events) if (!e.end) return false;
    }
    return true;
}

// The registrations behave like an atomic map: is there an order of the operations on one directory that explains
// their results?
struct RegState
{
    bool handler = false;
    std::uint32_t files = 0;
    bool operator<(RegState const &o) const { return std::tie(handler, files) < std::tie(o.handler, o.files); }
};
struct Lin
{
    std::vector<RegOp const *> ops;
    std::set<std::pair<std::uint32_t, RegState>> seen;
    bool search(std::uint32_t done, RegState s)
    {
        if (done + 1 == (1u << ops.size())) return true;
        if (!seen.insert({done, s}).second) return false;
        for (std::size_t i = 0; i < ops.size(); ++i)
        {
            if (done & (1u << i)) continue;
            bool first = true;
            for (std::size_t k = 0; k < ops.size(); ++k)
                if (k != i && !(done & (1u << k)) && ops[k]->res < ops[i]->inv) first = false;
            if (!first) continue;
            RegOp const &o = *ops[i];
            RegState t = s;
            std::uint32_t const bit = o.file >= 0 ? 1u << o.file : 0;
            bool const entry = s.handler || s.files;
            switch (o.kind)
            {
                case AddPath:
                    if (!o.ok && !o.faults) continue;
                    if (o.ok) t.handler = true;
                    break;
                case AddFile:
                    if (!o.ok && !o.faults) continue;
                    if (o.ok) t.files |= bit;
                    break;
                case RemovePath:
                    if (o.ok != entry) continue;
                    t = {};
                    break;
                case RemoveFile:
                    if (o.ok != ((s.files & bit) != 0)) continue;
                    t.files &= ~bit;
                    break;
                case RemoveAll: t = {}; break;
            }
            if (search(done | (1u << i), t)) return true;
        }
        return false;
    }
};

void check_registrations()
{
    for (int d = 0; d < W->ndirs; ++d)
    {
        Lin lin;
        for (RegOp const &r : W->regs)
            if (r.called && (r.kind == RemoveAll || r.dir == d)) lin.ops.push_back(&r);
        if (lin.ops.size() > 16) continue;
        if (!lin.search(0, {}))
        {
            std::string text;
            for (RegOp const *r : lin.ops)
                text += " " + std::to_string(r->id) + ":" + reg_names[r->kind] + (r->file >= 0 ? std::string("(") + std::to_string(r->file) + ")" : "") + "->" + (r->ok ? "true" : "false") + "[" + std::to_string(r->inv) + "," +
                    std::to_string(r->res) + "]";
            sim_fail("oracle:registration", "no order explains the results of the operations on %s:%s", dir_name(d).c_str(), text.c_str());
        }
    }
}

void check_all()
{
    for (auto const &[key, h] : W->files)
    {
        for (Event const &e : h.events) check_event(key.first, key.second, e);
        check_file(key.first, key.second, h);
    }
    check_registrations();
}

// ---- scenario -----------------------------------------------------------------------------------
void run_path(bool race, bool faults)
{
    W = new World;
    World &world = *W;
    quiet_default_logger();

    int const nworkers = static_cast<int>(sim_param("workers", 1, 2));
    int const interval = std::array<int, 4> {5, 20, 200, 1000}[static_cast<std::size_t>(sim_param("interval", 0, 3))];
    int const nmut = static_cast<int>(sim_param("mutators", 1, race ? 2 : 3));
    bool const focus = race && sim_param("focus", 0, 1) == 1;
    int const nreg = race ? static_cast<int>(sim_param("registrars", focus ? 2 : 1, 3)) : static_cast<int>(sim_param("registrars", 0, 1));
    world.ndirs = focus ? 1 : static_cast<int>(sim_param("dirs", 1, 3));
    bool const slow = sim_param("slow", 0, 3) == 0;
    bool const release_early = sim_param("release", 0, 5) == 0;
    bool const initial = race ? sim_param("initial", 0, 2) != 0 : true;
    std::int64_t const poll = interval * ms;
    world.root = sim_scratch();
    world.root = std::filesystem::path("r") / "w";
    sim_time_budget(600 * sec);

    // registrations
    auto add_reg = [&](int thread, RegKind kind, int dir, int file) {
        RegOp op;
        op.id = static_cast<int>(world.regs.size());
        op.handler = op.id;
        op.kind = kind;
        op.dir = dir;
        op.file = file;
        op.thread = thread;
        if (coin(focus ? 10 : 50)) op.pause = static_cast<std::int64_t>(R(0, 30)) * ms / 4;
        if (coin(focus ? 2 : 10)) op.pause = static_cast<std::int64_t>(R(0, 3)) * poll / 2;
        std::string const target = kind == RemoveAll ? "" : file >= 0 ? dir_name(dir) + "/" + std::to_string(file) : dir_name(dir);
        if (!sim_op("thread %d: %s %s (pause %ld us)", thread, reg_names[kind], target.c_str(), (long)(op.pause / 1000))) return;
        world.regs.push_back(op);
    };
    std::vector<std::vector<int>> reg_plan(static_cast<std::size_t>(nreg) + 1);
    auto upto = [&](std::size_t who) {
        for (RegOp const &r : world.regs)
        {
            bool in = false;
            for (auto const &p : reg_plan)
                for (int id : p) in = in || id == r.id;
            if (!in) reg_plan[who].push_back(r.id);
        }
    };
    if (initial)
        for (int d = 0; d < world.ndirs; ++d)
        {
            bool const whole = coin(focus ? 10 : 60);
            if (whole) add_reg(0, AddPath, d, -1);
            for (int f = 0; f < NAMES; ++f)
                if (coin(whole || focus ? 30 : 60)) add_reg(0, AddFile, d, f);
        }
    upto(0);
    for (int t = 1; t <= nreg; ++t)
    {
        int const n = static_cast<int>(race ? R(1, 5) : R(1, 3));
        int const home = static_cast<int>(R(0, static_cast<std::uint64_t>(world.ndirs) - 1));
        for (int i = 0; i < n; ++i)
        {
            int const d = coin(75) ? home : static_cast<int>(R(0, static_cast<std::uint64_t>(world.ndirs) - 1));
            int const f = static_cast<int>(race && coin(60) ? R(0, 1) : R(0, NAMES - 1));
            unsigned const pick = static_cast<unsigned>(R(0, 99));
            if (pick < 35) add_reg(t, AddFile, d, f);
            else if (pick < 60) add_reg(t, RemoveFile, d, f);
            else if (pick < 78) add_reg(t, AddPath, d, -1);
            else if (pick < 96) add_reg(t, RemovePath, d, -1);
            else add_reg(t, RemoveAll, 0, -1);
        }
        upto(static_cast<std::size_t>(t));
    }

    // file operations; every file belongs to one thread
    std::vector<std::vector<Step>> plan(static_cast<std::size_t>(nmut));
    for (int t = 0; t < nmut; ++t)
    {
        int const n = static_cast<int>(R(race ? 2 : 3, coin(4) ? 120 : race ? 10 : 22));
        bool const burst = coin(20);
        int const focus_f = static_cast<int>(R(0, 10));
        for (int i = 0; i < n * (burst ? 3 : 1); ++i)
        {
            Step s;
            auto file = [&](int &d, int &f) {
                for (int k = 0; k < 20; ++k)
                {
                    d = static_cast<int>(R(0, static_cast<std::uint64_t>(world.ndirs) - 1));
                    f = focus_f < NAMES && coin(60) ? focus_f : static_cast<int>(R(0, NAMES - 1));
                    if ((d + f) % nmut == t) return;
                }
                for (d = 0; d < world.ndirs; ++d)
                    for (f = 0; f < NAMES; ++f)
                        if ((d + f) % nmut == t) return;
            };
            file(s.dir, s.file);
            s.what = static_cast<What>(std::array<int, 10> {1, 1, 1, 2, 3, 3, 3, 4, 4, 1}[R(0, 9)]);
            s.to_dir = s.dir;
            s.to_file = s.file;
            if (s.what == Rename) file(s.to_dir, s.to_file);
            if (!burst && coin(40)) s.pause = static_cast<std::int64_t>(R(0, 40)) * ms / 4;
            if (!burst && coin(8)) s.pause = static_cast<std::int64_t>(R(0, 4)) * poll / 2;
            static char const *const what_names[] = {"create", "write", "truncate", "unlink", "rename"};
            if (sim_op("mutator %d: %s %s/%d to %s/%d (pause %ld us)", t, what_names[s.what], dir_name(s.dir).c_str(), s.file, dir_name(s.to_dir).c_str(), s.to_file, (long)(s.pause / 1000)))
                plan[static_cast<std::size_t>(t)].push_back(s);
        }
    }

    if (faults)
    {
        if (coin(60)) sim_fault_rate(SF_POLL_DELAY, static_cast<int>(R(500, 3000)));
        if (coin(60)) sim_fault_rate(SF_POLL_FAIL, static_cast<int>(R(300, 3000)));
        if (coin(60)) sim_fault_rate(SF_READ_EAGAIN, static_cast<int>(R(300, 3000)));
        if (coin(60)) sim_fault_rate(SF_EVENT_SPLIT, static_cast<int>(R(1000, 8000)));
        if (coin(40)) sim_fault_rate(SF_EINTR, static_cast<int>(R(300, 2000)));
        if (coin(30)) sim_fault_rate(SF_WATCH_FAIL, static_cast<int>(R(300, 3000)));
        sim_fault_cap(SF_POLL_FAIL, 30);
        sim_fault_cap(SF_READ_EAGAIN, 30);
        sim_fault_cap(SF_EINTR, 30);
    }
    else
    {
        if (coin(40)) sim_fault_rate(SF_POLL_DELAY, static_cast<int>(R(500, 3000)));
        if (coin(40)) sim_fault_rate(SF_EVENT_SPLIT, static_cast<int>(R(1000, 8000)));
    }

    ::mkdir(world.root.c_str(), 0700);
    for (int d = 0; d < world.ndirs; ++d) ::mkdir(dir_path(d).c_str(), 0700);

    auto manager = TaskManager::create(static_cast<std::uint32_t>(nworkers));
    auto runner = SequencedTaskRunner::create(manager);
    world.slow = slow ? static_cast<std::int64_t>(R(1, 30)) * ms : 0;
    int const inotify0 = sim_inotify_open();
    sim_faults_enable(1);
    int const f0 = sim_fault_count(SF_WATCH_FAIL);
    auto *monitor = new std::shared_ptr<PathMonitor>(PathMonitor::create(runner, std::make_shared<PathCfg>(interval)));
    if (!*monitor)
    {
        if (sim_fault_count(SF_WATCH_FAIL) == f0) sim_fail("oracle:create", "the path monitor was not created");
        sim_probe(0);
        sim_faults_enable(0);
        manager->stop();
        sim_stop();
        return;
    }
    for (int id : reg_plan[0]) do_reg(**monitor, world.regs[static_cast<std::size_t>(id)]);

    Threads threads;
    for (int t = 0; t < nmut; ++t)
        threads.start([&, t]() {
            std::map<std::pair<int, int>, FileState> state;
            for (Step const &s : plan[static_cast<std::size_t>(t)])
            {
                if (s.pause) sim_sleep_ns(s.pause);
                do_step(s, state);
            }
        });
    for (int t = 1; t <= nreg; ++t)
        threads.start([&, t, shared = *monitor]() mutable {
            auto const own = std::move(shared);
            for (int id : reg_plan[static_cast<std::size_t>(t)])
            {
                RegOp &op = world.regs[static_cast<std::size_t>(id)];
                if (op.pause) sim_sleep_ns(op.pause);
                do_reg(*own, op);
            }
        });
    std::weak_ptr<PathMonitor> weak = *monitor;
    auto dead = [&]() {
        if (!weak.expired()) return false;
        // the last strong reference is gone; the destructor may still be running
        if (sim_inotify_open() != inotify0) return false;
        if (!world.dead) world.dead = sim_seq();
        return true;
    };
    bool const early = release_early && sim_op("main: release the path monitor early");
    if (early)
    {
        sim_sleep_ns(static_cast<std::int64_t>(R(0, 20)) * ms);
        {
            Ignore ig;
            sim_note("release");
            world.released = true;
        }
        monitor->reset();
    }
    threads.join();
    sim_drain();
    if (!early)
    {
        bool const ok = wait_until(files_settled, 5 * poll + 5 * sec + 200 * world.slow, 10 * ms);
        if (ok) sim_sleep_ns(2 * poll + 30 * ms + (slow ? 100 * world.slow : 0)); // anything in excess shows up
        {
            Ignore ig;
            check_all();
        }
        {
            Ignore ig;
            sim_note("release");
            world.released = true;
        }
        monitor->reset();
    }
    else sim_probe(1);
    if (!wait_until(dead, 3 * poll + 5 * sec + 200 * world.slow, 10 * ms))
        sim_fail("oracle:release", weak.expired() ? "the path monitor did not close its descriptor" : "the path monitor was not destroyed after its release");
    sim_sleep_ns(poll + 20 * ms);
    {
        Ignore ig;
        if (early)
        {
            // events may be lost, but none may be invented, nor delivered to a removed callback
            for (auto const &[key, h] : W->files)
                for (Event const &e : h.events) check_event(key.first, key.second, e);
            check_registrations();
        }
        for (auto const &[key, h] : W->files)
            if (!h.events.empty()) sim_probe(2);
        if (sim_fault_count(SF_WATCH_FAIL) > f0) sim_probe(3);
    }
    manager->stop();
    sim_stop();
}

// Monitors that come and go next to each other, and directories that are deleted and made again.
struct Got
{
    std::vector<std::pair<std::string, Kind>> events;
    bool gone = false;
};
void run_life()
{
    quiet_default_logger();
    int const nthreads = static_cast<int>(sim_param("threads", 1, 3));
    int const interval = std::array<int, 3> {5, 20, 200}[static_cast<std::size_t>(sim_param("interval", 0, 2))];
    std::int64_t const poll = interval * ms;
    sim_time_budget(600 * sec);
    enum { Expect, Recreate, RecreateRemoved, Renew };
    struct Plan
    {
        std::vector<std::vector<int>> rounds; // what is done with each monitor
        std::vector<std::int64_t> pause;
        std::vector<int> by_file;
        std::vector<bool> first;
        std::vector<bool> wait;               // wait for the monitor to be gone
    };
    std::vector<Plan> plan(static_cast<std::size_t>(nthreads));
    for (int t = 0; t < nthreads; ++t)
    {
        Plan &p = plan[static_cast<std::size_t>(t)];
        std::uint64_t const n = R(1, coin(4) ? 30 : 4);
        for (std::uint64_t i = 0; i < n; ++i)
        {
            std::vector<int> steps;
            static char const *const what[] = {"create and delete a file", "replace the directory and add it again", "remove the directory, replace it and add it again", "add the directory again"};
            for (std::uint64_t k = R(0, 3); k > 0; --k)
            {
                int const w = static_cast<int>(R(0, 3));
                if (sim_op("thread %d, monitor %d: %s", t, (int)i, what[w])) steps.push_back(w);
            }
            int const by_file = static_cast<int>(R(0, 1));
            std::int64_t const pause = coin(60) ? 0 : static_cast<std::int64_t>(R(0, 20)) * ms;
            bool const wait = coin(30), first = coin(50);
            if (!sim_op("thread %d: monitor %d (%s)", t, (int)i, by_file ? "add_file" : "add_path")) continue;
            p.rounds.push_back(steps);
            p.pause.push_back(pause);
            p.by_file.push_back(by_file);
            p.wait.push_back(wait);
            p.first.push_back(first);
        }
    }
    if (coin(40)) sim_fault_rate(SF_POLL_DELAY, static_cast<int>(R(500, 3000)));
    auto manager = TaskManager::create(static_cast<std::uint32_t>(R(1, 3)));
    int const inotify0 = sim_inotify_open();
    sim_faults_enable(1);
    Threads threads;
    for (int t = 0; t < nthreads; ++t)
        threads.start([&, t]() {
            Plan const &p = plan[static_cast<std::size_t>(t)];
            std::string const dir = "r/life" + std::to_string(t), file = dir + "/f";
            auto runner = SequencedTaskRunner::create(manager);
            ::mkdir(dir.c_str(), 0700);
            for (std::size_t i = 0; i < p.rounds.size(); ++i)
            {
                auto got = std::make_shared<Got>();
                if (p.pause[i]) sim_sleep_ns(p.pause[i]);
                auto monitor = PathMonitor::create(runner, std::make_shared<PathCfg>(interval));
                if (!monitor) sim_fail("oracle:create", "the path monitor was not created");
                auto add = [&]() {
                    auto callback = [got](std::filesystem::path path, PathEvent event) {
                        Ignore ig;
                        sim_note("callback %s %s", path.c_str(), kind_names[kind_of(event)]);
                        if (got->gone) sim_fail("oracle:after-release", "a callback ran after the path monitor had been destroyed");
                        got->events.emplace_back(path.string(), kind_of(event));
                    };
                    bool const ok = p.by_file[i] ? monitor->add_file(file, callback) : monitor->add_path(dir, callback);
                    if (!ok) sim_fail("oracle:add", "an existing directory could not be added");
                    Ignore ig;
                    sim_note("added %s", dir.c_str());
                };
                // a file is made and deleted again; both must be reported
                auto expect = [&](char const *when) {
                    std::size_t base;
                    {
                        Ignore ig;
                        base = got->events.size();
                        sim_note("expect");
                    }
                    int const fd = ::open(file.c_str(), O_CREAT | O_EXCL | O_WRONLY, 0600);
                    if (fd < 0) sim_fail("sim:workload", "cannot create %s: errno %d", file.c_str(), errno);
                    ::close(fd);
                    ::unlink(file.c_str());
                    if (!wait_until([&]() { return got->events.size() >= base + 2; }, 20 * poll + 10 * sec, 5 * ms))
                        sim_fail("oracle:event-lost", "%s: %zu of 2 events were reported for %s", when, got->events.size() - base, file.c_str());
                    Ignore ig;
                    if (got->events.size() != base + 2 || got->events[base] != std::make_pair(file, Created) || got->events[base + 1] != std::make_pair(file, Deleted))
                        sim_fail("oracle:event-invented", "%s: wrong events were reported for %s", when, file.c_str());
                };
                add();
                if (p.first[i] || p.rounds[i].empty()) expect("new monitor");
                for (int w : p.rounds[i])
                {
                    switch (w)
                    {
                        case Expect: expect("again"); break;
                        case Renew:
                            add();
                            expect("added twice");
                            break;
                        case RecreateRemoved:
                        case Recreate:
                            if (w == RecreateRemoved)
                                if (!(p.by_file[i] ? monitor->remove_file(file) : monitor->remove_path(dir))) sim_fail("oracle:remove", "a monitored path could not be removed");
                            ::rmdir(dir.c_str());
                            sim_point();
                            ::mkdir(dir.c_str(), 0700);
                            add();
                            expect("directory replaced");
                            break;
                    }
                    sim_probe(w);
                }
                std::weak_ptr<PathMonitor> weak = monitor;
                {
                    Ignore ig;
                    sim_note("release");
                }
                monitor.reset();
                if (p.wait[i])
                {
                    if (!wait_until([&]() { return weak.expired(); }, 3 * poll + 10 * sec, 5 * ms)) sim_fail("oracle:release", "the path monitor was not destroyed after its release");
                }
            }
        });
    threads.join();
    sim_drain();
    if (!wait_until([&]() { return sim_inotify_open() == inotify0; }, 3 * poll + 10 * sec, 5 * ms)) sim_fail("oracle:release", "a path monitor did not close its descriptor");
    manager->stop();
    sim_stop();
}

// The same directory monitored under two spellings of its name.
void run_alias()
{
    quiet_default_logger();
    sim_time_budget(600 * sec);
    std::string const dir = "r/alias";
    static char const *const spellings[] = {"r/alias", "r/alias/", "r/./alias", "./r/alias"};
    int const first = static_cast<int>(sim_param("first", 0, 3)), second = static_cast<int>(sim_param("second", 0, 3));
    int const remove = static_cast<int>(sim_param("remove", 0, 2));
    auto manager = TaskManager::create(1);
    auto runner = SequencedTaskRunner::create(manager);
    ::mkdir(dir.c_str(), 0700);
    auto monitor = PathMonitor::create(runner, std::make_shared<PathCfg>(20));
    if (!monitor) sim_fail("oracle:create", "the path monitor was not created");
    auto got = std::make_shared<std::array<int, 2>>();
    auto add = [&](int which, int spelling) {
        bool const ok = monitor->add_path(spellings[spelling], [got, which](std::filesystem::path, PathEvent) {
            Ignore ig;
            ++(*got)[static_cast<std::size_t>(which)];
        });
        if (!ok) sim_fail("oracle:add", "an existing directory could not be added");
    };
    if (first == second)
    {
        add(0, first);
        add(1, second); // replaces the first registration
    }
    else
    {
        add(0, first);
        add(1, second);
        sim_probe(0);
    }
    if (remove && first != second && !monitor->remove_path(spellings[remove == 1 ? first : second])) sim_fail("oracle:remove", "a monitored path could not be removed");
    ::close(::open("r/alias/f", O_CREAT | O_EXCL | O_WRONLY, 0600));
    bool const want[2] = {first != second && remove != 1, first == second || remove != 2};
    bool const ok = wait_until([&]() { return (*got)[0] >= want[0] && (*got)[1] >= want[1]; }, 5 * sec, 10 * ms);
    sim_drain();
    monitor.reset();
    sim_sleep_ns(sec);
    manager->stop();
    if (!ok)
        sim_fail(first == second ? "oracle:event-lost" : "oracle:alias-event-lost", "monitored as %s%s and as %s%s: reported %d and %d times", spellings[first], remove == 1 ? " (removed)" : "", spellings[second],
            remove == 2 ? " (removed)" : "", (*got)[0], (*got)[1]);
    for (int i = 0; i < 2; ++i)
        if ((*got)[static_cast<std::size_t>(i)] > want[i]) sim_fail("oracle:after-remove", "an event was reported to a registration that is gone, or twice");
    sim_stop();
}

// Monitors whose registrations come and go one after the other, beside each other and below each other, against a
// map of what is registered; the system has few watches to give.
struct Mine // what one monitor has registered
{
    std::map<std::string, int> path;
    std::map<std::string, int> file;
};
using Report = std::tuple<int, int, std::string, Kind>; // monitor, registration, path, what happened
std::string text_of(std::vector<Report> const &list)
{
    std::string text;
    for (auto const &[m, id, path, kind] : list) text += " " + std::to_string(m) + "/" + std::to_string(id) + ":" + kind_names[kind] + " " + (path.size() > 40 ? path.substr(0, 40) + "..." : path);
    return text.empty() ? " nothing" : text;
}
void run_many()
{
    quiet_default_logger();
    sim_time_budget(1200 * sec);
    int const nmonitors = static_cast<int>(sim_param("monitors", 1, 3));
    int const ndirs = amount("directories", 2, 6, 30, 10);
    int const interval = std::array<int, 3> {5, 20, 200}[static_cast<std::size_t>(sim_param("interval", 0, 2))];
    int const shared_runner = static_cast<int>(sim_param("shared_runner", 0, 1));
    std::int64_t const poll = interval * ms;
    struct Op { RegKind kind; int monitor, dir, file; bool touch; int touch_dir, touch_file; bool quiet; int refused; };
    std::vector<Op> plan;
    bool const growing = coin(30); // mostly additions
    for (std::uint64_t i = R(4, coin(4) ? 300 : 40); i > 0; --i)
    {
        Op o;
        std::uint64_t const pick = R(0, 99);
        if (growing) o.kind = pick < 40 ? AddFile : pick < 80 ? AddPath : pick < 91 ? RemoveFile : pick < 99 || coin(60) ? RemovePath : RemoveAll;
        else o.kind = pick < 32 ? AddFile : pick < 50 ? AddPath : pick < 74 ? RemoveFile : pick < 95 ? RemovePath : RemoveAll;
        o.monitor = static_cast<int>(R(0, static_cast<std::uint64_t>(nmonitors) - 1));
        o.dir = static_cast<int>(R(0, static_cast<std::uint64_t>(ndirs) - 1));
        o.file = static_cast<int>(R(0, NAMES - 1));
        o.touch = coin(60);
        o.touch_dir = coin(75) ? o.dir : static_cast<int>(R(0, static_cast<std::uint64_t>(ndirs) - 1));
        o.touch_file = coin(60) ? o.file : static_cast<int>(R(0, NAMES));
        o.refused = coin(12) ? static_cast<int>(R(1, 5)) : 0; // tried first: a registration that nothing could be reported to or for
        o.quiet = coin(25); // the touched file is not waited for when no report is due
        if (sim_op("%s of monitor %d: directory %d, file %d, then %s (%d, %d)", reg_names[o.kind], o.monitor, o.dir, o.file, o.touch ? "make and delete a file" : "nothing", o.touch_dir, o.touch_file)) plan.push_back(o);
    }
    if (coin(40)) sim_fault_rate(SF_POLL_DELAY, static_cast<int>(R(500, 3000)));
    if (coin(40)) sim_fault_rate(SF_EVENT_SPLIT, static_cast<int>(R(1000, 8000)));
    int const slack = static_cast<int>(R(0, 2));

    auto manager = TaskManager::create(static_cast<std::uint32_t>(R(1, 3)));
    int const inotify0 = sim_inotify_open();
    auto const first = SequencedTaskRunner::create(manager);
    // half of the directories are inside the other half
    auto dir_of = [](int d) { return d % 2 ? "r/many" + std::to_string(d - 1) + "/inside" : "r/many" + std::to_string(d); };
    std::string const extra = "new";
    auto name_of = [&](int f) { return f < NAMES ? std::string(names[f]) : extra; };
    for (int d = 0; d < ndirs; ++d) ::mkdir(dir_of(d).c_str(), 0700);
    sim_faults_enable(1);
    std::vector<std::shared_ptr<PathMonitor>> monitors;
    for (int m = 0; m < nmonitors; ++m)
    {
        monitors.push_back(PathMonitor::create(shared_runner ? first : SequencedTaskRunner::create(manager), std::make_shared<PathCfg>(interval)));
        if (!monitors.back()) sim_fail("oracle:create", "the path monitor was not created");
    }
    std::vector<Mine> model(static_cast<std::size_t>(nmonitors));
    auto got = std::make_shared<std::vector<Report>>();
    int next_id = 0;
    std::vector<std::size_t> seen(static_cast<std::size_t>(nmonitors), 0);
    auto live = [&]() {
        std::set<std::pair<int, std::string>> dirs;
        for (int m = 0; m < nmonitors; ++m)
        {
            for (auto const &[p, id] : model[static_cast<std::size_t>(m)].path) dirs.emplace(m, p);
            for (auto const &[p, id] : model[static_cast<std::size_t>(m)].file) dirs.emplace(m, p.substr(0, p.rfind('/')));
        }
        return static_cast<int>(dirs.size());
    };
    for (Op const &o : plan)
    {
        Mine &mine = model[static_cast<std::size_t>(o.monitor)];
        std::string const dir = dir_of(o.dir), file = dir + "/" + names[o.file];
        PathMonitor &monitor = *monitors[static_cast<std::size_t>(o.monitor)];
        if (o.refused)
        {
            auto const never = [](std::filesystem::path path, PathEvent) { sim_fail("oracle:event-invented", "%s is reported to a registration that was refused", path.c_str()); };
            bool taken = false;
            switch (o.refused)
            {
                case 1: taken = monitor.add_path(dir, nullptr); break;
                case 2: taken = monitor.add_file(file, nullptr); break;
                case 3: taken = monitor.add_path(dir + "/missing", never); break;
                case 4: taken = monitor.add_file(dir + "/missing/" + names[o.file], never); break;
                case 5: taken = monitor.add_file(dir, never); break;
            }
            if (taken) sim_fail("oracle:refused", "a registration (%d) which cannot report anything was accepted", o.refused);
            sim_probe(4);
        }
        int const id = next_id++;
        bool ok = true, want = true;
        auto const callback = [got, id, m = o.monitor](std::filesystem::path path, PathEvent event) {
            Ignore ig;
            sim_note("monitor %d, registration %d: %s %s", m, id, path.c_str(), kind_names[kind_of(event)]);
            got->emplace_back(m, id, path.string(), kind_of(event));
        };
        {
            Ignore ig;
            sim_note("%d: %s of monitor %d: %s", id, reg_names[o.kind], o.monitor, o.kind == AddFile || o.kind == RemoveFile ? file.c_str() : dir.c_str());
        }
        // only as many watches as this needs
        int before = live();
        switch (o.kind)
        {
            case AddPath: mine.path[dir] = id; break;
            case AddFile: mine.file[file] = id; break;
            case RemovePath:
                want = mine.path.erase(dir) > 0;
                for (int f = 0; f < NAMES; ++f) want = mine.file.erase(dir + "/" + names[f]) > 0 || want;
                break;
            case RemoveFile: want = mine.file.erase(file) > 0; break;
            case RemoveAll: mine = {}; break;
        }
        int const after = live();
        if (after > before) sim_probe(0);
        if (after < before) sim_probe(1);
        sim_inotify_watch_limit(std::max(before, after) + slack);
        switch (o.kind)
        {
            case AddPath: ok = monitor.add_path(dir, callback); break;
            case AddFile: ok = monitor.add_file(file, callback); break;
            case RemovePath: ok = monitor.remove_path(dir); break;
            case RemoveFile: ok = monitor.remove_file(file); break;
            case RemoveAll: monitor.remove_all_paths(); break;
        }
        if (ok != want)
        {
            Ignore ig;
            sim_fail(o.kind == AddPath || o.kind == AddFile ? "oracle:add" : "oracle:registration", "%s (%d) of monitor %d for %s returned %d with %d directories registered", reg_names[o.kind], id, o.monitor,
                o.kind == AddFile || o.kind == RemoveFile ? file.c_str() : dir.c_str(), ok, before);
        }
        if (!o.touch) continue;
        std::string const where = dir_of(o.touch_dir), what = where + "/" + name_of(o.touch_file);
        bool const as_dir = o.touch_file == NAMES; // a directory comes and goes like a file
        std::vector<std::vector<Report>> due(static_cast<std::size_t>(nmonitors));
        std::size_t base, total = 0;
        bool watched = false; // an event of a watched directory may go to whoever is registered when it is read
        {
            Ignore ig;
            for (int m = 0; m < nmonitors; ++m)
            {
                Mine const &mm = model[static_cast<std::size_t>(m)];
                watched = watched || mm.path.count(where);
                for (int i = 0; i < NAMES; ++i) watched = watched || mm.file.count(where + "/" + names[i]);
                auto const f = mm.file.find(what);
                auto const p = mm.path.find(where);
                int const who = f != mm.file.end() ? f->second : p != mm.path.end() ? p->second : -1;
                if (who < 0) continue;
                due[static_cast<std::size_t>(m)] = {{m, who, what, Created}, {m, who, what, Deleted}};
                total += 2;
            }
            base = got->size();
            sim_note("make and delete %s", what.c_str());
        }
        if (as_dir)
        {
            ::mkdir(what.c_str(), 0700);
            ::rmdir(what.c_str());
        }
        else
        {
            ::close(::open(what.c_str(), O_CREAT | O_EXCL | O_WRONLY, 0600));
            ::unlink(what.c_str());
        }
        if (total) sim_probe(2);
        else if (o.quiet && !watched)
        {
            sim_probe(3);
            continue; // whatever happens next must not report this
        }
        wait_until([&]() { return got->size() >= base + total; }, 20 * poll + 10 * sec, 5 * ms);
        // whatever else there is to report has been reported when nothing is left to read and nobody is at it
        if (!wait_until([]() { return sim_inotify_pending() == 0; }, 20 * poll + 10 * sec, 5 * ms)) sim_fail("oracle:stuck", "a path monitor did not read its events");
        sim_sleep_ns(100 * ms);
        for (auto const &m : monitors) m->remove_path("r/never added");
        Ignore ig;
        std::vector<Report> all(got->begin() + static_cast<std::ptrdiff_t>(base), got->end());
        for (int m = 0; m < nmonitors; ++m)
        {
            std::vector<Report> his;
            for (Report const &r : all)
                if (std::get<0>(r) == m) his.push_back(r);
            if (his != due[static_cast<std::size_t>(m)])
                sim_fail(his.size() < due[static_cast<std::size_t>(m)].size() ? "oracle:event-lost" : "oracle:event-invented", "monitor %d, after %d: %s was made and deleted; due:%s; reported:%s", m, id, what.c_str(),
                    text_of(due[static_cast<std::size_t>(m)]).c_str(), text_of(his).c_str());
        }
    }
    sim_drain();
    std::size_t const before = got->size();
    monitors.clear();
    if (!wait_until([&]() { return sim_inotify_open() == inotify0; }, 3 * poll + 10 * sec, 5 * ms)) sim_fail("oracle:release", "a path monitor did not close its descriptor");
    if (got->size() != before) sim_fail("oracle:event-invented", "events were reported that had been reported, or were not due");
    manager->stop();
    sim_stop();
}

} // namespace

SIM_SCENARIO(path_many, 2, "watch_added", "watch_removed", "reported", "unwatched", "refused") { run_many(); }
SIM_SCENARIO(path_alias, 1, "two_spellings") { run_alias(); }
SIM_SCENARIO(path_life, 2, "expected", "replaced", "removed_and_replaced", "added_twice") { run_life(); }
SIM_SCENARIO(path_watch, 3, "create_failed", "released_early", "events", "watch_failed") { run_path(false, true); }
SIM_SCENARIO(path_race, 3, "create_failed", "released_early", "events", "watch_failed") { run_path(true, false); }
