// T01 - T07: task manager and task runners.
#include "common.hpp"

#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"

#include <chrono>
#include <optional>
#include <system_error>

using namespace sim;
using namespace fly::task;

namespace {

enum TaskKind { Plain, Reply, ReplyVoid, Owned, OwnedReply, OwnedReplyVoid, NumKinds };
char const *const kind_names[] = {"task", "task+reply", "task+void reply", "owned task", "owned task+reply", "owned task+void reply"};

// Features that a scenario enables.
struct Cfg
{
    unsigned reply_pct = 30, owner_pct = 25, delay_pct = 20, nested_pct = 20, seq_pct = 60;
    unsigned restart_pct = 30;  // main thread stops and starts the manager
    unsigned release_pct = 20;  // owners / runners are released during the run
    unsigned gate_pct = 0;      // gated releases
    unsigned block_pct = 0;     // long-blocking tasks (T07)
    int max_ops = 14;
    unsigned clock_pct = 20;    // wall clock steps
};

struct Owner
{
    int id;
    std::uint64_t magic = 0x1234567812345678ULL;
    std::uint64_t touched = 0;
    explicit Owner(int i) : id(i) {}
    ~Owner();
};

struct Body
{
    std::int64_t sleep = 0;
    int points = 0;
    int nested = -1; // index of the task posted from within this one
};

struct Rec
{
    int id = 0;
    int runner = 0;
    TaskKind kind = Plain;
    std::int64_t delay = 0; // -1: immediate
    int owner = -1;
    Body body;
    bool nested = false;
    bool lvalue = false; // posted from callables that the caller keeps, and destroys right after the post
    // history
    bool posted = false, post_done = false, accepted = false;
    std::uint64_t post_inv = 0, post_res = 0;
    std::int64_t t_inv = 0, t_res = 0;
    int starts = 0, ends = 0, rstarts = 0, rends = 0;
    std::uint64_t start = 0, end = 0, rstart = 0, rend = 0;
    std::int64_t t_start = 0, t_end = 0;
    std::uint64_t result = 0, reply_got = 0;
    bool must_not_run = false;
};

struct World;
World *W;

struct World
{
    Cfg cfg;
    std::vector<Rec> tasks;
    std::vector<bool> seq;                        // runner is sequenced
    std::vector<std::shared_ptr<TaskRunner>> runners;
    std::vector<std::weak_ptr<TaskRunner>> weak_runners;
    std::vector<bool> runner_released;
    std::vector<std::shared_ptr<Owner>> owners;
    std::vector<std::weak_ptr<Owner>> weak_owners;
    std::vector<bool> owner_released;
    std::vector<std::uint64_t> owner_dead; // sequence number of the destructor
    std::vector<int> active;        // tasks active per runner
    std::vector<std::uint64_t> plain; // per runner, touched only by its (sequenced) tasks
    std::vector<std::uint64_t> ran;   // plain flags written by the tasks, read after stop
    std::shared_ptr<TaskManager> manager;
    bool running = true;
    std::uint64_t stop_res = 0;
    int total_active = 0;
    bool quiet = false;               // no task may start now
    // blocking tasks
    int gates_open = 0;
    int gates_waiting = 0;
    std::vector<std::weak_ptr<std::uint64_t>> payloads; // what the tasks captured
};

Owner::~Owner()
{
    magic = 0xdeaddeaddeaddeadULL;
    Ignore ig;
    if (W != nullptr) W->owner_dead[static_cast<std::size_t>(id)] = sim_seq();
}

void post(int id);

std::uint64_t value_of(int id) { return 0x9e3779b97f4a7c15ULL * static_cast<std::uint64_t>(id + 1); }

void enter(int id, bool reply, std::shared_ptr<Owner> const *owner)
{
    Ignore ig;
    Rec &r = W->tasks[static_cast<std::size_t>(id)];
    std::size_t const rn = static_cast<std::size_t>(r.runner);
    sim_note("%s %d starts (runner %d)", reply ? "reply" : "task", id, r.runner);
    int &n = reply ? r.rstarts : r.starts;
    if (++n > 1) sim_fail("oracle:executed-twice", "%s %d (%s) was executed twice", reply ? "the reply of task" : "task", id, kind_names[r.kind]);
    (reply ? r.rstart : r.start) = sim_seq();
    if (!reply) r.t_start = sim_now();
    if (!r.posted) sim_fail("oracle:not-posted", "task %d was executed without being posted", id);
    if (W->quiet) sim_fail("oracle:ran-while-stopped", "%s %d started although the task manager is stopped", reply ? "reply" : "task", id);
    if (r.must_not_run)
        sim_fail("oracle:ran-after-expiry", "%s %d started although its owner or runner was gone before it could start", reply ? "reply" : "task", id);
    if (!reply && r.delay >= 0 && r.t_start < r.t_inv + r.delay * ms)
        sim_fail("oracle:early", "task %d with a delay of %ld ms started after %ld ns", id, (long)r.delay, (long)(r.t_start - r.t_inv));
    if (owner != nullptr)
    {
        if (!*owner || (*owner)->magic != 0x1234567812345678ULL || (*owner)->id != r.owner)
            sim_fail("oracle:dead-owner", "%s %d was executed without a live owner", reply ? "reply" : "task", id);
        if (W->owner_dead[static_cast<std::size_t>(r.owner)])
            sim_fail("oracle:dead-owner", "%s %d was executed after its owner was destroyed", reply ? "reply" : "task", id);
    }
    if (W->weak_runners[rn].expired())
        sim_fail("oracle:dead-runner", "%s %d is executing although its task runner is gone", reply ? "reply" : "task", id);
    if (reply && r.ends == 0) sim_fail("oracle:reply-before-task", "the reply of task %d was executed before the task completed", id);
    if (W->seq[rn] && W->active[rn] != 0)
        sim_fail("oracle:overlap", "%s %d started on sequenced runner %d while another task of it is executing", reply ? "reply" : "task", id, r.runner);
    ++W->active[rn];
    ++W->total_active;
}

void leave(int id, bool reply, std::shared_ptr<Owner> const *owner)
{
    Ignore ig;
    Rec &r = W->tasks[static_cast<std::size_t>(id)];
    std::size_t const rn = static_cast<std::size_t>(r.runner);
    if (W->quiet) sim_fail("oracle:running-while-stopped", "%s %d is still executing although stop() returned", reply ? "reply" : "task", id);
    if (W->weak_runners[rn].expired())
        sim_fail("oracle:dead-runner", "%s %d is executing although its task runner is gone", reply ? "reply" : "task", id);
    if (owner != nullptr && (*owner)->magic != 0x1234567812345678ULL)
        sim_fail("oracle:dead-owner", "the owner of %s %d was destroyed while it executes", reply ? "reply" : "task", id);
    ++(reply ? r.rends : r.ends);
    (reply ? r.rend : r.end) = sim_seq();
    if (!reply) r.t_end = sim_now();
    --W->active[rn];
    --W->total_active;
    sim_note("%s %d ends", reply ? "reply" : "task", id);
}

void body(int id, bool reply, std::shared_ptr<Owner> const *owner)
{
    enter(id, reply, owner);
    std::size_t const rn = static_cast<std::size_t>(W->tasks[static_cast<std::size_t>(id)].runner);
    bool is_seq;
    Body b;
    {
        Ignore ig;
        is_seq = W->seq[rn];
        b = W->tasks[static_cast<std::size_t>(id)].body;
    }
    if (is_seq) ++*(W->plain.data() + rn); // plain memory: ordered only by the runner
    if (!reply) *(W->ran.data() + id) = 1;
    if (owner != nullptr) { Ignore ig; ++(*owner)->touched; }
    for (int i = 0; i < b.points; ++i) sim_point();
    if (!reply && b.nested >= 0) post(b.nested);
    if (b.sleep) sim_sleep_ns(b.sleep);
    leave(id, reply, owner);
}

// Posts task `id` on its runner through the public API.
void post(int id)
{
    std::shared_ptr<TaskRunner> runner;
    std::weak_ptr<Owner> owner;
    TaskKind kind;
    std::int64_t delay;
    bool lvalue;
    {
        Ignore ig;
        Rec &r = W->tasks[static_cast<std::size_t>(id)];
        lvalue = r.lvalue;
        runner = W->runners[static_cast<std::size_t>(r.runner)];
        if (!runner)
        {
            sim_note("task %d: its runner is gone", id);
            return;
        }
        if (r.owner >= 0) owner = W->weak_owners[static_cast<std::size_t>(r.owner)];
        kind = r.kind;
        delay = r.delay;
        r.posted = true;
        r.post_inv = sim_seq();
        r.t_inv = sim_now();
        sim_note("post %d (%s, delay %ld) on runner %d", id, kind_names[kind], (long)delay, r.runner);
    }
    auto payload = std::make_shared<std::uint64_t>(value_of(id)); // written here, read by the task
    bool ok = false;
    auto const d = std::chrono::milliseconds(delay);
    auto run = [id, payload]() {
        body(id, false, nullptr);
        if (*payload != value_of(id)) sim_fail("oracle:payload", "task %d lost its captured state", id);
    };
    auto run_owned = [id, payload](std::shared_ptr<Owner> self) {
        body(id, false, &self);
        if (*payload != value_of(id)) sim_fail("oracle:payload", "task %d lost its captured state", id);
    };
    auto got = [](int i, std::uint64_t v) {
        if (v != value_of(i) + 1) sim_fail("oracle:reply-value", "the reply of task %d received %lu instead of the task's result", i, (unsigned long)v);
    };
    // Posts `task` (and `reply`), either giving the callables away or keeping them.
    auto submit = [&](auto signature, auto task, auto &&call) {
        if (!lvalue) return call(std::move(task));
        auto kept = std::make_unique<std::function<std::remove_pointer_t<decltype(signature)>>>(std::move(task));
        bool const accepted = call(*kept);
        if (!*kept) sim_fail("oracle:callable-taken", "posting task %d took the caller's callable away", id);
        return accepted;
    };
    auto submit_reply = [&](auto signature, auto task, auto reply_signature, auto reply, auto &&call) {
        if (!lvalue) return call(std::move(task), std::move(reply));
        auto kept = std::make_unique<std::function<std::remove_pointer_t<decltype(signature)>>>(std::move(task));
        auto kept_reply = std::make_unique<std::function<std::remove_pointer_t<decltype(reply_signature)>>>(std::move(reply));
        bool const accepted = call(*kept, *kept_reply);
        if (!*kept || !*kept_reply) sim_fail("oracle:callable-taken", "posting task %d took the caller's callable away", id);
        return accepted;
    };
    auto post_reply = [&](auto &&task, auto &&reply) {
        using T = decltype(task);
        using R2 = decltype(reply);
        return delay < 0 ? runner->post_task_with_reply(FROM_HERE, std::forward<T>(task), std::forward<R2>(reply))
                         : runner->post_task_with_delay_and_reply(FROM_HERE, d, std::forward<T>(task), std::forward<R2>(reply));
    };
    auto post_owned_reply = [&](auto &&task, auto &&reply) {
        using T = decltype(task);
        using R2 = decltype(reply);
        return delay < 0 ? runner->post_task_with_reply(FROM_HERE, owner, std::forward<T>(task), std::forward<R2>(reply))
                         : runner->post_task_with_delay_and_reply(FROM_HERE, owner, d, std::forward<T>(task), std::forward<R2>(reply));
    };
    using Self = std::shared_ptr<Owner>;
    using Result = std::vector<std::uint64_t>;
    switch (kind)
    {
        case Plain:
            ok = submit(static_cast<void (*)()>(nullptr), run, [&](auto &&task) {
                using T = decltype(task);
                return delay < 0 ? runner->post_task(FROM_HERE, std::forward<T>(task)) : runner->post_task_with_delay(FROM_HERE, d, std::forward<T>(task));
            });
            break;
        case Reply:
        {
            auto task = [run, id]() mutable -> Result { run(); return {value_of(id) + 1}; };
            auto reply = [id, got](Result v) { body(id, true, nullptr); got(id, v.size() == 1 ? v[0] : 0); };
            ok = submit_reply(static_cast<Result (*)()>(nullptr), task, static_cast<void (*)(Result)>(nullptr), reply, post_reply);
            break;
        }
        case ReplyVoid:
        {
            auto reply = [id, payload]() {
                body(id, true, nullptr);
                if (*payload != value_of(id)) sim_fail("oracle:payload", "the reply of task %d lost its captured state", id);
            };
            ok = submit_reply(static_cast<void (*)()>(nullptr), run, static_cast<void (*)()>(nullptr), reply, post_reply);
            break;
        }
        case Owned:
            ok = submit(static_cast<void (*)(Self)>(nullptr), run_owned, [&](auto &&task) {
                using T = decltype(task);
                return delay < 0 ? runner->post_task(FROM_HERE, owner, std::forward<T>(task))
                                 : runner->post_task_with_delay(FROM_HERE, owner, d, std::forward<T>(task));
            });
            break;
        case OwnedReply:
        {
            auto task = [run_owned, id](Self self) mutable -> Result {
                run_owned(std::move(self));
                return {value_of(id) + 1};
            };
            auto reply = [id, got](Result v, Self self) { body(id, true, &self); got(id, v.size() == 1 ? v[0] : 0); };
            ok = submit_reply(static_cast<Result (*)(Self)>(nullptr), task, static_cast<void (*)(Result, Self)>(nullptr), reply, post_owned_reply);
            break;
        }
        case OwnedReplyVoid:
        {
            auto reply = [id](Self self) { body(id, true, &self); };
            ok = submit_reply(static_cast<void (*)(Self)>(nullptr), run_owned, static_cast<void (*)(Self)>(nullptr), reply, post_owned_reply);
            break;
        }
        default: break;
    }
    {
        Ignore ig;
        W->payloads.push_back(payload);
    }
    Ignore ig;
    Rec &r = W->tasks[static_cast<std::size_t>(id)];
    r.post_res = sim_seq();
    r.t_res = sim_now();
    r.post_done = true;
    r.accepted = ok;
    if (!ok) sim_fail("oracle:rejected", "task %d was not accepted although the task manager exists", id);
    sim_note("posted %d", id);
}

bool has_reply(TaskKind k) { return k == Reply || k == ReplyVoid || k == OwnedReply || k == OwnedReplyVoid; }

// Task `id` has to be executed in the end (its owner and runner are never released).
bool required(Rec const &r)
{
    if (!r.posted || r.must_not_run) return false;
    if (W->runner_released[static_cast<std::size_t>(r.runner)]) return false;
    return r.owner < 0 || !W->owner_released[static_cast<std::size_t>(r.owner)];
}

void check_order()
{
    for (std::size_t rn = 0; rn < W->seq.size(); ++rn)
    {
        if (!W->seq[rn]) continue;
        for (Rec const &a : W->tasks)
        {
            if (static_cast<std::size_t>(a.runner) != rn || a.starts == 0) continue;
            for (Rec const &b : W->tasks)
            {
                if (static_cast<std::size_t>(b.runner) != rn || b.starts == 0 || a.id == b.id) continue;
                if (a.delay < 0 && b.delay < 0 && a.post_res < b.post_inv && a.start > b.start)
                    sim_fail("oracle:order", "sequenced runner %zu: task %d was posted before task %d but executed after it", rn, a.id, b.id);
                // b, posted before a completed, runs before a's reply
                if (a.rstarts && b.delay < 0 && b.post_res < a.end && b.start > a.rstart)
                    sim_fail("oracle:reply-order", "sequenced runner %zu: the reply of task %d overtook task %d", rn, a.id, b.id);
                // b, posted after the runner went on to something else after a, runs after a's reply
                if (a.rstarts && b.delay < 0)
                {
                    std::uint64_t next = UINT64_MAX; // next thing the runner started after a
                    for (Rec const &c : W->tasks)
                    {
                        if (static_cast<std::size_t>(c.runner) != rn) continue;
                        if (c.starts && c.start > a.end && c.start < next) next = c.start;
                        if (c.rstarts && c.rstart > a.end && c.rstart < next) next = c.rstart;
                    }
                    if (b.post_inv > next && b.start < a.rstart)
                        sim_fail("oracle:reply-order", "sequenced runner %zu: task %d overtook the reply of task %d", rn, b.id, a.id);
                }
            }
        }
    }
}

void run_tasks(Cfg cfg)
{
    World world;
    W = &world;
    world.cfg = cfg;
    int const nworkers = amount("workers", 1, 4, 12, 5);
    int const nposters = static_cast<int>(sim_param("posters", 1, 3));
    sim_set_cores(static_cast<int>(sim_param("cores", 1, 8)));
    int const nrunners = amount("runners", 1, 3, 12);
    int const nowners = static_cast<int>(sim_param("owners", 1, 2));
    bool const restart = coin(cfg.restart_pct), release = coin(cfg.release_pct), gated = coin(cfg.gate_pct), block = coin(cfg.block_pct);
    bool const several = coin(cfg.restart_pct / 2); // threads that start or stop
    bool const slow_bodies = coin(50);
    bool const starve = coin(cfg.restart_pct / 3); // creating a thread fails
    sim_fault_rate(SF_SPURIOUS, coin(20) ? 300 : 0);
    sim_fault_rate(SF_CLOCK_STEP, coin(cfg.clock_pct) ? 200 : 0);
    for (int i = 0; i < nrunners; ++i) world.seq.push_back(coin(cfg.seq_pct));
    if (gated) world.seq[0] = true;
    int const rel_owner = release || gated ? 0 : -1;
    int const rel_runner = (release && coin(40)) || (gated && coin(30)) ? 0 : -1;

    // ---- plan
    std::vector<std::vector<std::pair<int, std::int64_t>>> plan(static_cast<std::size_t>(nposters)); // (task, pause)
    int const total = amount("tasks", 2, cfg.max_ops, 160);
    static std::int64_t const delays[] = {0, 1, 5, 9, 10, 11, 20, 25, 60, 300};
    std::int64_t budget = 0;
    auto make = [&](bool nested) {
        Rec r;
        r.id = static_cast<int>(world.tasks.size());
        r.runner = static_cast<int>(R(0, static_cast<std::uint64_t>(nrunners - 1)));
        bool const owned = coin(cfg.owner_pct), reply = coin(cfg.reply_pct);
        r.kind = owned ? (reply ? (coin(50) ? OwnedReply : OwnedReplyVoid) : Owned) : (reply ? (coin(50) ? Reply : ReplyVoid) : Plain);
        r.owner = owned ? static_cast<int>(R(0, static_cast<std::uint64_t>(nowners - 1))) : -1;
        r.delay = coin(cfg.delay_pct) ? delays[R(0, 9)] : -1;
        r.body.points = static_cast<int>(R(0, 3));
        r.body.sleep = slow_bodies && coin(30) ? static_cast<std::int64_t>(R(1, 15)) * ms : 0;
        r.nested = nested;
        r.lvalue = coin(20);
        budget += 2 * r.body.sleep + (r.delay > 0 ? r.delay : 0) * ms;
        return r;
    };
    for (int i = 0; i < total; ++i)
    {
        Rec r = make(false);
        int const poster = static_cast<int>(R(0, static_cast<std::uint64_t>(nposters - 1)));
        std::int64_t const pause = coin(35) ? static_cast<std::int64_t>(R(0, 15)) * ms : 0;
        bool const nest = coin(cfg.nested_pct);
        bool const on = sim_op("poster %d: %s %d on %s runner %d owner %d delay %ld, body %ld ms, pause %ld ms%s", poster, kind_names[r.kind], r.id,
            world.seq[static_cast<std::size_t>(r.runner)] ? "sequenced" : "parallel", r.runner, r.owner, (long)r.delay, (long)(r.body.sleep / ms), (long)(pause / ms), nest ? ", posts another" : "");
        world.tasks.push_back(r);
        if (on) plan[static_cast<std::size_t>(poster)].push_back({r.id, pause});
        if (nest)
        {
            Rec n = make(true);
            world.tasks[static_cast<std::size_t>(r.id)].body.nested = n.id;
            world.tasks.push_back(n);
        }
        budget += pause;
    }
    struct Act { int kind; std::int64_t pause; };
    std::vector<Act> script; // 0 stop/start, 1 release owner, 2 release runner
    if (restart)
        for (std::uint64_t i = R(1, nworkers > 6 ? 1 : nworkers > 4 ? 2 : 3); i > 0; --i) // a run has 64 threads at most
            if (sim_op("main: stop and start the manager")) script.push_back({0, static_cast<std::int64_t>(R(0, 25)) * ms});
    if (release && !gated)
    {
        if (sim_op("main: release owner 0")) script.push_back({1, static_cast<std::int64_t>(R(0, 25)) * ms});
        if (rel_runner >= 0 && sim_op("main: release runner 0")) script.push_back({2, static_cast<std::int64_t>(R(0, 25)) * ms});
        if (script.size() > 1 && coin(50)) std::swap(script.front(), script.back());
    }
    std::size_t const n = world.tasks.size();
    world.ran.assign(n + 1, 0);
    world.active.assign(static_cast<std::size_t>(nrunners), 0);
    world.plain.assign(static_cast<std::size_t>(nrunners), 0);
    world.runner_released.assign(static_cast<std::size_t>(nrunners), false);
    world.owner_released.assign(static_cast<std::size_t>(nowners), false);
    world.owner_dead.assign(static_cast<std::size_t>(nowners), 0);
    if (!gated)
    {
        if (script.size() && rel_owner >= 0)
            for (Act const &a : script)
                if (a.kind == 1) world.owner_released[0] = true;
        for (Act const &a : script)
            if (a.kind == 2) world.runner_released[0] = true;
    }

    // ---- start
    if (starve && coin(50))
    {
        int const before = sim_threads_alive();
        sim_fault_rate(SF_THREAD_FAIL, 3500);
        sim_faults_enable(1);
        std::shared_ptr<TaskManager> unlucky;
        try
        {
            unlucky = TaskManager::create(static_cast<std::uint32_t>(nworkers));
        }
        catch (std::system_error const &)
        {
        }
        sim_fault_rate(SF_THREAD_FAIL, 0);
        if (unlucky) unlucky->stop();
        else sim_probe(6);
        unlucky.reset();
        if (sim_threads_alive() != before) sim_fail("oracle:thread-leak", "a task manager that was not created or was stopped left %d thread(s) behind", sim_threads_alive() - before);
    }
    world.manager = TaskManager::create(static_cast<std::uint32_t>(nworkers));
    if (!world.manager) sim_fail("oracle:create", "the task manager did not start");
    for (int i = 0; i < nrunners; ++i)
    {
        std::shared_ptr<TaskRunner> r;
        if (world.seq[static_cast<std::size_t>(i)]) r = SequencedTaskRunner::create(world.manager);
        else r = ParallelTaskRunner::create(world.manager);
        world.weak_runners.push_back(r);
        world.runners.push_back(std::move(r));
    }
    for (int i = 0; i < nowners; ++i)
    {
        world.owners.push_back(std::make_shared<Owner>(i));
        world.weak_owners.push_back(world.owners.back());
    }
    sim_faults_enable(1);

    // Sometimes several threads try: one of them changes the state, and is told.
    auto attempt = [&](bool (TaskManager::*f)(), char const *what) {
        if (!several || !coin(50)) return ((*world.manager).*f)();
        Threads t;
        std::atomic<int> n {0};
        std::uint64_t const others = R(1, 2);
        for (std::uint64_t i = 0; i < others; ++i)
            t.start([&n, m = world.manager, f] {
                if (((*m).*f)()) ++n;
            });
        if (((*world.manager).*f)()) ++n;
        t.join();
        if (n > 1) sim_fail("oracle:state-result", "%d concurrent calls of %s() report to have changed the state", n.load(), what);
        sim_probe(5);
        return n == 1;
    };
    auto stop = [&](bool expect) {
        std::int64_t const t0 = sim_now();
        bool const ok = attempt(&TaskManager::stop, "stop");
        Ignore ig;
        sim_note("stop -> %d", ok);
        if (ok != expect) sim_fail("oracle:stop-result", "stop() returned %d, expected %d", ok, expect);
        if (expect && world.total_active != 0) sim_fail("oracle:running-while-stopped", "stop() returned while %d task(s) are executing", world.total_active);
        if (expect) { world.quiet = true; world.running = false; }
        if (sim_fault_count(SF_TIME_JUMP) + sim_fault_count(SF_STALL) == 0 && world.gates_waiting == 0)
        {
            // every running task ends within its own sleep, workers and timer look at the flag every 10 ms
            if (sim_now() - t0 > budget + 300 * ms) sim_fail("oracle:slow-stop", "stop() took %ld ms", (long)((sim_now() - t0) / ms));
        }
    };
    auto start = [&](bool expect) {
        {
            Ignore ig;
            if (expect) { world.quiet = false; world.running = true; }
        }
        if (expect && starve && coin(60))
        {
            // The system refuses to create a thread. Nothing must have changed, and nothing stay behind.
            int const before = sim_fault_count(SF_THREAD_FAIL);
            sim_fault_rate(SF_THREAD_FAIL, 3500);
            bool started = false;
            try
            {
                started = world.manager->start();
            }
            catch (std::system_error const &)
            {
            }
            sim_fault_rate(SF_THREAD_FAIL, 0);
            if (started) return;
            if (sim_fault_count(SF_THREAD_FAIL) == before) sim_fail("oracle:start-result", "start() failed although all threads could be created");
            {
                Ignore ig;
                sim_note("start failed");
                sim_probe(6);
                if (world.total_active != 0) sim_fail("oracle:running-while-stopped", "start() failed while %d task(s) are executing", world.total_active);
                world.quiet = true;
                world.running = false;
            }
            sim_sleep_ns(static_cast<std::int64_t>(R(0, 30)) * ms);
            if (coin(50)) stop(false);
            Ignore ig;
            world.quiet = false;
            world.running = true;
        }
        bool const ok = attempt(&TaskManager::start, "start");
        Ignore ig;
        sim_note("start -> %d", ok);
        if (ok != expect) sim_fail("oracle:start-result", "start() returned %d, expected %d", ok, expect);
    };
    auto read_plain = [&]() {
        // The manager is stopped: everything its tasks did is visible.
        for (std::size_t i = 0; i < n; ++i)
        {
            std::uint64_t const v = *(world.ran.data() + i);
            Ignore ig;
            if (v != (world.tasks[i].starts ? 1u : 0u)) sim_fail("oracle:visibility", "task %zu: effect not visible after stop()", i);
        }
    };
    Threads posters;
    auto poster = [&](int p) {
        for (auto const &op : plan[static_cast<std::size_t>(p)])
        {
            if (op.second) sim_sleep_ns(op.second);
            post(op.first);
        }
    };

    // ---- blocking tasks on fewer workers than there are (T07)
    int blocked = 0;
    std::vector<std::shared_ptr<TaskRunner>> block_runners;
    if (block && nworkers > 1)
    {
        blocked = static_cast<int>(R(1, static_cast<std::uint64_t>(nworkers - 1)));
        auto par = ParallelTaskRunner::create(world.manager);
        for (int i = 0; i < blocked; ++i)
        {
            std::shared_ptr<TaskRunner> r = par;
            if (coin(40)) r = SequencedTaskRunner::create(world.manager);
            block_runners.push_back(r);
            r->post_task(FROM_HERE, []() {
                { Ignore ig; ++W->gates_waiting; }
                while (true)
                {
                    { Ignore ig; if (W->gates_open) break; }
                    sim_sleep_ns(5 * ms);
                }
                Ignore ig;
                --W->gates_waiting;
            });
        }
        sim_probe(0);
    }

    // ---- gated release: runner 0 executes a blocking task while its owner / itself is released
    if (gated)
    {
        bool all_workers = rel_runner >= 0 || coin(50);
        int const ngates = all_workers ? nworkers : 1;
        auto gate_runner = ParallelTaskRunner::create(world.manager);
        // posted before the gate, a task may be executed and its reply be held up
        bool const early = coin(50);
        auto confine = [&]() {
            if (all_workers) return;
            // only runner 0 is held up: its tasks alone use owner 0
            for (Rec &r : world.tasks)
                if (r.owner == 0 && r.runner != 0) { r.owner = nowners > 1 ? 1 : 0; if (r.owner == 0) r.runner = 0; }
        };
        confine();
        if (early)
        {
            poster(0);
            sim_probe(4);
        }
        auto gate = []() {
            { Ignore ig; ++W->gates_waiting; }
            while (true)
            {
                { Ignore ig; if (W->gates_open) break; }
                sim_sleep_ns(3 * ms);
            }
            Ignore ig;
            --W->gates_waiting;
        };
        if (all_workers)
            for (int i = 0; i < ngates; ++i) gate_runner->post_task(FROM_HERE, gate);
        else
            world.runners[0]->post_task(FROM_HERE, gate);
        if (!wait_until([&]() { return world.gates_waiting == ngates; }, 60 * sec))
            sim_fail("oracle:gate", "%d of %d blocking tasks were started", world.gates_waiting, ngates);
        // everything is held up now: post, release, let go
        if (!early) poster(0);
        sim_sleep_ns(static_cast<std::int64_t>(R(0, 30)) * ms);
        {
            Ignore ig;
            world.owner_released[0] = true;
            if (rel_runner >= 0) world.runner_released[0] = true;
        }
        std::shared_ptr<Owner> o = std::move(world.owners[0]);
        o.reset();
        {
            // a worker may be about to let go of the task that it executed last
            bool const gone = wait_until([&]() { return world.weak_owners[0].expired(); }, early ? 60 * sec : 0);
            Ignore ig;
            sim_note("owner 0 released");
            if (!gone) sim_fail("oracle:owner-leak", "a queued task keeps its owner alive");
            for (Rec &r : world.tasks) if (r.owner == 0) r.must_not_run = true;
            sim_probe(1);
        }
        if (rel_runner >= 0)
        {
            std::shared_ptr<TaskRunner> rr = std::move(world.runners[0]);
            rr.reset();
            // the timer thread may be holding the runner for a moment
            if (!wait_until([&]() { return world.weak_runners[0].expired(); }, 60 * sec)) sim_fail("oracle:runner-leak", "a queued task keeps its task runner alive");
            Ignore ig;
            sim_note("runner 0 released");
            for (Rec &r : world.tasks) if (r.runner == 0) r.must_not_run = true;
            sim_probe(2);
        }
        { Ignore ig; world.gates_open = 1; }
    }

    for (int p = gated ? 1 : 0; p < nposters; ++p) posters.start([&, p]() { poster(p); });

    for (Act const &a : script)
    {
        if (a.pause) sim_sleep_ns(a.pause);
        if (a.kind == 0)
        {
            if (blocked) continue;
            stop(true);
            read_plain();
            if (R(0, 3) == 0) stop(false);
            sim_sleep_ns(static_cast<std::int64_t>(R(0, 30)) * ms);
            start(true);
            if (R(0, 3) == 0) start(false);
            sim_probe(3);
        }
        else if (a.kind == 1)
        {
            std::shared_ptr<Owner> o;
            { NoPreempt np; o = std::move(world.owners[0]); }
            sim_note("release owner 0");
            o.reset();
        }
        else
        {
            std::shared_ptr<TaskRunner> r;
            { Ignore ig; r = std::move(world.runners[0]); }
            sim_note("release runner 0");
            r.reset();
        }
    }
    posters.join();

    // ---- everything accepted is executed once nothing disturbs the threads any more
    sim_drain();
    auto settled = [&]() {
        if (world.total_active) return false;
        for (Rec const &r : world.tasks)
        {
            if (!required(r)) continue;
            if (!r.ends) return false;
            if (has_reply(r.kind) && !r.rends) return false;
        }
        return true;
    };
    if (!wait_until(settled, budget + 500 * ms, 5 * ms))
    {
        Ignore ig;
        for (Rec const &r : world.tasks)
        {
            if (!required(r)) continue;
            if (!r.starts) sim_fail("oracle:task-lost", "task %d (%s on %s runner %d, delay %ld) was accepted but not executed", r.id, kind_names[r.kind], world.seq[static_cast<std::size_t>(r.runner)] ? "sequenced" : "parallel", r.runner, (long)r.delay);
            if (r.ends && has_reply(r.kind) && !r.rstarts) sim_fail("oracle:reply-lost", "the reply of task %d was not executed", r.id);
        }
        sim_fail("oracle:stuck", "a task does not end");
    }
    { Ignore ig; world.gates_open = 1; }
    if (blocked && !wait_until([&]() { return world.gates_waiting == 0; }, sec)) sim_fail("oracle:stuck", "a released task does not end");
    // nothing happens out of thin air
    sim_sleep_ns(40 * ms);
    if (coin(50))
    {
        // owners and runners go first, then the manager
        NoPreempt np;
        world.owners.clear();
    }
    stop(true);
    read_plain();
    stop(false);
    {
        Ignore ig;
        for (Rec const &r : world.tasks)
            if (r.rstarts && r.rstart < r.end) sim_fail("oracle:reply-before-task", "the reply of task %d preceded the end of its task", r.id);
        for (Rec const &r : world.tasks)
            if (r.delay >= 0 && r.starts && sim_fault_count(SF_TIME_JUMP) + sim_fault_count(SF_STALL) == 0 && !world.seq[static_cast<std::size_t>(r.runner)] &&
                nworkers >= 2 && !restart && !block && !gated && !slow_bodies && r.t_start - (r.t_res + r.delay * ms) > 100 * ms)
                sim_fail("oracle:late", "task %d with a delay of %ld ms started %ld ms late", r.id, (long)r.delay, (long)((r.t_start - r.t_res) / ms - r.delay));
        check_order();
    }
    std::weak_ptr<TaskManager> weak = world.manager;
    if (coin(30))
    {
        // The manager goes first: nothing can be executed any more, and every further post is rejected. (A sequenced task
        // runner that still had something to execute when the manager was stopped queues further tasks: it is not asked.)
        std::vector<std::shared_ptr<TaskRunner>> asked {SequencedTaskRunner::create(world.manager), ParallelTaskRunner::create(world.manager)};
        for (std::size_t i = 0; i < world.runners.size(); ++i)
            if (!world.seq[i] && world.runners[i]) asked.push_back(world.runners[i]);
        world.manager.reset();
        if (!weak.expired()) sim_fail("oracle:leak", "the stopped task manager is not released although only its task runners are left");
        auto owner = std::make_shared<int>(1);
        std::weak_ptr<int> const weak_owner = owner;
        int ran = 0;
        for (auto const &runner : asked)
        {
            auto token = std::make_shared<int>(2);
            auto task = [token, &ran]() { ++ran; };
            auto owned = [token, &ran](std::shared_ptr<int>) { ++ran; };
            auto const d = std::chrono::milliseconds(R(0, 5));
            int const style = static_cast<int>(R(0, 7));
            bool ok = false;
            switch (style)
            {
                case 0: ok = runner->post_task(FROM_HERE, task); break;
                case 1: ok = runner->post_task_with_delay(FROM_HERE, d, task); break;
                case 2: ok = runner->post_task_with_reply(FROM_HERE, task, task); break;
                case 3: ok = runner->post_task_with_delay_and_reply(FROM_HERE, d, task, task); break;
                case 4: ok = runner->post_task(FROM_HERE, weak_owner, owned); break;
                case 5: ok = runner->post_task_with_delay(FROM_HERE, weak_owner, d, owned); break;
                case 6: ok = runner->post_task_with_reply(FROM_HERE, weak_owner, owned, owned); break;
                default: ok = runner->post_task_with_delay_and_reply(FROM_HERE, weak_owner, d, owned, owned); break;
            }
            if (ok) sim_fail("oracle:accepted-in-vain", "a task (style %d) was accepted although the task manager is gone", style);
        }
        asked.clear();
        if (ran) sim_fail("oracle:rejected-task-ran", "a task was executed although it was rejected");
    }
    world.runners.clear();
    block_runners.clear();
    world.owners.clear();
    world.manager.reset();
    if (!weak.expired()) sim_fail("oracle:leak", "the stopped task manager is not released");
    for (auto const &o : world.weak_owners)
        if (!o.expired()) sim_fail("oracle:owner-leak", "an owner is not released");
    for (auto const &p : world.payloads)
        if (!p.expired()) sim_fail("oracle:capture-leak", "what a task captured is not released");
    sim_stop();
}

// Chains of tasks that post themselves again without end keep every worker busy; other tasks are executed all the same.
struct Chain
{
    int runner = 0, style = 0; // style: plain, with reply, delayed
    std::int64_t dur = 0;
    long steps = 0;
};
struct Probe
{
    int runner = 0, style = 0;
    std::int64_t delay = -1, pause = 0, posted = 0, bound = 0;
    int done = 0;
};
struct Fair
{
    std::vector<std::shared_ptr<TaskRunner>> runners;
    std::vector<Chain> chains;
    std::vector<Probe> probes;
    bool over = false;
    int running = 0; // links of the chains that are queued
};
Fair *FW;

void link(int c);
void chain_body(int c)
{
    Chain &k = FW->chains[static_cast<std::size_t>(c)];
    std::int64_t dur;
    {
        Ignore ig;
        ++k.steps;
        dur = k.dur;
    }
    sim_sleep_ns(dur);
}
void link(int c)
{
    int style;
    TaskRunner *runner;
    {
        Ignore ig;
        if (FW->over) { --FW->running; return; }
        style = FW->chains[static_cast<std::size_t>(c)].style;
        runner = FW->runners[static_cast<std::size_t>(FW->chains[static_cast<std::size_t>(c)].runner)].get();
    }
    bool ok;
    if (style == 0) ok = runner->post_task(FROM_HERE, [c]() { chain_body(c); link(c); });
    else if (style == 1) ok = runner->post_task_with_reply(FROM_HERE, [c]() { chain_body(c); return c; }, [](int k) { link(k); });
    else ok = runner->post_task_with_delay(FROM_HERE, std::chrono::milliseconds(style - 2), [c]() { chain_body(c); link(c); });
    if (!ok) sim_fail("oracle:refused", "a task was refused by a running task manager");
}

void run_fair()
{
    Fair fair;
    FW = &fair;
    int const nworkers = static_cast<int>(sim_param("workers", 1, 3));
    int const nrunners = static_cast<int>(sim_param("runners", 1, 4));
    sim_set_cores(static_cast<int>(sim_param("cores", 1, 8)));
    int const nchains = static_cast<int>(sim_param("chains", 1, 8));
    int const nprobes = static_cast<int>(sim_param("tasks", 1, 8));
    sim_fault_rate(SF_SPURIOUS, coin(20) ? 300 : 0);
    auto manager = TaskManager::create(static_cast<std::uint32_t>(nworkers));
    if (!manager) sim_fail("oracle:create", "the task manager did not start");
    std::vector<bool> seq;
    for (int i = 0; i <= nrunners; ++i)
    {
        seq.push_back(coin(60));
        if (seq.back()) fair.runners.push_back(SequencedTaskRunner::create(manager));
        else fair.runners.push_back(ParallelTaskRunner::create(manager));
    }
    std::int64_t round = 0; // every chain once
    for (int i = 0; i < nchains; ++i)
    {
        Chain c;
        c.runner = static_cast<int>(R(0, static_cast<std::uint64_t>(nrunners - 1)));
        c.style = coin(60) ? 0 : static_cast<int>(R(1, 4));
        c.dur = static_cast<std::int64_t>(R(20, 400)) * 1000;
        round += c.dur + 50000;
        fair.chains.push_back(c);
    }
    for (int i = 0; i < nprobes; ++i)
    {
        Probe p;
        p.runner = static_cast<int>(R(0, static_cast<std::uint64_t>(nrunners))); // the last runner is not loaded
        p.style = static_cast<int>(R(0, 3));
        p.delay = p.style == 3 ? static_cast<std::int64_t>(R(0, 20)) : -1;
        p.pause = coin(50) ? static_cast<std::int64_t>(R(0, 5)) * ms : 0;
        fair.probes.push_back(p);
    }
    fair.running = nchains;
    for (int i = 0; i < nchains; ++i) link(i);
    auto owner = std::make_shared<int>(7);
    std::weak_ptr<int> const weak = owner;
    for (int i = 0; i < nprobes; ++i)
    {
        Probe const p = fair.probes[static_cast<std::size_t>(i)];
        if (p.pause) sim_sleep_ns(p.pause);
        auto done = [i]() {
            Ignore ig;
            Probe &q = FW->probes[static_cast<std::size_t>(i)];
            if (++q.done > 1) sim_fail("oracle:executed-twice", "task %d was executed twice", i);
            if (q.delay > 0 && sim_now() < q.posted + q.delay * ms) sim_fail("oracle:early", "a task with a delay of %ld ms was executed after %ld ns", (long)q.delay, (long)(sim_now() - q.posted));
        };
        TaskRunner &runner = *fair.runners[static_cast<std::size_t>(p.runner)];
        {
            Ignore ig;
            fair.probes[static_cast<std::size_t>(i)].posted = sim_now();
        }
        bool ok;
        if (p.style == 0) ok = runner.post_task(FROM_HERE, done);
        else if (p.style == 1) ok = runner.post_task_with_reply(FROM_HERE, []() {}, done);
        else if (p.style == 2) ok = runner.post_task(FROM_HERE, weak, [done](std::shared_ptr<int>) { done(); });
        else ok = runner.post_task_with_delay(FROM_HERE, std::chrono::milliseconds(p.delay), done);
        if (!ok) sim_fail("oracle:refused", "task %d was refused by a running task manager", i);
    }
    // The schedule is fair from here on, and the load goes on.
    sim_drain();
    std::int64_t const bound = 21 * ms + 40 * (round + nprobes * ms / 10) + 100 * ms;
    auto all = [&]() {
        for (Probe const &p : fair.probes)
            if (!p.done) return false;
        return true;
    };
    if (!wait_until(all, bound))
    {
        Ignore ig;
        for (int i = 0; i < nprobes; ++i)
        {
            Probe const &p = fair.probes[static_cast<std::size_t>(i)];
            static char const *const styles[] = {"task", "task with a reply", "task of an owner", "delayed task"};
            if (!p.done) sim_fail("oracle:starved", "%s %d on %s runner %d was not executed within %ld ms, while %d other tasks post themselves again", styles[p.style], i, seq[static_cast<std::size_t>(p.runner)] ? "sequenced" : "parallel", p.runner, (long)(bound / ms), nchains);
        }
    }
    // and so does every chain
    std::vector<long> before;
    {
        Ignore ig;
        for (Chain const &c : fair.chains) before.push_back(c.steps);
    }
    auto moved = [&]() {
        for (std::size_t c = 0; c < before.size(); ++c)
            if (fair.chains[c].steps == before[c]) return false;
        return true;
    };
    if (!wait_until(moved, bound)) sim_fail("oracle:starved", "of %d tasks that post themselves again, one was not executed any more", nchains);
    sim_probe(0);
    { Ignore ig; fair.over = true; }
    if (!wait_until([&]() { return fair.running == 0; }, bound)) sim_fail("oracle:task-lost", "a task that was posted by a task was not executed");
    if (!manager->stop()) sim_fail("oracle:stop", "stopping a running task manager reports that it was not running");
    fair.runners.clear();
    sim_stop();
}

// ---- T08: what a task captured is released ---------------------------------------------------------
struct Release
{
    struct Item { int made = 0, gone = 0, ran = 0, action = 0, depth = 0; std::int64_t at = 0; };
    std::deque<Item> items;
    std::vector<std::shared_ptr<TaskRunner>> runners; // the last one is kept to the end
    std::recursive_mutex user;
    bool ending = false; // the manager may be gone
};
Release *RW = nullptr;

void post_token(int runner, int style, std::int64_t delay, int action, int depth, std::shared_ptr<TaskRunner> const &to);

// Captured by a task; uses the library when it is destroyed, as an object of the user may.
struct Token
{
    int id;
    explicit Token(int i) : id(i) {}
    ~Token()
    {
        int action, depth;
        {
            Ignore ig;
            auto &it = RW->items[static_cast<std::size_t>(id)];
            if (++it.gone > 1) sim_fail("oracle:released-twice", "what a task captured was destroyed twice");
            it.at = sim_now();
            action = it.action, depth = it.depth;
        }
        std::shared_ptr<TaskRunner> last;
        {
            Ignore ig;
            last = RW->runners.back();
        }
        if (!last) action = 0;
        switch (action)
        {
            case 0: break;
            case 1: post_token(-1, 0, -1, 0, depth + 1, last); break;
            case 2: post_token(-1, 0, 10, 0, depth + 1, last); break;
            case 3:
            {
                std::lock_guard<std::recursive_mutex> lock(RW->user);
                sim_point();
                break;
            }
            case 4: sim_sleep_ns(2 * ms); break;
        }
    }
};

void post_token(int runner, int style, std::int64_t delay, int action, int depth, std::shared_ptr<TaskRunner> const &to)
{
    int id;
    {
        Ignore ig;
        id = static_cast<int>(RW->items.size());
        RW->items.emplace_back();
        auto &it = RW->items.back();
        it.made = 1, it.action = depth < 2 ? action : 0, it.depth = depth;
        sim_note("token %d: runner %d style %d delay %ld, when released: %d", id, runner, style, (long)delay, it.action);
    }
    auto token = std::make_shared<Token>(id);
    auto task = [token]() {
        Ignore ig;
        if (++RW->items[static_cast<std::size_t>(token->id)].ran > 1) sim_fail("oracle:executed-twice", "a task was executed twice");
    };
    auto owned = [token](std::shared_ptr<int>) {
        Ignore ig;
        ++RW->items[static_cast<std::size_t>(token->id)].ran;
    };
    std::weak_ptr<int> const expired;
    std::chrono::milliseconds const d(delay);
    token.reset();
    bool ok = true;
    switch (style)
    {
        case 0: ok = delay < 0 ? to->post_task(FROM_HERE, std::move(task)) : to->post_task_with_delay(FROM_HERE, d, std::move(task)); break;
        case 1: ok = delay < 0 ? to->post_task(FROM_HERE, expired, std::move(owned)) : to->post_task_with_delay(FROM_HERE, expired, d, std::move(owned)); break;
        case 2: ok = delay < 0 ? to->post_task_with_reply(FROM_HERE, [] {}, std::move(task)) : to->post_task_with_delay_and_reply(FROM_HERE, d, [] {}, std::move(task)); break;
        case 3: ok = delay < 0 ? to->post_task_with_reply(FROM_HERE, expired, [](std::shared_ptr<int>) { return 1; }, [o = std::move(owned)](int, std::shared_ptr<int> p) mutable { o(p); })
                               : to->post_task_with_delay_and_reply(FROM_HERE, expired, d, [](std::shared_ptr<int>) { return 1; }, [o = std::move(owned)](int, std::shared_ptr<int> p) mutable { o(p); }); break;
    }
    Ignore ig;
    if (!ok && !RW->ending) sim_fail("oracle:refused", "a task was refused by a living task manager");
}

void run_release()
{
    Release rel;
    RW = &rel;
    sim_set_cores(static_cast<int>(sim_param("cores", 1, 8)));
    sim_fault_rate(SF_SPURIOUS, coin(20) ? 300 : 0);
    auto manager = TaskManager::create(static_cast<std::uint32_t>(sim_param("workers", 1, 3)));
    if (!manager) sim_fail("oracle:create", "the task manager did not start");
    int const nrunners = static_cast<int>(sim_param("runners", 1, 3)), nthreads = static_cast<int>(sim_param("posters", 1, 3));
    for (int i = 0; i <= nrunners; ++i)
    {
        if (coin(60)) rel.runners.push_back(SequencedTaskRunner::create(manager));
        else rel.runners.push_back(ParallelTaskRunner::create(manager));
    }
    struct Op { int kind, runner, style, action; std::int64_t delay; bool locked; };
    std::vector<std::vector<Op>> ops(static_cast<std::size_t>(nthreads));
    static char const *const kinds[] = {"post", "release", "wait", "block"};
    for (int t = 0; t < nthreads; ++t)
        for (int k = amount("ops", 1, 12, 60); k > 0; --k)
        {
            Op o;
            std::uint64_t const x = R(0, 99);
            o.kind = x < 60 ? 0 : x < 75 ? 1 : x < 88 ? 2 : 3;
            o.runner = static_cast<int>(R(0, static_cast<std::uint64_t>(nrunners)));
            o.style = coin(60) ? 0 : static_cast<int>(R(1, 3));
            o.action = coin(30) ? 0 : static_cast<int>(R(1, 4));
            o.delay = coin(50) ? -1 : static_cast<std::int64_t>(R(0, 60));
            o.locked = coin(25);
            if (sim_op("thread %d: %s runner %d, style %d, delay %ld, action %d", t, kinds[o.kind], o.runner, o.style, (long)o.delay, o.action)) ops[static_cast<std::size_t>(t)].push_back(o);
        }
    sim_faults_enable(1);
    Threads threads;
    for (int t = 0; t < nthreads; ++t)
        threads.start([&, t]() {
            for (Op const &o : ops[static_cast<std::size_t>(t)])
            {
                std::shared_ptr<TaskRunner> r;
                bool const keep = o.runner == nrunners;
                {
                    Ignore ig;
                    r = rel.runners[static_cast<std::size_t>(o.runner)];
                }
                if (!r) continue;
                switch (o.kind)
                {
                    case 0:
                        if (o.locked)
                        {
                            std::lock_guard<std::recursive_mutex> lock(rel.user);
                            post_token(o.runner, o.style, o.delay, o.action, 0, r);
                        }
                        else post_token(o.runner, o.style, o.delay, o.action, 0, r);
                        break;
                    case 1:
                        if (!keep)
                        {
                            Ignore ig;
                            rel.runners[static_cast<std::size_t>(o.runner)].reset();
                            sim_probe(0);
                        }
                        break; // (the last reference may be the one of this thread or that of a worker)
                    case 2: sim_sleep_ns(static_cast<std::int64_t>(o.delay + 1) * ms / 2); break;
                    case 3: // tasks pile up behind this one
                        r->post_task(FROM_HERE, [] { sim_sleep_ns(15 * ms); });
                        break;
                }
                r.reset();
            }
        });
    threads.join();
    int const mode = static_cast<int>(R(0, 9)); // how it goes on
    if (mode >= 4) sim_drain();
    // The manager goes on, and nobody posts any more.
    auto all = [&] {
        for (auto const &it : rel.items)
            if (it.made && !it.gone) return false;
        return true;
    };
    std::int64_t left = 2 * sec;
    {
        Ignore ig;
        left += static_cast<std::int64_t>(rel.items.size()) * 50 * ms;
    }
    if (mode >= 4 && !wait_until(all, left))
    {
        Ignore ig;
        int n = 0, ran = 0;
        for (auto const &it : rel.items)
            if (it.made && !it.gone) ++n, ran += it.ran;
        sim_fail("oracle:kept", "what %d tasks captured is not released, although every task was executed (%d of these) or dropped %ld ms ago or earlier", n, ran, (long)(left / ms - 100));
    }
    for (auto const &it : rel.items)
        if (it.made && !it.ran) sim_probe(1);
    if (!manager->stop()) sim_fail("oracle:stop", "stopping a running task manager reports that it was not running");
    // Tasks are posted to the stopped manager, which is then started again, or goes.
    bool const again = mode == 0 || mode == 1 || mode >= 8;
    {
        Ignore ig;
        rel.ending = !again;
    }
    struct Late { int runner, style, action; std::int64_t delay; };
    std::vector<std::vector<Late>> late(static_cast<std::size_t>(nthreads));
    for (int t = 0; t < nthreads; ++t)
        for (int k = static_cast<int>(R(0, 4)); k > 0; --k)
        {
            Late l;
            l.runner = coin(50) ? nrunners : static_cast<int>(R(0, static_cast<std::uint64_t>(nrunners)));
            l.style = coin(60) ? 0 : static_cast<int>(R(1, 3)), l.action = coin(50) ? 1 : static_cast<int>(R(0, 4)), l.delay = coin(70) ? -1 : static_cast<std::int64_t>(R(0, 30));
            if (sim_op("thread %d: late post runner %d, style %d, delay %ld, action %d", t, l.runner, l.style, (long)l.delay, l.action)) late[static_cast<std::size_t>(t)].push_back(l);
        }
    int begun = 0, total = 0;
    for (auto const &l : late) total += static_cast<int>(l.size());
    int const drop_after = static_cast<int>(R(0, static_cast<std::uint64_t>(total)));
    int drop_points = static_cast<int>(R(0, 20)), spun = 0;
    Threads later;
    for (int t = 0; t < nthreads; ++t)
        later.start([&, t]() {
            for (Late const &l : late[static_cast<std::size_t>(t)])
            {
                std::shared_ptr<TaskRunner> r;
                {
                    Ignore ig;
                    r = rel.runners[static_cast<std::size_t>(l.runner)];
                }
                {
                    Ignore ig;
                    ++begun;
                }
                if (r) post_token(l.runner, l.style, l.delay, l.action, 0, r);
            }
        });
    if (again)
    {
        later.join();
        if (!manager->start()) sim_fail("oracle:start", "the task manager did not start again");
        sim_drain();
        if (!wait_until(all, left)) sim_fail("oracle:kept", "what tasks captured that were posted before the manager was started again is not released");
        if (!manager->stop()) sim_fail("oracle:stop", "stopping a running task manager reports that it was not running");
        sim_probe(2);
    }
    else
    {
        for (;; sim_point()) // the manager goes while a thread is posting
        {
            Ignore ig;
            if ((begun >= drop_after && drop_points-- <= 0) || ++spun > 400) break;
        }
        manager.reset();
        later.join();
        sim_probe(3);
    }
    std::vector<std::shared_ptr<TaskRunner>> runners;
    {
        Ignore ig;
        rel.ending = true;
        runners = rel.runners;
        for (std::size_t i = 0; i + 1 < rel.runners.size(); ++i) rel.runners[i].reset();
    }
    manager.reset();
    runners.clear();
    {
        std::shared_ptr<TaskRunner> last;
        {
            Ignore ig;
            last.swap(rel.runners.back());
        }
    }
    {
        Ignore ig;
        if (!all()) sim_fail("oracle:leaked", "what a task captured is not released, although manager and runners are gone");
    }
    sim_stop();
}

} // namespace

SIM_SCENARIO(task_fair, 1, "all_were_served") { run_fair(); }
SIM_SCENARIO(task_once, 3, "blocked_workers", "gated_owner_release", "gated_runner_release", "restarted", "posted_before_gate", "concurrent_start_stop", "start_failed")
{
    run_tasks({.reply_pct = 15, .owner_pct = 10, .delay_pct = 15, .nested_pct = 30, .seq_pct = 50, .restart_pct = 50, .release_pct = 0});
}
SIM_SCENARIO(task_sequence, 3, "blocked_workers", "gated_owner_release", "gated_runner_release", "restarted", "posted_before_gate", "concurrent_start_stop", "start_failed")
{
    run_tasks({.reply_pct = 25, .owner_pct = 10, .delay_pct = 15, .nested_pct = 30, .seq_pct = 90, .restart_pct = 15, .release_pct = 0});
}
SIM_SCENARIO(task_delay, 3, "blocked_workers", "gated_owner_release", "gated_runner_release", "restarted", "posted_before_gate", "concurrent_start_stop", "start_failed")
{
    run_tasks({.reply_pct = 20, .owner_pct = 20, .delay_pct = 75, .nested_pct = 15, .seq_pct = 40, .restart_pct = 20, .release_pct = 10, .clock_pct = 70});
}
SIM_SCENARIO(task_reply, 3, "blocked_workers", "gated_owner_release", "gated_runner_release", "restarted", "posted_before_gate", "concurrent_start_stop", "start_failed")
{
    run_tasks({.reply_pct = 85, .owner_pct = 45, .delay_pct = 20, .nested_pct = 15, .seq_pct = 65, .restart_pct = 15, .release_pct = 40, .gate_pct = 50});
}
SIM_SCENARIO(task_owner, 3, "blocked_workers", "gated_owner_release", "gated_runner_release", "restarted", "posted_before_gate", "concurrent_start_stop", "start_failed")
{
    run_tasks({.reply_pct = 35, .owner_pct = 80, .delay_pct = 30, .nested_pct = 10, .seq_pct = 60, .restart_pct = 10, .release_pct = 80, .gate_pct = 40});
}
SIM_SCENARIO(task_stop, 3, "blocked_workers", "gated_owner_release", "gated_runner_release", "restarted", "posted_before_gate", "concurrent_start_stop", "start_failed")
{
    run_tasks({.reply_pct = 25, .owner_pct = 20, .delay_pct = 35, .nested_pct = 25, .seq_pct = 50, .restart_pct = 100, .release_pct = 10});
}
SIM_SCENARIO(task_parallel, 3, "blocked_workers", "gated_owner_release", "gated_runner_release", "restarted", "posted_before_gate", "concurrent_start_stop", "start_failed")
{
    run_tasks({.reply_pct = 20, .owner_pct = 10, .delay_pct = 25, .nested_pct = 15, .seq_pct = 45, .restart_pct = 0, .release_pct = 0, .block_pct = 90});
}
SIM_SCENARIO(task_release, 2, "runner_released", "dropped_task", "started_again", "manager_gone") { run_release(); }
