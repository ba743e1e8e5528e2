// C01 / C02: thread pool
#include <neolib/neolib.hpp>
#include <neolib/task/thread_pool.hpp>
#include "common.hpp"

namespace
{
    struct task_rec { int id; int runs = 0; bool begun = false, finished = false, accepted = false, cancelled = false; std::uint64_t submitted = 0, finishedAt = 0; int prio = 0; };

    struct world
    {
        std::unique_ptr<neolib::thread_pool> pool;
        std::vector<task_rec*> tasks;
        int running = 0, maxRunning = 0;
        bool stopBegun = false;
        bool nested = false;
        int submitBudget = 0;
        task_rec* fresh(int prio = 0) { sim::quiet q; auto* t = new task_rec; t->id = (int)tasks.size(); t->prio = prio; tasks.push_back(t); return t; }
    };

    struct boom : std::runtime_error { int id; boom(int i) : std::runtime_error("boom"), id{ i } {} };

    void begin_task(world& w, task_rec& t)
    {
        sim::quiet q;
        ++t.runs; t.begun = true; ++w.running; if (w.running > w.maxRunning) w.maxRunning = w.running;
        sim::log("run %d", t.id);
        SIM_CHECK(t.runs == 1, "task-ran-twice", "task %d ran %d times", t.id, t.runs);
        SIM_CHECK(!t.cancelled, "cancelled-task-ran", "task %d ran although it was cancelled before it was submitted", t.id);
        SIM_CHECK((std::size_t)w.running <= w.pool->max_threads(), "limit", "%d tasks running at once with a limit of %zu", w.running, w.pool->max_threads());
    }
    void end_task(world& w, task_rec& t) { sim::quiet q; --w.running; t.finished = true; t.finishedAt = sim::seq(); }

    void spend(unsigned kind)
    {
        switch (kind) { case 0: break; case 1: sim::yield(); break; case 2: std::this_thread::sleep_for(std::chrono::microseconds(50)); break; case 3: std::this_thread::yield(); break; }
    }

    struct my_task : neolib::task<>
    {
        world& w; task_rec& t; unsigned work;
        my_task(world& w, task_rec& t, unsigned k) : w{ w }, t{ t }, work{ k } {}
        void run(neolib::yield_type) override { begin_task(w, t); spend(work); end_task(w, t); }
    };

    // what everything submitted before 'mark' must look like once a wait started after it returned
    void check_waited(world& w, std::size_t upto, char const* what)
    {
        sim::quiet q;
        if (w.stopBegun) return;
        for (std::size_t i = 0; i < upto; ++i)
        {
            auto& t = *w.tasks[i];
            if (t.accepted && t.submitted && !t.cancelled) SIM_CHECK(t.finished, "wait-too-early", "%s returned although task %d, submitted before it was called, has not finished", what, t.id);
        }
    }

    void pool_program(bool withStop)
    {
        world* w = new world; // lives until the end of the run
        sim::enable_fault("spurious_wakeup"); sim::enable_fault("time_skip");
        sim::set_time_limit(60 * sim::sec);
        w->pool = std::make_unique<neolib::thread_pool>();
        auto& pool = *w->pool;
        std::size_t const extra = sim::rnd(4);
        pool.reserve(pool.max_threads() + extra);
        int const nclients = 1 + (int)sim::rnd(3);
        bool const nested = sim::chance(40);
        std::vector<std::thread> clients;
        std::vector<std::unique_ptr<my_task>> owned; owned.reserve(64);
        struct client_ctx { std::vector<int> ops; };
        std::vector<std::vector<std::array<unsigned, 3>>> scripts;
        for (int c = 0; c < nclients; ++c)
        {
            scripts.emplace_back();
            int n = 1 + (int)sim::rnd(6);
            for (int i = 0; i < n; ++i) scripts.back().push_back({ (unsigned)sim::rnd(10), (unsigned)sim::rnd(4), (unsigned)sim::rnd(5) });
        }
        sim::log("threads %zu clients %d", pool.max_threads(), nclients);
        std::mutex ownedMutex;
        auto accept = [w](task_rec& t) { sim::quiet q; t.accepted = true; t.submitted = sim::seq(); };
        // with a concurrent stop() a task that has not begun may be abandoned: its future then need not become ready
        auto ready = [&pool, withStop](auto& f) { if (!withStop) return true; while (f.wait_for(std::chrono::milliseconds(1)) != std::future_status::ready) if (pool.stopped()) return f.wait_for(std::chrono::seconds(0)) == std::future_status::ready; return true; };
        auto client = [&, w](int c)
        {
            std::vector<std::pair<std::future<int>, task_rec*>> fi; std::vector<std::pair<std::future<void>, task_rec*>> fv;
            for (auto const& op : scripts[(std::size_t)c])
            {
                unsigned const k = op[1]; int const prio = (int)op[2] - 2;
                switch (op[0])
                {
                case 0: case 1:
                {
                    auto* t = w->fresh(prio);
                    auto r = pool.run([w, t, k, nested, &pool, accept]()
                    {
                        begin_task(*w, *t); spend(k);
                        if (nested && k == 1)
                        {
                            auto* n = w->fresh();
                            auto r2 = pool.run([w, n] { begin_task(*w, *n); end_task(*w, *n); }, 0);
                            if (r2.second) accept(*n);
                        }
                        end_task(*w, *t);
                    }, prio);
                    if (r.second) { accept(*t); fv.emplace_back(std::move(r.first), t); }
                    break;
                }
                case 2: case 3:
                {
                    auto* t = w->fresh(prio);
                    auto r = pool.run<int>([w, t, k]() -> int { begin_task(*w, *t); spend(k); end_task(*w, *t); return 1000 + t->id; }, prio);
                    if (r.second) { accept(*t); fi.emplace_back(std::move(r.first), t); }
                    break;
                }
                case 4:
                {
                    auto* t = w->fresh(prio);
                    auto r = pool.run<int>([w, t, k]() -> int { begin_task(*w, *t); spend(k); end_task(*w, *t); throw boom(t->id); }, prio);
                    if (r.second) { accept(*t); if (!ready(r.first)) break; try { int v = r.first.get(); sim::fail("future-value", "task %d threw but its future returned %d", t->id, v); } catch (boom& b) { SIM_CHECK(b.id == t->id, "future-value", "future of task %d carries the exception of task %d", t->id, b.id); } catch (std::future_error&) { sim::quiet q; SIM_CHECK(w->stopBegun, "broken-promise", "future of task %d was abandoned", t->id); } }
                    break;
                }
                case 5: case 6:
                {
                    auto* t = w->fresh(prio);
                    auto task = std::make_unique<my_task>(*w, *t, k);
                    if (k == 3) { task->cancel(); t->cancelled = true; }
                    my_task& ref = *task;
                    { std::unique_lock lk{ ownedMutex }; owned.push_back(std::move(task)); }
                    if (op[0] == 5) { bool st = pool.stopped(); pool.start(ref, prio); if (!st && !withStop) accept(*t); }
                    else if (pool.try_start(ref, prio)) { if (!withStop) accept(*t); sim::probe("try_start_accepted"); }
                    else { sim::probe("try_start_refused"); }
                    break;
                }
                case 7: case 8:
                {
                    std::size_t upto; { sim::quiet q; upto = w->tasks.size(); }
                    std::vector<bool> sub; { sim::quiet q; for (std::size_t i = 0; i < upto; ++i) if (!w->tasks[i]->submitted) { } }
                    // only tasks whose submission returned before this call count
                    std::vector<task_rec*> before; { sim::quiet q; for (auto* t : w->tasks) if (t->accepted && t->submitted) before.push_back(t); }
                    pool.wait();
                    { sim::quiet q; if (!w->stopBegun) for (auto* t : before) if (!t->cancelled) SIM_CHECK(t->finished, "wait-too-early", "wait() returned although task %d, submitted before it was called, has not finished", t->id); }
                    { sim::quiet q; before = {}; before.shrink_to_fit(); }
                    break;
                }
                case 9:
                {
                    std::vector<int> v((std::size_t)op[2] * 3, 0);
                    bool stoppedBefore = pool.stopped();
                    neolib::parallel_apply<std::vector<int>>(pool, v, [](int& e) { ++e; sim::yield(); }, 0);
                    sim::quiet q;
                    if (!stoppedBefore && !w->stopBegun) for (auto e : v) SIM_CHECK(e == 1, "parallel-apply", "an element was visited %d times", e);
                    break;
                }
                }
            }
            for (auto& f : fi) { if (ready(f.first)) try { int v = f.first.get(); SIM_CHECK(v == 1000 + f.second->id, "future-value", "future of task %d returned %d", f.second->id, v); } catch (std::future_error&) { sim::quiet q; SIM_CHECK(w->stopBegun, "broken-promise", "future of task %d was abandoned", f.second->id); } }
            for (auto& f : fv) { if (ready(f.first)) try { f.first.get(); sim::quiet q; SIM_CHECK(f.second->runs == 1, "future-early", "future of task %d ready before it ran", f.second->id); } catch (std::future_error&) { sim::quiet q; SIM_CHECK(w->stopBegun, "broken-promise", "future of task %d was abandoned", f.second->id); } }
        };
        bool const doStop = withStop;
        std::thread stopper;
        if (doStop) { auto d = sim::rnd(200); stopper = std::thread{ [&, w, d] { sim::sleep_ns((std::int64_t)d * sim::us); { sim::quiet q; w->stopBegun = true; sim::log("stop"); } pool.stop(); { sim::quiet q; SIM_CHECK(w->running == 0, "stop-early", "stop() returned with %d tasks running", w->running); } } }; }
        for (int c = 0; c < nclients; ++c) clients.emplace_back(client, c);
        for (auto& t : clients) t.join();
        if (stopper.joinable()) stopper.join();
        { auto* p = w->pool.get(); delete p; w->pool.release(); }
        sim::quiet q;
        for (auto* t : w->tasks)
        {
            SIM_CHECK(t->runs <= 1, "task-ran-twice", "task %d ran %d times", t->id, t->runs);
            SIM_CHECK(t->begun == t->finished, "task-abandoned", "task %d began and never finished", t->id);
            if (t->accepted && !t->cancelled && !w->stopBegun) SIM_CHECK(t->runs == 1, "task-lost", "task %d was accepted and never ran", t->id);
        }
        sim::state((std::uint64_t)w->maxRunning * 1000 + w->tasks.size());
    }
}

SIM_SCENARIO(pool) { pool_program(false); }
SIM_SCENARIO(pool_stop) { pool_program(true); }

// C02: one thread: priority and submission order
SIM_SCENARIO(pool_order)
{
    struct rec { int id, prio; std::uint64_t inv = 0, ret = 0, begin = 0, end = 0; int prev = -1; int client; };
    int const held = sim::chance(50) ? 0 : 1 + (int)sim::rnd(2); // workers kept busy throughout: the one left free takes everything
    sim::set_cpus(1 + held);
    sim::enable_fault("spurious_wakeup"); sim::enable_fault("time_skip");
    sim::set_time_limit(60 * sim::sec);
    auto* recs = new std::vector<rec*>; int* last = new int{ -1 };
    auto* pool = new neolib::thread_pool;
    SIM_CHECK(pool->max_threads() == 1u + (unsigned)held, "max-threads", "a pool on %d processors has %zu threads", 1 + held, pool->max_threads());
    std::atomic<int> holding{ 0 }; std::atomic<bool> letGo{ false }; bool const freeFirst = sim::flip();
    int const nclients = 1 + (int)sim::rnd(3); bool const gate = sim::chance(60); int const levels = 1 + (int)sim::rnd(4);
    std::atomic<bool> open{ !gate };
    std::vector<std::vector<std::array<unsigned, 3>>> scripts;
    for (int c = 0; c < nclients; ++c) { scripts.emplace_back(); int n = 1 + (int)sim::rnd(7); for (int i = 0; i < n; ++i) scripts.back().push_back({ (unsigned)sim::rnd((unsigned)levels), (unsigned)sim::rnd(4), (unsigned)sim::rnd(4) }); }
    std::vector<std::unique_ptr<neolib::i_task>> owned; owned.reserve(64); std::mutex om;
    struct t_ : neolib::task<> { std::function<void()> f; t_(std::function<void()> f) : f{ f } {} void run(neolib::yield_type) override { f(); } };
    auto fresh = [recs](int prio, int c) { sim::quiet q; auto* r = new rec{ (int)recs->size(), prio }; r->client = c; recs->push_back(r); return r; };
    auto body = [recs, last](rec* r, unsigned k) { { sim::quiet q; r->begin = sim::seq(); r->prev = *last; *last = r->id; sim::log("run %d prio %d", r->id, r->prio); } spend(k); { sim::quiet q; r->end = sim::seq(); } };
    std::future<void> fillFuture; auto fill = [&] { if (gate) fillFuture = pool->run([&open, body, r = fresh(0, -1)] { body(r, 0); while (!open) std::this_thread::sleep_for(std::chrono::microseconds(100)); sim::quiet q; r->end = sim::seq(); }).first; };
    if (freeFirst) { fill(); if (gate) while (![&] { sim::quiet q; return (*recs)[0]->begin != 0; }()) std::this_thread::sleep_for(std::chrono::microseconds(100)); } // the worker left free is the first, or the last
    for (int i = 0; i < held; ++i) pool->run([&] { ++holding; while (!letGo) std::this_thread::sleep_for(std::chrono::milliseconds(1)); });
    while (holding != held) std::this_thread::sleep_for(std::chrono::microseconds(100));
    if (held) sim::probe("others_held");
    if (!freeFirst) fill();
    auto client = [&](int c)
    {
        for (auto const& op : scripts[(std::size_t)c])
        {
            int const prio = (int)op[0] - 1; auto* r = fresh(prio, c);
            { sim::quiet q; r->inv = sim::seq(); }
            if (op[2] < 2) pool->run([body, r, k = op[1]] { body(r, k); }, prio);
            else if (op[2] == 2) pool->start(std::make_shared<t_>([body, r, k = op[1]] { body(r, k); }), prio);
            else { neolib::i_task* t; { std::unique_lock lk{ om }; owned.push_back(std::make_unique<t_>([body, r, k = op[1]] { body(r, k); })); t = owned.back().get(); } pool->start(*t, prio); }
            { sim::quiet q; r->ret = sim::seq(); }
            if (op[1] == 3) spend(2);
        }
    };
    std::vector<std::thread> ts; for (int c = 0; c < nclients; ++c) ts.emplace_back(client, c);
    for (auto& t : ts) t.join();
    open = true;
    if (held) for (auto* r : *recs) while (![&] { sim::quiet q; return r->end != 0; }()) std::this_thread::sleep_for(std::chrono::milliseconds(1)); // one free worker is enough
    letGo = true;
    pool->wait();
    delete pool;
    sim::quiet q;
    for (auto* b : *recs) if (b->inv)
    {
        SIM_CHECK(b->begin, "task-lost", "task %d never ran", b->id);
        for (auto* a : *recs) if (a != b && a->inv)
        {
            if (a->prio == b->prio && a->ret < b->inv) SIM_CHECK(a->begin < b->begin, "fifo-order", "task %d was submitted before task %d with the same priority and ran after it", a->id, b->id);
            if (a->prio > b->prio && b->prev >= 0 && a->ret < (*recs)[(std::size_t)b->prev]->end && a->begin > b->begin) sim::fail("priority-order", "task %d (priority %d) ran before task %d (priority %d), which was already waiting", b->id, b->prio, a->id, a->prio);
        }
    }
    std::uint64_t h = 0; for (auto* r : *recs) h = h * 31 + (std::uint64_t)(r->prev + 2);
    sim::state(h);
}

// C02: the maximum, try_start and the reported counts
SIM_SCENARIO(pool_limit)
{
    struct rec { int id; bool tried = false, accepted = false, refused = false; int begun = 0; bool finished = false; };
    sim::enable_fault("spurious_wakeup"); sim::enable_fault("time_skip");
    sim::set_cpus(1 + (unsigned)sim::rnd(3));
    sim::set_time_limit(60 * sim::sec);
    auto* recs = new std::vector<rec*>;
    auto* pool = new neolib::thread_pool;
    std::size_t limit = pool->max_threads(); // the most that may be running now
    int running = 0; bool open = false;
    auto fresh = [recs] { sim::quiet q; auto* r = new rec{ (int)recs->size() }; recs->push_back(r); return r; };
    bool const block = sim::chance(50);
    auto body = [&](rec* r, unsigned k, bool mayBlock)
    {
        {
            sim::quiet q; ++r->begun; ++running; sim::log("run %d with %d running", r->id, running);
            SIM_CHECK(r->begun == 1, "task-ran-twice", "task %d ran twice", r->id);
            SIM_CHECK(!r->refused, "refused-task-ran", "task %d was refused by try_start and ran", r->id);
            SIM_CHECK((std::size_t)running <= limit, "limit", "%d tasks running at once with a maximum of %zu", running, limit);
            if ((std::size_t)running == limit) sim::probe("at_limit");
        }
        spend(k);
        if (mayBlock) for (;;) { { sim::quiet q; if (open) break; } std::this_thread::sleep_for(std::chrono::microseconds(200)); }
        sim::quiet q; --running; r->finished = true;
    };
    std::vector<std::vector<std::array<unsigned, 2>>> scripts;
    int const nclients = 1 + (int)sim::rnd(3);
    for (int c = 0; c < nclients; ++c) { scripts.emplace_back(); int n = 1 + (int)sim::rnd(6); for (int i = 0; i < n; ++i) scripts.back().push_back({ (unsigned)sim::rnd(6), (unsigned)sim::rnd(4) }); }
    std::vector<std::pair<std::size_t, unsigned>> changes; { int n = (int)sim::rnd(4); for (int i = 0; i < n; ++i) changes.emplace_back(1 + sim::rnd(4), (unsigned)sim::rnd(3)); }
    struct t_ : neolib::task<> { std::function<void()> f; t_(std::function<void()> f) : f{ f } {} void run(neolib::yield_type) override { f(); } };
    auto client = [&](int c)
    {
        for (auto const& op : scripts[(std::size_t)c])
        {
            unsigned const k = op[1];
            switch (op[0])
            {
            case 0: case 1: { auto* r = fresh(); { sim::quiet q; r->accepted = true; } pool->run([&body, r, k, block] { body(r, k, block); }); break; }
            case 2: case 3:
            {
                auto* r = fresh(); { sim::quiet q; r->tried = true; }
                bool ok = pool->try_start(std::make_shared<t_>([&body, r, k] { body(r, k, false); }));
                sim::quiet q; if (ok) { r->accepted = true; sim::probe("try_start_accepted"); } else { r->refused = true; SIM_CHECK(!r->begun, "refused-task-ran", "task %d was refused by try_start and ran", r->id); sim::probe("try_start_refused"); }
                break;
            }
            case 4: { std::size_t a, m; { a = pool->available_threads(); sim::quiet q; m = limit; SIM_CHECK(a <= 8, "available", "available_threads() says %zu", a); } break; }
            case 5: { std::size_t a = pool->active_threads(), t = pool->total_threads(); SIM_CHECK(a <= t, "active", "active_threads() says %zu of %zu", a, t); break; }
            }
        }
    };
    auto controller = [&]
    {
        for (auto const& ch : changes)
        {
            spend(2);
            { sim::quiet q; limit = std::max(limit, ch.first); sim::log("reserve %zu", ch.first); }
            pool->reserve(ch.first);
            SIM_CHECK(pool->max_threads() == ch.first, "max-threads", "max_threads() is %zu after reserve(%zu)", pool->max_threads(), ch.first);
            if (ch.second == 0) continue;
            for (int i = 0; i < 20; ++i)
            {
                if (pool->active_threads() <= ch.first)
                {
                    { sim::quiet q; limit = ch.first; sim::probe("limit_settled"); }
                    std::size_t a = pool->available_threads(), b = pool->active_threads();
                    SIM_CHECK(a <= ch.first && b <= ch.first, "counts", "%zu active and %zu available with a maximum of %zu", b, a, ch.first);
                    break;
                }
                std::this_thread::sleep_for(std::chrono::microseconds(300));
            }
        }
    };
    std::vector<std::thread> ts; for (int c = 0; c < nclients; ++c) ts.emplace_back(client, c);
    ts.emplace_back(controller);
    for (auto& t : ts) t.join();
    // every task try_start accepted begins although the others are still held
    for (int i = 0; ; ++i)
    {
        bool all = true; int who = -1; { sim::quiet q; for (auto* r : *recs) if (r->tried && r->accepted && !r->begun) { all = false; who = r->id; } }
        if (all) break;
        SIM_CHECK(i < 2000, "try-start-waits", "task %d was accepted by try_start and waits behind other tasks", who);
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
    { sim::quiet q; open = true; }
    pool->wait();
    { sim::quiet q; for (auto* r : *recs) SIM_CHECK(!r->accepted || r->finished, "wait-too-early", "wait() returned before task %d finished", r->id); }
    std::size_t av = pool->available_threads(), ac = pool->active_threads(), mx = pool->max_threads();
    SIM_CHECK(ac == 0 && av == mx, "counts", "idle pool reports %zu active and %zu available of %zu", ac, av, mx);
    delete pool;
    sim::state((std::uint64_t)recs->size());
}
