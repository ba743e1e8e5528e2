// C06, C07: timers and asynchronous tasks
#include <neolib/neolib.hpp>
#include <boost/asio.hpp>
#include <neolib/task/async_thread.hpp>
#include <neolib/task/time_slice.hpp>
#include <neolib/task/timer.hpp>
#include "common.hpp"

namespace
{
    struct thrown { int id; };
    struct context : neolib::lifetime<> {};
    struct pumped_task : neolib::async_task { pumped_task() : neolib::async_task{ "sim task" } {} bool work() { return static_cast<neolib::i_task&>(*this).do_work(neolib::yield_type::NoYield); } };
    using seconds = neolib::timer::duration_type;
    std::string payload(int id) { return "state captured by the callback of timer " + std::to_string(id); }

    struct timer_world
    {
        struct model { int id; bool enabled = true, armed = false, everDue = false; std::int64_t lo = 0, hi = 0; long armId = 0; int ctx = -1, gen = 0; std::int64_t dur = 0; long duePolls = 0; };
        std::unique_ptr<pumped_task> task; std::vector<std::unique_ptr<neolib::callback_timer>> timers; std::vector<model> models; std::vector<std::unique_ptr<context>> contexts; std::vector<int> ctxGen;
        int budget = 0, depth = 0, nextId = 1; bool allowThrow = false, throwing = false, throwNext = false; std::int64_t lastWork = 0; long fired = 0;

        bool ctxDead(model const& m) { return m.ctx >= 0 && (!contexts[(std::size_t)m.ctx] || ctxGen[(std::size_t)m.ctx] != m.gen); }
        void arm(model& m, std::int64_t before) { sim::quiet q; m.armed = true; m.lo = before + m.dur; m.hi = sim::now() + m.dur; ++m.armId; m.duePolls = 0; }
        void agrees(std::size_t i) { auto& m = models[i]; auto& t = *timers[i]; if (ctxDead(m)) return;
            SIM_CHECK(t.waiting() == m.armed, "waiting", "timer %d says waiting=%d, it is %s", m.id, t.waiting(), m.armed ? "armed" : "not armed");
            SIM_CHECK(t.enabled() == m.enabled && t.disabled() != m.enabled, "enabled", "timer %d says enabled=%d", m.id, t.enabled()); }
        void callback(int id, neolib::callback_timer& t, std::string const& mine)
        {
            std::size_t i = 0;
            {
                sim::quiet q; ++fired;
                SIM_CHECK(mine == payload(id), "callback-state", "callback of timer %d runs with damaged state '%s'", id, mine.c_str());
                while (i < models.size() && timers[i].get() != &t) ++i; // a copied timer has the callback of the original
                SIM_CHECK(i < models.size(), "called-after-destroy", "callback %d for a timer that does not exist any more", id);
                auto& m = models[i];
                SIM_CHECK(task != nullptr, "called-after-destroy", "timer %d called back after its task was destroyed", m.id);
                SIM_CHECK(m.armed, "called-unarmed", "timer %d called back though it is not armed (cancelled, or fired already)", m.id);
                SIM_CHECK(m.enabled, "called-disabled", "timer %d called back though it is disabled", m.id);
                SIM_CHECK(!ctxDead(m), "called-after-context", "timer %d called back after its context was destroyed", m.id);
                SIM_CHECK(sim::now() >= m.lo, "early", "timer %d called back %lld ns early", m.id, (long long)(m.lo - sim::now()));
                m.armed = false;
            }
            int const myId = models[i].id;
            ++depth;
            int n = budget > 0 ? (int)sim::rnd(4) : 0;
            for (int k = 0; k < n && task; ++k) { int me = -1; for (std::size_t j = 0; j < timers.size(); ++j) if (timers[j].get() == &t && models[j].id == myId) me = (int)j; step(sim::chance(60) ? me : -1, me >= 0 ? &t : nullptr); }
            std::string still = mine; SIM_CHECK(still == payload(id), "callback-state", "the state of callback %d changed while it ran", id);
            --depth;
            if (allowThrow && sim::chance(8)) { sim::probe("callback_throws"); throw thrown{ id }; }
        }
        void work(int times = 1)
        {
            for (; times > 0 && task; --times)
            {
                std::int64_t const t0 = sim::now(); std::vector<std::pair<int, long>> due;
                { sim::quiet q; for (auto& m : models) if (m.armed && m.hi <= t0 && !ctxDead(m)) due.push_back({ m.id, m.armId }); }
                bool threw = false, sliced = budget > 0 && sim::chance(15);
                ++depth;
                try { if (sliced) { neolib::scoped_time_slice ts{ std::chrono::microseconds{ (long)sim::rnd(400) } }; task->work(); } else task->work(); } catch (thrown const&) { threw = true; }
                --depth;
                sim::quiet q;
                if (threw) { sim::probe("work_threw"); continue; }
                for (auto& d : due) for (auto& m : models) if (m.id == d.first && m.armed && m.armId == d.second && !ctxDead(m))
                {
                    ++m.duePolls;
                    SIM_CHECK(sliced || depth > 0 || m.duePolls > 3 + 300 || fired > 200, "late", "timer %d was due before the task did its work and was not called back", m.id);
                    SIM_CHECK(m.duePolls < 50 || budget > 0, "late", "timer %d stays due though the task keeps working", m.id);
                }
                else if (m.id == d.first && m.armId == d.second) sim::probe("fired");
            }
        }
        void create(std::int64_t dur, bool wait, int ctx)
        {
            int const id = nextId++; auto cb = [this, id, mine = payload(id)](neolib::callback_timer& t) { callback(id, t, mine); };
            auto before = sim::now(); std::unique_ptr<neolib::callback_timer> t; seconds d = std::chrono::nanoseconds{ dur };
            { sim::quiet q; models.push_back({ id }); auto& m = models.back(); m.dur = dur; if (ctx >= 0 && contexts[(std::size_t)ctx]) { m.ctx = ctx; m.gen = ctxGen[(std::size_t)ctx]; } timers.emplace_back(); }
            if (ctx >= 0 && contexts[(std::size_t)ctx]) t = std::make_unique<neolib::callback_timer>(*task, *contexts[(std::size_t)ctx], cb, d, wait); else t = std::make_unique<neolib::callback_timer>(*task, cb, d, wait);
            sim::quiet q; timers.back() = std::move(t); if (wait) arm(models.back(), before);
        }
        template <typename E, typename F> void expect(bool throws, char const* what, F f) { bool got = false; try { f(); } catch (E const&) { got = true; } SIM_CHECK(got == throws, "refusal", "%s: %s", what, got ? "refused" : "not refused"); }
        void step(int self, neolib::callback_timer* running)
        {
            if (--budget < 0) return;
            std::size_t const i = self >= 0 ? (std::size_t)self : timers.empty() ? 0 : sim::rnd(timers.size());
            unsigned op = (unsigned)sim::rnd(16);
            if (timers.empty() && op > 2) op = 0;
            auto* t = timers.empty() ? nullptr : timers[i].get(); auto* m = timers.empty() ? nullptr : &models[i]; auto before = sim::now();
            switch (op)
            {
            case 0: case 1: if (timers.size() < 6) create((std::int64_t)sim::rnd(6) * 10 * sim::ms * (std::int64_t)(1 + sim::rnd(2)), !sim::chance(25), sim::chance(30) ? (int)sim::rnd(contexts.size()) : -1); return;
            case 2: if (sim::chance(50)) { auto k = sim::rnd(contexts.size()); std::unique_ptr<context> c; { sim::quiet q; c = std::move(contexts[k]); } if (!c) { c = std::make_unique<context>(); sim::quiet q; ++ctxGen[k]; contexts[k] = std::move(c); } else { c.reset(); sim::probe("context_destroyed"); } } return;
            case 3:
                if (ctxDead(*m)) return;
                expect<neolib::timer::already_waiting>(m->armed, "again() on a waiting timer", [&] { t->again(); });
                if (!m->armed) { m->enabled = true; arm(*m, before); }
                break;
            case 4: if (ctxDead(*m)) return; t->again_if(); if (!m->armed) { m->enabled = true; arm(*m, before); } break;
            case 5: { bool was = m->armed; t->cancel(); m->armed = false; if (was) sim::probe("cancelled"); } break;
            case 6: if (ctxDead(*m)) return; { bool was = m->armed; t->reset(); m->enabled = true; arm(*m, before); if (was) sim::probe("reset_while_waiting"); } break;
            case 7: if (ctxDead(*m)) return; { bool const wait = sim::flip(); expect<neolib::timer::already_enabled>(m->enabled, "enable() on an enabled timer", [&] { t->enable(wait); }); if (!m->enabled) { m->enabled = true; if (wait) arm(*m, before); sim::probe("enabled_again"); } } break;
            case 8: if (ctxDead(*m)) return; expect<neolib::timer::already_disabled>(!m->enabled, "disable() on a disabled timer", [&] { t->disable(); }); m->enabled = false; m->armed = false; break;
            case 9:
            {
                if (ctxDead(*m)) return;
                std::int64_t d = (std::int64_t)sim::rnd(8) * 10 * sim::ms; bool imm = sim::flip(); bool was = m->armed;
                t->set_duration(std::chrono::nanoseconds{ d }, imm); m->dur = d; if (imm && was) { arm(*m, before); sim::probe("duration_changed_while_waiting"); }
                break;
            }
            case 10:
            {
                std::unique_ptr<neolib::callback_timer> dead; { sim::quiet q; dead = std::move(timers[i]); timers.erase(timers.begin() + (long)i); models.erase(models.begin() + (long)i); }
                if (dead.get() == running) sim::probe("destroyed_in_own_callback"); dead.reset(); sim::probe("destroyed");
                return;
            }
            case 11:
            {
                if (timers.size() >= 6 || ctxDead(*m)) return;
                { sim::quiet q; models.push_back(*m); models.back().id = nextId++; models.back().armed = false; timers.emplace_back(); m = &models[i]; }
                auto c = std::make_unique<neolib::callback_timer>(*t);
                sim::quiet q; timers.back() = std::move(c); if (m->armed) arm(models.back(), before); sim::probe("copied");
                return;
            }
            case 12:
            {
                auto j = sim::rnd(timers.size()); if (j == i || ctxDead(*m) || ctxDead(models[j])) return; auto& o = models[j];
                static_cast<neolib::timer&>(*t) = *timers[j]; m->dur = o.dur; m->enabled = o.enabled; m->armed = false; if (o.armed) arm(*m, before); sim::probe("assigned");
                break;
            }
            case 13: if (depth < 3) { if (depth) sim::probe("nested_work"); work(1 + (int)sim::rnd(2)); } return;
            default: sim::sleep_ns((std::int64_t)sim::rnd(5) * 7 * sim::ms); if (op == 15 && depth < 2) work(); return;
            }
            for (std::size_t k = 0; k < timers.size(); ++k) if (timers[k].get() == t) agrees(k);
        }
    };
}

SIM_SCENARIO(timers)
{
    sim::enable_fault("time_skip");
    sim::set_time_limit(30 * 24 * 3600 * sim::sec);
    neolib::allocate_service_provider();
    (void)neolib::async_event_queue::instance();
    auto w = std::make_unique<timer_world>(); w->task = std::make_unique<pumped_task>();
    for (int i = 0; i < 2; ++i) { w->contexts.push_back(std::make_unique<context>()); w->ctxGen.push_back(0); }
    w->budget = 4 + (int)sim::rnd(50); w->allowThrow = sim::chance(30);
    while (w->budget > 0) { w->step(-1, nullptr); if (sim::chance(20)) w->work(); }
    w->allowThrow = false; w->budget = 0;
    sim::set_faults(false);
    bool const taskFirst = sim::flip();
    if (sim::flip())
    {
        // everything armed goes off once nothing interferes
        sim::sleep_ns(200 * sim::ms); w->work(3);
        for (std::size_t i = 0; i < w->models.size(); ++i) { auto& m = w->models[i]; SIM_CHECK(!m.armed || w->ctxDead(m), "late", "timer %d never went off", m.id); w->agrees(i); }
    }
    if (taskFirst)
    {
        { std::unique_ptr<pumped_task> t; { sim::quiet q; t = std::move(w->task); for (auto& m : w->models) m.armed = false; } t.reset(); }
        for (auto& t : w->timers) { if (sim::chance(30)) t->cancel(); if (sim::chance(20) && !t->waiting()) t->again(); }
        sim::sleep_ns(200 * sim::ms);
    }
    w->timers.clear(); w->contexts.clear(); w->task.reset();
    sim::state((std::uint64_t)w->fired);
}

// a task that outlives many timers does not keep what they leave behind
SIM_SCENARIO(timer_leftovers)
{
    sim::set_time_limit(3600 * sim::sec);
    neolib::allocate_service_provider();
    (void)neolib::async_event_queue::instance();
    pumped_task task; std::uint64_t base = 0;
    unsigned const mode = (unsigned)sim::rnd(4); int fired = 0;
    for (int round = 0; round < 40; ++round)
    {
        {
            auto t = std::make_unique<neolib::callback_timer>(task, [&](neolib::callback_timer& t) { ++fired; if (mode == 1 && sim::flip()) t.again(); }, seconds{ 0.01 }, mode != 3);
            if (mode != 3 || sim::flip()) { sim::sleep_ns(20 * sim::ms); task.work(); }
            if (mode == 2) t->again_if();
        }
        task.work();
        if (round == 9) base = sim::live_blocks();
    }
    SIM_CHECK(sim::live_blocks() <= base + 8, "leftovers", "30 timers came and went and left %lld blocks behind in their task", (long long)(sim::live_blocks() - base));
    sim::state((std::uint64_t)fired);
}

namespace
{
    struct loop_task : neolib::async_task { loop_task(std::string const& n) : neolib::async_task{ n } {} };
    struct loop_thread : neolib::async_thread
    {
        neolib::yield_type how; int& ended; std::thread::id& me; std::atomic<bool> begun = false;
        loop_thread(loop_task& t, neolib::yield_type h, int& e, std::thread::id& me, bool attach = false) : neolib::async_thread{ t, "sim thread", attach }, how{ h }, ended{ e }, me{ me } {}
        void exec(neolib::yield_type) override { { sim::quiet q; me = std::this_thread::get_id(); } begun = true; neolib::async_thread::exec(how); sim::quiet q; ++ended; }
    };
    struct job { int id, task, poster; std::uint64_t start, end = ~0ull, ran = 0; int count = 0, kind = 0; };
    struct loop_world
    {
        struct t_state { std::unique_ptr<loop_task> task; std::unique_ptr<loop_thread> thread; std::unique_ptr<neolib::event<int>> ev; std::unique_ptr<neolib::sink> sink; std::thread::id id; bool started = false, gone = false, inHandler = false; std::uint64_t haltEnd = ~0ull, checkpoint = 0; int ended = 0, subscribed = 0; std::vector<std::unique_ptr<neolib::callback_timer>> timers; int timersArmed = 0, timersFired = 0; std::vector<int> got; std::vector<std::array<std::uint64_t, 3>> trig; int idle = 0; };
        std::vector<t_state> tasks; std::deque<job> jobs; int tokens = 0;
        struct token { loop_world* w; int id; token(loop_world* w, int id) : w{ w }, id{ id } { sim::quiet q; ++w->tokens; } token(token const& o) : w{ o.w }, id{ o.id } { sim::quiet q; ++w->tokens; } ~token() { sim::quiet q; --w->tokens; } };
        void entered(int t, char const* what)
        {
            sim::quiet q; auto& s = tasks[(std::size_t)t];
            SIM_CHECK(!s.gone, "after-destroy", "%s runs after its task was destroyed", what);
            SIM_CHECK(std::this_thread::get_id() == s.id, "wrong-thread", "%s does not run on the thread that runs its task", what);
            SIM_CHECK(!s.inHandler, "nested", "%s runs inside another handler of the same task", what);
            SIM_CHECK(s.haltEnd > s.checkpoint, "after-halt", "%s starts after the task was halted", what);
            s.inHandler = true;
        }
        void left(int t, bool job = false) { sim::quiet q; tasks[(std::size_t)t].inHandler = false; if (job) tasks[(std::size_t)t].checkpoint = sim::seq(); } // events and timers that are due together are one batch
        void post(int t, int poster, int kind)
        {
            int id; { sim::quiet q; id = (int)jobs.size(); jobs.push_back({ id, t, poster, sim::seq() }); jobs.back().kind = kind; }
            auto& native = tasks[(std::size_t)t].task->io_context().native_object<boost::asio::io_context>();
            boost::asio::post(native, [this, id, t, kind, tok = token{ this, id }]() { run(id, t, kind); SIM_CHECK(tok.id == id, "job-state", "the state of job %d changed", id); });
            sim::quiet q; jobs[(std::size_t)id].end = sim::seq();
        }
        void run(int id, int t, int kind)
        {
            entered(t, "a posted job");
            auto& s = tasks[(std::size_t)t];
            {
                sim::quiet q; auto& j = jobs[(std::size_t)id]; SIM_CHECK(++j.count == 1, "twice", "job %d ran twice", id); j.ran = sim::seq();
                // asio keeps what a handler posts in a queue of its own until the handler returns
                for (auto& k : jobs) if (k.task == t && k.count == 0 && k.id != id && (k.poster != 100 || j.poster == 100)) SIM_CHECK(!(k.end < j.start), "wrong-order", "job %d ran before job %d, which was posted earlier", id, k.id);
            }
            switch (kind)
            {
            case 1: post(t, 100, 0); break;
            case 2: { { sim::quiet q; ++s.timersArmed; } auto timer = std::make_unique<neolib::callback_timer>(*s.task, [this, t](neolib::callback_timer&) { entered(t, "a timer"); { sim::quiet q; ++tasks[(std::size_t)t].timersFired; } left(t); }, seconds{ 0.003 }); sim::quiet q; s.timers.push_back(std::move(timer)); break; }
            case 3: static_cast<neolib::i_task&>(*s.task).cancel(); sim::probe("quit_in_handler"); break;
            case 4: { auto& e = *s.ev; *s.sink += e([this, t](int v) { entered(t, "an event handler"); { sim::quiet q; tasks[(std::size_t)t].got.push_back(v); } left(t); }); sim::quiet q; ++s.subscribed; break; }
            case 5: s.task->halt(); { sim::quiet q; s.haltEnd = sim::seq(); } sim::probe("halt_in_handler"); break;
            case 6: { auto all = std::move(s.timers); s.timers.clear(); { sim::quiet q; s.timersArmed = s.timersFired; } all.clear(); sim::probe("timers_destroyed_in_loop"); break; }
            }
            left(t, true);
        }
    };
}

SIM_SCENARIO(task_loop)
{
    sim::enable_fault("spurious_wakeup"); sim::enable_fault("time_skip"); sim::enable_fault("weak_cas_failure");
    sim::set_time_limit(600 * sim::sec);
    neolib::allocate_service_provider();
    (void)neolib::async_event_queue::instance();
    auto w = std::make_unique<loop_world>();
    int const nt = 1 + (int)sim::rnd(2), np = (int)sim::rnd(3);
    w->tasks.resize((std::size_t)nt);
    std::vector<int> ending;
    for (int i = 0; i < nt; ++i)
    {
        auto& s = w->tasks[(std::size_t)i]; ending.push_back((int)sim::rnd(6));
        s.task = std::make_unique<loop_task>("task"); (void)s.task->io_context(); s.ev = std::make_unique<neolib::event<int>>(); s.sink = std::make_unique<neolib::sink>();
        s.thread = std::make_unique<loop_thread>(*s.task, sim::chance(70) ? neolib::yield_type::Sleep : sim::flip() ? neolib::yield_type::Yield : neolib::yield_type::NoYield, s.ended, s.id);
        s.started = !sim::chance(6);
    }
    std::vector<std::vector<std::array<unsigned, 2>>> scripts;
    for (int p = 0; p <= np; ++p) { scripts.emplace_back(); int n = 1 + (int)sim::rnd(7); for (int i = 0; i < n; ++i) scripts.back().push_back({ (unsigned)sim::rnd(10), (unsigned)sim::rnd((unsigned)nt) }); }
    std::vector<int> halts((std::size_t)nt, 0), quits((std::size_t)nt, 0);
    auto poster = [&](int p)
    {
        for (auto const& o : scripts[(std::size_t)p])
        {
            int const t = (int)o[1]; auto& s = w->tasks[(std::size_t)t];
            switch (o[0])
            {
            case 0: case 1: case 2: w->post(t, p, 0); break;
            case 3: w->post(t, p, 1); break;
            case 4: w->post(t, p, 2); break;
            case 5: w->post(t, p, sim::chance(0) ? 0 : 6); break;
            case 6: std::this_thread::sleep_for(std::chrono::microseconds(300)); break;
            default: if (quits[(std::size_t)t]) break; { int v; { sim::quiet q; v = (int)s.trig.size(); s.trig.push_back({ sim::seq(), ~0ull, s.subscribed > 0 ? 1ull : 0ull }); } s.ev->trigger(v); sim::quiet q; s.trig[(std::size_t)v][1] = sim::seq(); } break;
            }
        }
    };
    for (int i = 0; i < nt; ++i)
    {
        auto& s = w->tasks[(std::size_t)i];
        w->post(i, 50, 4);
        if (ending[(std::size_t)i] == 2) quits[(std::size_t)i] = 1; else if (ending[(std::size_t)i] == 3) halts[(std::size_t)i] = 1;
        if (s.started) { s.thread->start(); }
    }
    std::vector<std::thread> ts; for (int p = 1; p <= np; ++p) ts.emplace_back(poster, p);
    poster(0);
    for (int i = 0; i < nt; ++i)
    {
        if (quits[(std::size_t)i]) { w->post(i, 60, 3); }
        if (halts[(std::size_t)i]) { if (i % 2) w->post(i, 60, 5); else { auto& s = w->tasks[(std::size_t)i]; s.task->halt(); sim::quiet q; s.haltEnd = sim::seq(); sim::probe("halted"); } }
    }
    for (auto& t : ts) t.join();
    for (int i = 0; i < nt; ++i)
    {
        auto& s = w->tasks[(std::size_t)i]; int const how = ending[(std::size_t)i];
        if (s.started && (how == 0 || how == 4))
        {
            // everything posted is run
            bool done = false;
            while (!done) // the simulator reports it when this never ends
            {
                { sim::quiet q; done = true; for (auto& j : w->jobs) if (j.task == i && !j.count) done = false; if (s.timersFired < s.timersArmed) done = false;
                  for (std::size_t v = 0; v < s.trig.size(); ++v) if (s.trig[v][2]) { bool have = false; for (int g : s.got) have = have || g == (int)v; if (!have) done = false; } }
                if (!done) std::this_thread::sleep_for(std::chrono::milliseconds(1));
            }
            sim::quiet q;
            for (auto& j : w->jobs) if (j.task == i) SIM_CHECK(j.count == 1, "lost", "job %d was posted and never ran", j.id);
            SIM_CHECK(s.timersFired == s.timersArmed, "lost-timer", "%d of %d timers fired", s.timersFired, s.timersArmed);
            for (std::size_t v = 0; v < s.trig.size(); ++v) if (s.trig[v][2]) { int n = 0; for (int g : s.got) n += g == (int)v; SIM_CHECK(n == 1, "lost-event", "event %d reached its handler %d times", (int)v, n); }
            sim::probe("drained");
        }
        else if (s.started && how == 2)
        {
            while (!s.task->finished()) std::this_thread::sleep_for(std::chrono::milliseconds(1));
            SIM_CHECK(s.task->finished(), "no-end", "a task asked to quit by its own handler does not end");
        }
        for (std::size_t a = 0; a < s.got.size(); ++a) for (std::size_t b = a + 1; b < s.got.size(); ++b) SIM_CHECK(!(s.trig[(std::size_t)s.got[b]][1] < s.trig[(std::size_t)s.got[a]][0]), "event-order", "event %d arrived after event %d", s.got[b], s.got[a]);
        if (how == 4 && s.started) { static_cast<neolib::i_task&>(*s.task).cancel(); SIM_CHECK(!s.task->running(), "no-end", "cancel() returned and the task still runs"); s.task->wait(); }
        while (s.started && !s.thread->begun) std::this_thread::yield(); // a thread object is not destroyed while its thread starts
        s.thread.reset();
        { sim::quiet q; SIM_CHECK(!s.started || s.ended == 1, "no-end", "the task's thread object is gone and its run loop has not ended"); }
        bool const before = sim::flip(); if (before) { s.timers.clear(); }
        { sim::quiet q; s.gone = true; }
        s.sink.reset(); s.task.reset(); s.ev.reset();
        if (!before) { if (!s.timers.empty()) sim::probe("timers_outlive_task"); s.timers.clear(); }
    }
    std::this_thread::sleep_for(std::chrono::milliseconds(20));
    { sim::quiet q; SIM_CHECK(w->tokens == 0, "job-leak", "%d posted jobs are still alive after their tasks were destroyed", w->tokens); }
    sim::state(w->jobs.size());
}

// a task run by the thread that created it
SIM_SCENARIO(task_attached)
{
    sim::enable_fault("time_skip");
    sim::set_time_limit(600 * sim::sec);
    neolib::allocate_service_provider();
    auto w = std::make_unique<loop_world>(); w->tasks.resize(1); auto& s = w->tasks[0];
    s.task = std::make_unique<loop_task>("task"); s.ev = std::make_unique<neolib::event<int>>(); s.sink = std::make_unique<neolib::sink>();
    s.thread = std::make_unique<loop_thread>(*s.task, neolib::yield_type::NoYield, s.ended, s.id, true); s.id = std::this_thread::get_id();
    auto work = [&] { static_cast<neolib::i_task&>(*s.task).do_work(); w->left(0); };
    auto drain = [&] { for (int i = 0; i < 5; ++i) work(); for (auto& j : w->jobs) SIM_CHECK(j.count == 1, "lost", "job %d never ran", j.id); };
    neolib::sink idle; idle += s.task->idle_work([&]() { ++s.idle; });
    w->post(0, 0, 4);
    int n = (int)sim::rnd(8);
    for (int i = 0; i < n; ++i) switch (sim::rnd(6))
    {
    case 0: case 1: w->post(0, 0, (int)sim::rnd(3)); break;
    case 2: work(); break;
    case 3: if (w->jobs[0].count) s.ev->async_trigger(0); { sim::quiet q; s.trig.push_back({ sim::seq(), ~0ull, 0 }); } break;
    case 4: sim::sleep_ns(4 * sim::ms); break;
    case 5:
        drain(); s.task->cancel_io_context(); work(); sim::probe("io_context_cancelled"); // and a new one is made on demand
        w->post(0, 0, 0); drain(); break;
    }
    drain();
    int const before = s.idle; work(); SIM_CHECK(s.idle > before, "idle", "a task with nothing to do did not trigger idle_work");
    if (sim::flip())
    {
        if (sim::flip()) w->post(0, 0, 3);
        else { static_cast<neolib::i_task&>(*s.task).cancel(); sim::probe("cancelled_before_run"); }
        s.thread->start(); // runs the task in this thread until it is cancelled
        SIM_CHECK(s.task->finished(), "no-end", "start() of an attached thread returned and the task is not finished");
        sim::probe("ran_attached");
    }
    idle.clear();
    s.thread.reset(); s.gone = true; if (sim::flip()) s.timers.clear(); s.task.reset(); s.timers.clear();
    s.sink.reset(); s.ev.reset();
    { sim::quiet q; SIM_CHECK(w->tokens == 0, "job-leak", "%d posted jobs are still alive", w->tokens); }
    sim::state((std::uint64_t)s.idle);
}

// whatever keeps the loop busy, everything else that is due still gets its turn
SIM_SCENARIO(task_busy)
{
    sim::set_time_limit(3600 * sim::sec);
    neolib::allocate_service_provider();
    (void)neolib::async_event_queue::instance();
    auto task = std::make_unique<pumped_task>(); auto& native = task->io_context().native_object<boost::asio::io_context>();
    bool busyEvent = sim::flip(), busyJob = sim::flip(), busyTimer = sim::flip(), on = true;
    neolib::event<int> loud, quiet; neolib::sink sinks; long loudRan = 0, quietRan = 0, jobsRan = 0, timersRan = 0, n = 0;
    bool const viaTask = sim::chance(80); // or a queue of an outer task
    if (viaTask) task->register_event_queue(neolib::async_event_queue::instance());
    sinks += loud([&](int v) { ++loudRan; if (on) loud.async_trigger(v + 1); });
    sinks += quiet([&](int) { ++quietRan; });
    std::function<void()> again = [&]() { ++jobsRan; if (on) boost::asio::post(native, again); };
    neolib::callback_timer ticking{ *task, [&](neolib::callback_timer& t) { ++timersRan; if (on) t.again(); }, seconds{ 0.0 }, busyTimer };
    if (busyEvent) loud.async_trigger(0);
    if (busyJob) again();
    auto pump = [&] { task->work(); if (!viaTask) neolib::async_event_queue::instance().pump_events(); if (sim::chance(30)) sim::sleep_ns((std::int64_t)sim::rnd(3) * sim::ms); };
    int const rounds = 1 + (int)sim::rnd(6), enough = 20; std::vector<std::unique_ptr<neolib::callback_timer>> keep;
    for (int r = 0; r < rounds; ++r)
    {
        bool const wantJob = sim::flip(), wantTimer = sim::flip(), wantEvent = sim::flip(); long gotJob = 0, gotTimer = 0, q0 = quietRan;
        if (wantJob) boost::asio::post(native, [&gotJob] { ++gotJob; });
        if (wantTimer) keep.push_back(std::make_unique<neolib::callback_timer>(*task, [&gotTimer](neolib::callback_timer&) { ++gotTimer; }, seconds{ 0.001 * (double)sim::rnd(3) }));
        if (wantEvent) { quiet.async_trigger(r); ++n; }
        sim::sleep_ns(4 * sim::ms);
        for (int i = 0; i < enough && ((wantJob && !gotJob) || (wantTimer && !gotTimer) || (wantEvent && quietRan == q0)); ++i) pump();
        SIM_CHECK(gotJob == wantJob, "starved", "a posted job ran %ld times while the task is kept busy%s%s%s", gotJob, busyEvent ? " by an event" : "", busyJob ? " by a job" : "", busyTimer ? " by a timer" : "");
        SIM_CHECK(gotTimer == wantTimer, "starved", "a due timer ran %ld times while the task is kept busy%s%s%s", gotTimer, busyEvent ? " by an event" : "", busyJob ? " by a job" : "", busyTimer ? " by a timer" : "");
        SIM_CHECK(quietRan == q0 + wantEvent, "starved", "an event was delivered %ld times while the task is kept busy%s%s%s", quietRan - q0, busyEvent ? " by an event" : "", busyJob ? " by a job" : "", busyTimer ? " by a timer" : "");
        if (sim::chance(30)) keep.clear();
    }
    long const l0 = loudRan, j0 = jobsRan, t0 = timersRan; for (int i = 0; i < enough; ++i) pump();
    SIM_CHECK((loudRan > l0) == busyEvent && (jobsRan > j0) == busyJob && (timersRan > t0) == busyTimer, "starved", "one of the busy sources is starved by the others: events %ld, jobs %ld, timers %ld", loudRan - l0, jobsRan - j0, timersRan - t0);
    if (busyEvent + busyJob + busyTimer > 1) sim::probe("busy_twice");
    on = false; for (int i = 0; i < 5; ++i) pump();
    SIM_CHECK(!task->work(), "idle", "a task with nothing left to do says it did something");
    keep.clear(); sinks.clear(); if (viaTask) task->unregister_event_queue(neolib::async_event_queue::instance());
    if (sim::flip()) ticking.cancel(); sim::state((std::uint64_t)(rounds * 8 + busyEvent * 4 + busyJob * 2 + busyTimer));
}
