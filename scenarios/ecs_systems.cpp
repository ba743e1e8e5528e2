// C21: systems, their threads, pausing, signalling and stopping
#include <neolib/neolib.hpp>
#include <boost/asio.hpp>
#include <neolib/task/async_thread.hpp>
#include <neolib/app/power.hpp>
#include <neolib/ecs/ecs.hpp>
#include <neolib/ecs/entity.hpp>
#include <neolib/ecs/entity_archetype.hpp>
#include <neolib/ecs/entity_info.hpp>
#include <neolib/ecs/time.hpp>
#include "ecs.hpp"

namespace
{
    using namespace ecs_sim;
    constexpr int systems = 3;
    enum class idle { wait, wait_for, spin };
    struct model
    {
        // how it behaves
        bool checks = true; idle mode = idle::wait; double period = 0.05;
        // what has happened
        bool exists = false, terminated = false, in = false; int begun = 0, paused = 0, left = 0, inflight = 0, mark = -1; bool marked = false;
    };
    struct world_model { model s[systems]; bool gone = false, threaded = true; };
    world_model* sModel;

    template <int N>
    struct sys : ne::system<data_a>
    {
        std::uint64_t magic = 0x5151515151515151ull + N; ne::component<data_a>& records;
        sys(ne::i_ecs& e) : ne::system<data_a>{ e }, records{ e.component<data_a>() } { start_thread_if(); }
        ~sys() { magic = 0; }
        neolib::uuid const& id() const override { return meta::id(); }
        neolib::i_string const& name() const override { return meta::name(); }
        bool apply() override
        {
            if (!can_apply()) throw cannot_apply();
            auto& m = sModel->s[N]; bool const pausedNow = m.checks && paused();
            { sim::quiet q; SIM_CHECK(!sModel->gone && magic == 0x5151515151515151ull + N, "applied-after-end", "system %d applies and its world has ended", N); SIM_CHECK(!m.in, "applied-at-once", "system %d is applied twice at the same time", N); }
            if (pausedNow) return false;
            {
                sim::quiet q; ++m.begun; m.in = true; 
                if (m.paused > 0 && !m.terminated) { SIM_CHECK(m.left > 0, "applied-while-paused", "paused system %d goes on applying", N); --m.left; sim::probe("late_application"); }
            }
            start_update(); records.apply([&](auto&, data_a& d) { ++d.v; d.payload = data_a::text(d.v); }); sim::yield(); end_update();
            { sim::quiet q; m.in = false; }
            if (have_thread() && get_thread().in()) switch (m.mode) { case idle::wait: wait(); break; case idle::wait_for: wait_for(m.period); break; default: yield(true); break; }
            return true;
        }
        struct meta
        {
            static neolib::uuid const& id() { static neolib::uuid const s{ 0x7, 0x7, 0x7, 0x7, { 0, 0, 0, 0, 0, (std::uint8_t)N } }; return s; }
            static neolib::i_string const& name() { static neolib::string const s = "a system"; return s; }
        };
    };

    struct play
    {
        pumped_task task; std::unique_ptr<ne::ecs> w; world_model m; bool worldPaused = false, faults = false; int baseThreads = 0; std::atomic<int> controllersDone{ 0 };
        struct mortal { ne::i64 born, life; bool destroyed; }; std::map<ne::entity_id, mortal> mortals; ne::i64 now = 0; neolib::sink sink;
        ne::i_system* get(int n)
        {
            ne::i_ecs& e = *w; bool failed = false; ne::i_system* r = nullptr; if (faults) sim::thread_faults(true);
            try { switch (n) { case 0: r = &e.system<sys<0>>(); break; case 1: r = &e.system<sys<1>>(); break; default: r = &e.system<sys<2>>(); break; } } catch (std::system_error const&) { failed = true; }
            sim::thread_faults(false); sim::quiet q; if (failed) { SIM_CHECK(sim::fault_count("thread_create_failure") > 0, "no-thread", "system %d could not be started", n); sim::probe("no_thread"); } else m.s[n].exists = true; return r;
        }
        void begin_signal(model& s) { sim::quiet q;  ++s.inflight; if (!s.checks) ++s.left; }
        void end_signal(model& s) { sim::quiet q; --s.inflight; }
        void now_paused(model& s, int extra) {  if (s.paused++ == 0) s.left = extra + s.inflight; }
        void mark(model& s) { s.mark = s.begun; s.marked = true; }
        void pause(ne::i_system& y, int n) { y.pause(); sim::quiet q; now_paused(m.s[n], m.s[n].checks ? 1 : 2); }
        void resume(ne::i_system& y, int n) { { sim::quiet q; if (--m.s[n].paused == 0) mark(m.s[n]); } begin_signal(m.s[n]); y.resume(); end_signal(m.s[n]); }
        void signal(ne::i_system& y, int n) { { sim::quiet q; if (m.s[n].paused == 0) mark(m.s[n]); } begin_signal(m.s[n]); y.signal(); end_signal(m.s[n]); sim::probe("signal"); }
        void pause_world() { if (worldPaused) return; w->pause_all_systems(); sim::quiet q; worldPaused = true; for (auto& s : m.s) now_paused(s, s.checks ? 1 : 2); sim::probe("world_paused"); }
        void resume_world() { if (!worldPaused) return; { sim::quiet q; worldPaused = false; for (auto& s : m.s) if (--s.paused == 0) mark(s); } for (auto& s : m.s) begin_signal(s); w->resume_all_systems(); for (auto& s : m.s) end_signal(s); }
        // other threads pause, resume and signal too; what they pause they resume
        void controller(int ops)
        {
            (void)neolib::async_event_queue::instance(); int held[systems] = {};
            for (; ops > 0; --ops)
            {
                int const n = (int)sim::rnd(systems); auto y = get(n); if (!y) continue;
                switch (sim::rnd(6)) { case 0: case 1: signal(*y, n); break; case 2: if (held[n] < 3) { pause(*y, n); ++held[n]; } break; case 3: if (held[n]) { resume(*y, n); --held[n]; } break; case 4: (void)y->paused(); (void)y->waiting(); (void)y->update_time(); y->set_debug(sim::flip()); break; default: sim::sleep_ns((std::int64_t)sim::rnd(30) * sim::ms); break; }
            }
            for (int n = 0; n < systems; ++n) while (held[n]-- > 0) resume(*get_again(n), n);
            ++controllersDone;
        }
        ne::i_system* get_again(int n) { ne::i_system* y; while (!(y = get(n))) ; return y; }
        ne::clock& world_clock() { return w->shared_component<ne::clock>()[0]; }
        void pump(std::int64_t ns) { for (auto const end = sim::now() + ns; sim::now() < end;) { task.work(); sim::sleep_ns(20 * sim::ms); } }
        void check_mortals(bool settled) { for (auto& p : mortals) { bool const due = now - p.second.born > p.second.life; SIM_CHECK(!p.second.destroyed || due, "destroyed-early", "entity %u is destroyed before its life span is over", (unsigned)p.first); if (settled) SIM_CHECK(p.second.destroyed || !due, "outlived", "entity %u has outlived its life span", (unsigned)p.first); } }
        void settle() // faults stop: progress within a bounded time
        {
            std::array<int, systems> b; { sim::quiet q; for (int n = 0; n < systems; ++n) b[n] = m.s[n].begun; } sim::set_faults(false); pump(5 * sim::sec); sim::quiet q;
            for (int n = 0; n < systems; ++n)
            {
                auto& s = m.s[n]; if (!s.exists) continue;
                if (s.paused == 0) { if (s.marked || !s.terminated) SIM_CHECK(s.begun > s.mark, "lost-signal", "system %d was signalled or resumed and did not apply afterwards", n); if (s.mode != idle::wait || !m.threaded) SIM_CHECK(s.begun > b[n], "stalled", "running system %d no longer applies", n); }
            }
        }
        void run()
        {
            sReleasedTwice = 0; sModel = &m; sim::set_time_limit(100 * 3600 * sim::sec); m.threaded = sim::chance(85); faults = sim::chance(25); sim::enable_fault("thread_create_failure"); sim::enable_fault("spurious_wakeup"); sim::enable_fault("time_skip"); baseThreads = sim::threads_alive();
            for (auto& s : m.s) { s.checks = !m.threaded || sim::flip(); s.mode = (idle)sim::rnd(3); s.period = 0.01 * (double)(1 + sim::rnd(100)); }
            using ls = ne::ecs_locking_strategy; static ls const strategies[] = { ls::MultiThreaded, ls::MultiThreadedSpinlock, ls::MultiThreadedProfiled }; neolib::service<ne::i_ecs_params>().set_locking_strategy(strategies[sim::rnd(3)]);
            worldPaused = sim::chance(30); w = std::make_unique<ne::ecs>(ne::ecs_flags::PopulateEntityInfo | (m.threaded ? ne::ecs_flags::None : ne::ecs_flags::NoThreads) | (worldPaused ? ne::ecs_flags::CreatePaused : ne::ecs_flags::None)); ne::entity_archetype at{ neolib::uuid{ 9, 9, 9, 9, { 0, 0, 0, 0, 0, 1 } }, "an archetype", std::initializer_list<neolib::uuid>{} };
            if (worldPaused) for (auto& s : m.s) now_paused(s, s.checks ? 0 : 1);
            sink += w->entity_destroyed([&](ne::entity_id e) { auto i = mortals.find(e); if (i != mortals.end()) { SIM_CHECK(!i->second.destroyed, "destroyed-twice", "entity %u", (unsigned)e); i->second.destroyed = true; } check_mortals(false); });
            bool const lives = sim::chance(50); int const entities = (int)sim::rnd(4); for (int i = 0; i < entities; ++i) w->create_entity(at, data_a{ (std::uint64_t)i });
            std::vector<std::thread> threads; for (int i = (int)sim::rnd(3); i > 0; --i) threads.emplace_back([this, ops = 5 + (int)sim::rnd(15)] { controller(ops); });
            ne::i_system* clockSystem = nullptr; int held[systems] = {};
            for (int ops = 5 + (int)sim::rnd(25); ops > 0; --ops)
            {
                int const n = (int)sim::rnd(systems);
                switch (sim::rnd(14))
                {
                case 0: case 1: if (auto y = get(n)) signal(*y, n); break;
                case 2: if (auto y = get(n)) if (held[n] < 2) { pause(*y, n); ++held[n]; } break;
                case 3: if (held[n]) { resume(*get_again(n), n); --held[n]; } break;
                case 4: pause_world(); break;
                case 5: resume_world(); break;
                case 6: case 7: pump((std::int64_t)(1 + sim::rnd(200)) * sim::ms); break;
                case 8: if (controllersDone == (int)threads.size() && sim::flip() && m.s[n].exists && m.threaded)
                    {
                        auto& s = m.s[n]; auto& y = *get(n); y.terminate(); { sim::quiet q; s.terminated = true; } int b; { sim::quiet q; b = s.begun; } sim::sleep_ns(2 * sim::sec); { sim::quiet q; SIM_CHECK(s.begun == b, "applied-after-end", "terminated system %d goes on applying", n); } sim::probe("terminated");
                        if (sim::flip()) { { sim::quiet q; s.terminated = false; s.left = 2; if (s.paused == 0) mark(s); } y.start_thread(); sim::probe("restarted"); }
                    }
                    break;
                case 9: sim::sleep_ns((std::int64_t)sim::rnd(300) * sim::ms); break;
                case 10: if (auto y = get(n)) { (void)y->update_time(); y->set_debug(sim::flip()); } break;
                default: if (lives)
                    {
                        if (!clockSystem) { sim::thread_faults(false); clockSystem = &w->system<ne::time>(); if (worldPaused) {} }
                        if (sim::flip()) { now += (ne::i64)sim::rnd(300) * 1000; world_clock().time = now; } else { auto const life = (ne::i64)sim::rnd(300) * 1000; auto const e = w->create_entity(at); mortals[e] = { now, life, false }; w->populate(e, ne::entity_life_span{ life }); sim::probe("mortal"); }
                    }
                    break;
                }
                check_mortals(false);
            }
            bool const orderly = sim::chance(70);
            if (orderly) { for (auto& t : threads) { while (controllersDone != (int)threads.size()) pump(20 * sim::ms); t.join(); } for (int n = 0; n < systems; ++n) while (held[n]-- > 0) resume(*get_again(n), n); resume_world(); settle(); check_mortals(true); for (int n = 0; n < systems; ++n) if (m.s[n].exists) { SIM_CHECK(!get_again(n)->paused(), "paused", "system %d is still paused", n); } sim::probe("settled"); }
            else for (auto& t : threads) t.join();
            w.reset(); m.gone = true; SIM_CHECK(sim::threads_alive() == baseThreads, "thread-outlives-world", "%d threads are left", sim::threads_alive() - baseThreads); sim::sleep_ns(3 * sim::sec); SIM_CHECK(data_a::sLive == 0, "leak", "%d records were never destroyed", data_a::sLive.load()); for (auto& s : m.s) sim::state((std::uint64_t)s.begun);
        }
    };
}
SIM_SCENARIO(ecs_systems) { neolib::allocate_service_provider(); (void)neolib::async_event_queue::instance(); auto h = std::make_unique<play>(); neolib::services::register_service<neolib::i_async_task>(h->task); h->run(); auto& t = h->task; neolib::services::unregister_service<neolib::i_async_task>(t); }
