// C20: one world used by several threads
#include <neolib/neolib.hpp>
#include <boost/asio.hpp>
#include <neolib/task/async_thread.hpp>
#include <neolib/app/power.hpp>
#include <neolib/ecs/ecs.hpp>
#include <neolib/ecs/entity.hpp>
#include <neolib/ecs/entity_archetype.hpp>
#include <neolib/ecs/entity_info.hpp>
#include <neolib/ecs/time.hpp>
#include "ecs.hpp"

namespace
{
    using namespace ecs_sim;
    struct shared_world
    {
        pumped_task task; std::unique_ptr<ne::ecs> w; std::atomic<int> done{ 0 }; bool faults = false, parallel = false; neolib::sink sink; std::unique_ptr<ne::entity_archetype> arch[2];
        // bookkeeping, by every thread, in quiet sections
        std::set<ne::entity_id> alive; std::set<ne::handle_id> handles; std::uint64_t next = 1; std::map<std::uint64_t, int> asked, arrived; int created = 0, destroyed = 0, createdEvents = 0, destroyedEvents = 0, appliesBegun = 0, appliesDone = 0;
        struct rec { std::optional<std::uint64_t> a, c; struct sum { std::uint64_t v; int begunBefore, doneBefore, begunAfter, doneAfter; }; std::optional<sum> b; std::optional<std::pair<std::uint64_t, ne::handle_id>> h; };
        std::map<ne::entity_id, rec> kept; // what is left when the threads have ended
        ne::i_ecs& i() { return *w; }
        template <typename F> bool attempt(F f) { if (!faults || sim::flip()) { f(); return true; } sim::alloc_fail_at(1 + (std::int64_t)sim::rnd(12)); try { f(); } catch (std::bad_alloc const&) { bool const fired = sim::alloc_fail_fired(); sim::alloc_fail_at(0); SIM_CHECK(fired, "bad-alloc", "bad_alloc without an allocation failure"); sim::probe("allocation_failed"); return false; } sim::alloc_fail_at(0); return true; }
        void check(ne::entity_id e, rec& r)
        {
            { auto& c = w->component<data_a>(); std::scoped_lock<ne::component_mutex<data_a>> lock{ c.mutex() }; SIM_CHECK(c.has_entity_record_no_lock(e) == !!r.a, "record-presence", "A of entity %u", (unsigned)e); if (r.a) { auto& d = c.entity_record_no_lock(e); SIM_CHECK(d.v == *r.a && d.whole(), "wrong-record", "entity %u: A is %llu instead of %llu", (unsigned)e, (unsigned long long)d.v, (unsigned long long)*r.a); } }
            if (r.b)
            {
                auto& c = w->component<data_b>(); int doneBefore, begunAfter; std::uint64_t v; { sim::quiet q; doneBefore = appliesDone; } { std::scoped_lock<ne::component_mutex<data_b>> lock{ c.mutex() }; v = c.entity_record_no_lock(e).v; } { sim::quiet q; begunAfter = appliesBegun; }
                int const least = std::max(0, doneBefore - r.b->begunAfter), most = begunAfter - r.b->doneBefore; SIM_CHECK(v >= r.b->v + (unsigned)least && v <= r.b->v + (unsigned)most, "wrong-record", "entity %u: B is %llu and was %llu; between %d and %d increments since", (unsigned)e, (unsigned long long)v, (unsigned long long)r.b->v, least, most);
            }
            if (r.c) { auto& c = w->component<data_c>(); std::scoped_lock<ne::component_mutex<data_c>> lock{ c.mutex() }; SIM_CHECK(c.entity_record_no_lock(e).v == *r.c, "wrong-record", "entity %u: C", (unsigned)e); }
            if (r.h) { auto& c = w->component<data_h>(); std::scoped_lock<ne::component_mutex<data_h>> lock{ c.mutex() }; auto& d = c.entity_record_no_lock(e); SIM_CHECK(d.v == r.h->first && d.handle == r.h->second && i().to_handle<void*>(d.handle) == reinterpret_cast<void*>(d.v), "wrong-record", "entity %u: H", (unsigned)e); }
        }
        void thread(int ops)
        {
            (void)neolib::async_event_queue::instance(); std::map<ne::entity_id, rec> mine; auto fresh = [&] { sim::quiet q; return next++; };
            auto pick = [&]() -> ne::entity_id { if (mine.empty()) return 0; auto i = mine.begin(); std::advance(i, (long)sim::rnd(mine.size())); return i->first; };
            for (; ops > 0; --ops)
            {
                auto const e = pick();
                switch (sim::rnd(16))
                {
                case 0: case 1: case 2: case 3:
                    {
                        ne::entity_id n = 0; rec r; auto const v = fresh(); auto& at = *arch[sim::rnd(2)]; rec::sum s{ v, 0, 0, 0, 0 }; { sim::quiet q; s.begunBefore = appliesBegun; s.doneBefore = appliesDone; }
                        if (attempt([&] { switch (sim::rnd(3)) { case 0: r.a = v; n = w->create_entity(at, data_a{ v }); break; case 1: r.a = v; r.b = s; n = w->create_entity(at, data_a{ v }, data_b{ v }); break; default: r.c = v; n = w->create_entity(at, data_c{ v }); break; } }))
                        { sim::quiet q; s.begunAfter = appliesBegun; s.doneAfter = appliesDone; if (r.b) r.b = s; SIM_CHECK(n != 0 && alive.insert(n).second, "id-reused", "entity %u is created and exists", (unsigned)n); mine[n] = r; ++created; }
                    }
                    break;
                case 4: if (e) { { sim::quiet q; alive.erase(e); ++destroyed; if (mine[e].h) handles.erase(mine[e].h->second); } mine.erase(e); w->destroy_entity(e); } break;
                case 5: if (e) { { sim::quiet q; alive.erase(e); ++destroyed; if (mine[e].h) handles.erase(mine[e].h->second); } mine.erase(e); w->async_destroy_entity(e); sim::probe("async_destroy"); } break;
                case 6: { auto const v = fresh(); { sim::quiet q; asked[v] = 1; } i().async_create_entity(*arch[sim::rnd(2)], data_a{ v }); sim::probe("async_create"); break; }
                case 7: case 8: if (e) { auto const v = fresh(); bool const had = !!mine[e].a; if (attempt([&] { w->populate(e, data_a{ v }); }) || (had && false)) mine[e].a = v; } break;
                case 9: if (e && !mine[e].c) { auto const v = fresh(); if (attempt([&] { w->populate(e, data_c{ v }); })) mine[e].c = v; } break;
                case 10: if (e && !mine[e].h)
                    {
                        auto const v = fresh(); auto const h = i().add_handle<int>(reinterpret_cast<void*>(v)); { sim::quiet q; SIM_CHECK(h != ne::null_id && handles.insert(h).second, "handle-reused", "handle %u is given twice", (unsigned)h); }
                        if (attempt([&] { w->populate(e, data_h{ v, h }); })) mine[e].h = { v, h }; else { { sim::quiet q; handles.erase(h); } i().release_handle<void*>(h); }
                    }
                    break;
                case 11: { { sim::quiet q; ++appliesBegun; } auto const inc = [](auto&, data_b& d) { ++d.v; sim::yield(); }; if (parallel && sim::chance(30)) { w->component<data_b>().parallel_apply(inc, sim::rnd(3)); sim::probe("parallel_apply"); } else w->component<data_b>().apply(inc); sim::quiet q; ++appliesDone; break; }
                case 12: { auto& c = w->component<data_a>(); bool const down = sim::flip(); c.sort([&](data_a const& l, data_a const& r) { return down ? r.v < l.v : l.v < r.v; }); break; }
                case 13: { auto& c = w->component<data_a>(); c.take_snapshot(); { auto s = c.snapshot(); auto& d = s.data(); std::scoped_lock<ne::component_mutex<data_a>> lock{ d.mutex() }; for (auto& p : mine) if (p.second.a && d.has_entity_record_no_lock(p.first)) SIM_CHECK(d.entity_record_no_lock(p.first).whole(), "snapshot", "a torn record in the snapshot"); } sim::probe("snapshot"); break; }
                case 14: { std::string const n(1, (char)('a' + sim::self() % 26)); auto const v = fresh(); w->populate_shared(n, data_c{ v }); auto& s = w->shared_component<data_c>(); std::unique_lock<neolib::i_lockable> lock{ s.mutex() }; SIM_CHECK(s[n].v == v, "wrong-record", "shared %s", n.c_str()); break; }
                default: sim::sleep_ns((std::int64_t)sim::rnd(4) * sim::ms); break;
                }
                if (sim::flip()) if (auto const c = pick()) check(c, mine[c]);
            }
            { sim::quiet q; for (auto& p : mine) kept.insert(p); } ++done;
        }
        void run()
        {
            (void)neolib::service<neolib::i_mutex_profiler>(); sReleasedTwice = 0; faults = sim::chance(40); sim::set_time_limit(100 * 3600 * sim::sec); sim::enable_fault("spurious_wakeup"); sim::enable_fault("time_skip"); parallel = sim::chance(25); if (parallel) sim::set_cpus(1 + (unsigned)sim::rnd(3));
            using ls = ne::ecs_locking_strategy; static ls const strategies[] = { ls::MultiThreaded, ls::MultiThreadedSpinlock, ls::MultiThreadedProfiled }; neolib::service<ne::i_ecs_params>().set_locking_strategy(strategies[sim::rnd(faults ? 2 : 3)]);
            w = std::make_unique<ne::ecs>(ne::ecs_flags::PopulateEntityInfo | ne::ecs_flags::NoThreads); for (unsigned n = 0; n < 2; ++n) arch[n] = std::make_unique<ne::entity_archetype>(neolib::uuid{ 9, 9, 9, 9, { 0, 0, 0, 0, 0, (std::uint8_t)n } }, "an archetype", std::initializer_list<neolib::uuid>{});
            if (faults) { (void)w->component<data_a>(); (void)w->component<data_b>(); (void)w->component<data_c>(); (void)w->component<data_h>(); }
            bool const events = !faults && sim::flip(); if (events) { sink += w->entity_created([&](ne::entity_id) { ++createdEvents; }); sink += w->entity_destroyed([&](ne::entity_id) { ++destroyedEvents; }); }
            std::vector<std::thread> threads; int const n = 2 + (int)sim::rnd(2); for (int i = 0; i < n; ++i) threads.emplace_back([this, ops = 5 + (int)sim::rnd(20)] { thread(ops); });
            auto pump = [&](int ms) { for (; ms > 0; --ms) { task.work(); sim::sleep_ns(sim::ms); } };
            while (done != n) pump(1);
            for (auto& t : threads) t.join(); 
            pump(5); 
            for (auto& p : kept) check(p.first, p.second);
            // everything else is gone; everything asked for has come
            auto& ca = w->component<data_a>(); std::size_t na = 0, nc = 0, nh = 0; for (auto& p : kept) { na += !!p.second.a; nc += !!p.second.c; nh += !!p.second.h; } std::set<ne::entity_id> unknown; for (std::size_t i = 0; i < ca.entities().size(); ++i) { auto const e = ca.entities()[i]; SIM_CHECK(&ca.entity_record(e) == &ca[i] && ca.entity(ca[i]) == e, "wrong-entity", "record %zu", i); if (!kept.count(e)) { SIM_CHECK(asked.erase(ca[i].v) == 1, "stray-records", "a record %llu of no entity", (unsigned long long)ca[i].v); } }
            SIM_CHECK(asked.empty(), "async-create", "%zu entities were never created", asked.size()); (void)na;
            SIM_CHECK(w->component<data_c>().component_data().size() == nc && w->component<data_h>().component_data().size() == nh, "stray-records", "%zu and %zu records of C and H instead of %zu and %zu", w->component<data_c>().component_data().size(), w->component<data_h>().component_data().size(), nc, nh);
            SIM_CHECK(sReleasedTwice == 0, "handle-released-twice", "a handle was released that was free already"); for (auto h : handles) SIM_CHECK(i().to_handle<void*>(h) != nullptr, "wrong-handle", "handle %u", (unsigned)h);
            std::size_t const infos = w->component<ne::entity_info>().component_data().size(); std::size_t const expected = ca.entities().size() + [&] { std::size_t k = 0; for (auto& p : kept) k += !p.second.a; return k; }(); SIM_CHECK(infos == expected, "stray-records", "%zu entity infos for %zu entities", infos, expected);
            if (events) { SIM_CHECK(destroyedEvents == destroyed && createdEvents - destroyedEvents == (int)infos, "events", "%d created and %d destroyed were reported; %d were destroyed and %zu exist", createdEvents, destroyedEvents, destroyed, infos); sim::probe("events_counted"); }
            sim::state(infos * 64 + nc * 8 + nh); sink.clear(); w.reset(); SIM_CHECK(data_a::sLive == 0, "leak", "%d records were never destroyed", data_a::sLive.load());
        }
    };
}
SIM_SCENARIO(ecs_shared) { neolib::allocate_service_provider(); auto h = std::make_unique<shared_world>(); neolib::async_event_queue::instance().register_with_task(h->task); neolib::services::register_service<neolib::i_async_task>(h->task); h->run(); auto& t = h->task; neolib::services::unregister_service<neolib::i_async_task>(t); }
