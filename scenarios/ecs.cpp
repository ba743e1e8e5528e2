// C20: entities and their component records
#include <neolib/neolib.hpp>
#include <boost/asio.hpp>
#include <neolib/task/async_thread.hpp>
#include <neolib/app/power.hpp>
#include <neolib/ecs/ecs.hpp>
#include <neolib/ecs/entity.hpp>
#include <neolib/ecs/entity_archetype.hpp>
#include <neolib/ecs/entity_info.hpp>
#include <neolib/ecs/time.hpp>
#include "ecs.hpp"

template<> neolib::i_async_task& neolib::services::start_service<neolib::i_async_task>() { throw std::logic_error{ "no task" }; }
namespace
{
    using namespace ecs_sim;
    // one thread, any history
    struct history
    {
        struct rec { std::optional<std::uint64_t> a, b, c; std::optional<std::pair<std::uint64_t, ne::handle_id>> h; std::optional<ne::i64> life; ne::i64 born = 0; bool dying = false; };
        pumped_task task; std::unique_ptr<ne::ecs> w; std::map<ne::entity_id, rec> live; std::set<ne::entity_id> gone; std::map<ne::handle_id, void*> handles; std::map<ne::entity_id, std::unique_ptr<ne::entity>> owned; std::map<std::string, std::uint64_t> shared; neolib::sink sink;
        std::map<ne::entity_id, int> created, destroyed; int createdAll = 0, destroyedAll = 0; std::optional<std::map<ne::entity_id, std::uint64_t>> snapshot; bool faults = false, infos = true, inDestroyed = false; std::uint64_t next = 1; ne::i64 now = 0; int pendingCreate = 0; std::vector<rec> toCreate; std::map<std::uint64_t, rec> byTag;
        std::unique_ptr<ne::entity_archetype> arch[2];
        template <typename F> bool attempt(F f) { if (!faults || sim::flip()) { f(); return true; } sim::alloc_fail_at(1 + (std::int64_t)sim::rnd(12)); try { f(); } catch (std::bad_alloc const&) { bool const fired = sim::alloc_fail_fired(); sim::alloc_fail_at(0); SIM_CHECK(fired, "bad-alloc", "bad_alloc without an allocation failure"); sim::probe("allocation_failed"); return false; } sim::alloc_fail_at(0); return true; }
        ne::handle_id add_handle(std::uint64_t v) { ne::handle_id h = i().add_handle<int>(reinterpret_cast<void*>(v)); SIM_CHECK(h != ne::null_id && !handles.count(h), "handle-reused", "handle %u is given twice", (unsigned)h); handles[h] = reinterpret_cast<void*>(v); return h; }
        ne::entity_id pick() { if (live.empty()) return 0; auto i = live.begin(); std::advance(i, (long)sim::rnd(live.size())); return i->first; }
        void born(ne::entity_id e, rec r) { SIM_CHECK(e != ne::null_entity && !live.count(e), "id-reused", "entity %u is created and exists", (unsigned)e); gone.erase(e); r.born = now; live[e] = r; created.erase(e); destroyed.erase(e); sim::probe("created"); }
        void died(ne::entity_id e) { auto i = live.find(e); SIM_CHECK(i != live.end(), "destroyed-twice", "entity %u is destroyed and does not exist", (unsigned)e); if (i->second.h) handles.erase(i->second.h->second); if (snapshot) snapshot->erase(e); live.erase(i); gone.insert(e); }
        void check(bool deep)
        {
            auto& ca = w->component<data_a>(); auto& cb = w->component<data_b>(); auto& ch = w->component<data_h>(); std::size_t na = 0, nb = 0, nh = 0;
            for (auto& p : live)
            {
                auto const e = p.first; auto& r = p.second; na += !!r.a; nb += !!r.b; nh += !!r.h;
                SIM_CHECK(ca.has_entity_record(e) == !!r.a && cb.has_entity_record(e) == !!r.b && ch.has_entity_record(e) == !!r.h, "record-presence", "entity %u: records %d %d %d instead of %d %d %d", (unsigned)e, ca.has_entity_record(e), cb.has_entity_record(e), ch.has_entity_record(e), !!r.a, !!r.b, !!r.h);
                if (infos) SIM_CHECK(w->component<ne::entity_info>().has_entity_record(e), "record-presence", "entity %u has no entity info", (unsigned)e);
                if (r.a) { auto& d = ca.entity_record(e); SIM_CHECK(d.whole() && d.v == *r.a, "wrong-record", "entity %u: A is %llu instead of %llu", (unsigned)e, (unsigned long long)d.v, (unsigned long long)*r.a); SIM_CHECK(ca.entity(d) == e, "wrong-entity", "A of entity %u is said to belong to %u", (unsigned)e, (unsigned)ca.entity(d)); }
                if (r.b) SIM_CHECK(cb.entity_record(e).v == *r.b, "wrong-record", "entity %u: B is %llu instead of %llu", (unsigned)e, (unsigned long long)cb.entity_record(e).v, (unsigned long long)*r.b);
                if (r.c) SIM_CHECK(w->component<data_c>().entity_record(e).v == *r.c, "wrong-record", "entity %u: C is %llu instead of %llu", (unsigned)e, (unsigned long long)w->component<data_c>().entity_record(e).v, (unsigned long long)*r.c);
                if (r.h) { auto& d = ch.entity_record(e); SIM_CHECK(d.v == r.h->first && d.handle == r.h->second, "wrong-record", "entity %u: H", (unsigned)e); }
            }
            SIM_CHECK(ca.component_data().size() == na && ca.entities().size() == na && cb.component_data().size() == nb && ch.component_data().size() == nh, "stray-records", "%zu records for %zu entities of A hold the data of %zu; B %zu of %zu; H %zu of %zu", ca.component_data().size(), ca.entities().size(), na, cb.component_data().size(), nb, ch.component_data().size(), nh);
            if (infos) SIM_CHECK(w->component<ne::entity_info>().component_data().size() == live.size(), "stray-records", "%zu entity infos for %zu entities", w->component<ne::entity_info>().component_data().size(), live.size());
            if (!deep) return;
            SIM_CHECK(!ca.has_entity_record(ne::null_entity), "stray-records", "the null entity has a record");
            for (auto e : gone) { SIM_CHECK(!ca.has_entity_record(e) && !cb.has_entity_record(e) && !ch.has_entity_record(e), "record-outlives-entity", "destroyed entity %u still has a record", (unsigned)e); bool threw = false; try { ca.entity_record(e); } catch (std::logic_error const&) { threw = true; } SIM_CHECK(threw, "record-outlives-entity", "the record of destroyed entity %u is found", (unsigned)e); }
            for (std::size_t i = 0; i < ca.entities().size(); ++i) SIM_CHECK(ca[i].v == *live.at(ca.entities()[i]).a, "wrong-entity", "record %zu of A is listed for entity %u", i, (unsigned)ca.entities()[i]);
            for (auto& p : handles) SIM_CHECK(i().to_handle<void*>(p.first) == p.second, "wrong-handle", "handle %u leads elsewhere", (unsigned)p.first);
            SIM_CHECK(sReleasedTwice == 0, "handle-released-twice", "a handle was released that was free already");
            for (auto& p : shared) { SIM_CHECK(w->shared_component<data_a>().component_data().count(p.first) && w->shared_component<data_a>()[p.first].v == p.second, "wrong-record", "shared %s", p.first.c_str()); }
            if (snapshot) { SIM_CHECK(ca.have_snapshot(), "snapshot", "there is no snapshot"); auto s = ca.snapshot(); auto& d = s.data(); SIM_CHECK(d.entities().size() == snapshot->size() && d.component_data().size() == snapshot->size(), "snapshot", "the snapshot holds %zu records instead of %zu", d.entities().size(), snapshot->size()); for (auto& p : *snapshot) SIM_CHECK(d.has_entity_record(p.first) && d.entity_record(p.first).v == p.second && d.entity_record(p.first).whole(), "snapshot", "entity %u in the snapshot", (unsigned)p.first); }
            for (auto& p : owned) SIM_CHECK(p.second->detached_or_destroyed() != (live.count(p.first) != 0) , "entity-object", "the object of entity %u is wrong about it", (unsigned)p.first);
            sim::state(live.size() * 4096 + na * 64 + nb * 8 + nh);
        }
        void create(rec r, bool direct)
        {
            auto& at = *arch[sim::rnd(2)]; std::size_t const before = (std::size_t)createdAll; ne::entity_id e = 0; std::uint64_t const v = next++;
            bool ok = attempt([&] {
                if (direct) { if (!w->archetype_registered(at)) w->register_archetype(at); e = w->create_entity(at.id()); return; }
                switch (sim::rnd(3)) { case 0: r.a = v; e = w->create_entity(at, data_a{ v }); break; case 1: r.a = v; r.b = v; e = w->create_entity(at, data_a{ v }, data_b{ v }); break; default: r.b = v; r.a = v; { data_b b{ v }; e = w->create_entity(at, b, data_a{ v }); } break; }
            });
            if (ok) { born(e, r); SIM_CHECK((std::size_t)createdAll == before + 1, "events", "entity_created was reported %d times for one entity", createdAll - (int)before); }
            else { int const d = createdAll - destroyedAll - (int)live.size(); SIM_CHECK(d == 0 || d == -1 /* no memory to report the creation with */, "failed-create", "%d entities were reported created and not destroyed; %zu exist, and a creation failed", createdAll - destroyedAll, live.size()); destroyedAll = createdAll - (int)live.size(); }
        }
        void destroy(ne::entity_id e)
        {
            int const before = destroyedAll; bool const notify = sim::chance(90) || owned.count(e); auto o = owned.find(e); 
            if (o != owned.end() && sim::flip()) { auto p = std::move(o->second); owned.erase(o); p.reset(); SIM_CHECK(destroyedAll == before + 1, "events", "entity_destroyed was reported %d times", destroyedAll - before); died(e); return; }
            w->destroy_entity(e, notify); SIM_CHECK(destroyedAll == before + (notify ? 1 : 0), "events", "entity_destroyed was reported %d times", destroyedAll - before); if (!notify) ++destroyedAll; died(e); if (owned.count(e)) { SIM_CHECK(owned[e]->detached_or_destroyed(), "entity-object", "destroyed"); owned.erase(e); }
        }
        // everything asynchronous happens here
        void commit()
        {
            int const before = destroyedAll; int expect = 0; std::set<ne::entity_id> dying; 
            w->commit_async_entity_destruction(); for (auto i = live.begin(); i != live.end();) { auto const e = i->first; bool const d = i->second.dying; ++i; if (d) { ++expect; died(e); if (owned.count(e)) { SIM_CHECK(owned[e]->detached_or_destroyed(), "entity-object", "entity %u was destroyed", (unsigned)e); owned.erase(e); } } }
            SIM_CHECK(destroyedAll == before + expect, "events", "entity_destroyed was reported %d times for %d entities", destroyedAll - before, expect);
            auto& ca = w->component<data_a>(); int const c0 = createdAll; std::set<ne::entity_id> known; for (auto& p : live) known.insert(p.first); newIds.clear();
            w->commit_async_entity_creation(); SIM_CHECK(createdAll == c0 + (int)toCreate.size() && newIds.size() == toCreate.size(), "async-create", "%d entities were created instead of %zu", createdAll - c0, toCreate.size());
            for (auto e : newIds) { SIM_CHECK(ca.has_entity_record(e), "async-create", "entity %u has no A", (unsigned)e); auto const v = ca.entity_record(e).v; auto t = byTag.find(v); SIM_CHECK(t != byTag.end(), "async-create", "entity %u has an A which was not given", (unsigned)e); born(e, t->second); byTag.erase(t); }
            toCreate.clear(); sim::probe("committed");
        }
        std::vector<ne::entity_id> newIds;
        ne::i_ecs& i() { return *w; }
        ne::clock& world_clock() { return w->shared_component<ne::clock>()[0]; }
        void run()
        {
            (void)neolib::service<neolib::i_mutex_profiler>(); sReleasedTwice = 0; faults = sim::chance(60); infos = sim::chance(85); sim::set_time_limit(240 * 3600 * sim::sec);
            using ls = ne::ecs_locking_strategy; static ls const strategies[] = { ls::MultiThreaded, ls::SingleThreaded, ls::MultiThreadedSpinlock, ls::MultiThreadedProfiled /* locks by allocating */ }; neolib::service<ne::i_ecs_params>().set_locking_strategy(strategies[sim::rnd(faults ? 3 : 4)]);
            w = std::make_unique<ne::ecs>((infos ? ne::ecs_flags::PopulateEntityInfo : ne::ecs_flags::None) | ne::ecs_flags::NoThreads); sWorldReleases = w.get();
            sink += w->entity_created([&](ne::entity_id e) { ++createdAll; newIds.push_back(e); }); sink += w->entity_destroyed([&](ne::entity_id) { ++destroyedAll; });
            for (unsigned i = 0; i < 2; ++i) arch[i] = std::make_unique<ne::entity_archetype>(neolib::uuid{ 9, 9, 9, 9, { 0, 0, 0, 0, 0, (std::uint8_t)i } }, "an archetype", std::initializer_list<neolib::uuid>{});
            if (infos) (void)w->system<ne::time>(); // so that what is created first is not created while memory runs out
            for (int ops = 10 + (int)sim::rnd(60); ops > 0; --ops)
            {
                auto const e = pick(); bool const idle = !e || live[e].dying;
                switch (sim::rnd(20))
                {
                case 0: case 1: case 2: create({}, false); break;
                case 3: create({}, true); break;
                case 4: if (e) destroy(e); break;
                case 5: if (!idle && infos) { w->async_destroy_entity(e); live[e].dying = true; if (sim::chance(30)) w->async_destroy_entity(e); sim::probe("async_destroy"); } break;
                case 6: if (live.size() < 40) { rec r; auto const v = next++; r.a = v; if (sim::flip()) { r.b = v; i().async_create_entity(*arch[0], data_a{ v }, data_b{ v }); } else if (sim::flip()) { r.c = v; i().async_create_entity(*arch[0], data_a{ v }, data_c{ v }); } else i().async_create_entity(*arch[1], data_a{ v }); toCreate.push_back(r); byTag[v] = r; sim::probe("async_create"); } break;
                case 7: commit(); break;
                case 8: case 9: if (e && sim::chance(10)) { data_a d{ 1 }; ne::i_component& raw = w->component<data_a>(); int refused = 0; try { raw.populate(e, &d, sizeof d + 1); } catch (std::logic_error const&) { ++refused; } try { raw.populate(e, nullptr, sizeof d); } catch (std::logic_error const&) { ++refused; } SIM_CHECK(refused == 2, "wrong-data", "data of another size, or none, was taken for a component's"); break; }
                    if (e) { auto const v = next++; bool const update = !!live[e].a; auto& c = w->component<data_a>(); if (attempt([&] { switch (sim::rnd(4)) { case 0: w->populate(e, data_a{ v }); break; case 1: { data_a d{ v }; c.populate(e, d); break; } case 2: { data_a d{ v }; c.populate(e, &d, sizeof d); break; } default: c.entity_record(e, true) = data_a{ v }; break; } })) live[e].a = v; else if (!update && c.has_entity_record(e)) { SIM_CHECK(c.entity_record(e).v == 0, "failed-populate", "a failed populate left %llu", (unsigned long long)c.entity_record(e).v); live[e].a = 0; } } break;
                case 10: if (e) { auto const v = next++; if (attempt([&] { w->populate(e, data_b{ v }); })) live[e].b = v; } break;
                case 11: if (e && !live[e].h) { auto const v = next++; ne::handle_id h = add_handle(v); if (attempt([&] { w->populate(e, data_h{ v, h }); })) live[e].h = { v, h }; else { i().release_handle<void*>(h); handles.erase(h); } } break;
                case 12: if (sim::flip()) add_handle(next++); else if (!handles.empty()) { auto i = handles.begin(); std::advance(i, (long)sim::rnd(handles.size())); bool used = false; for (auto& p : live) used |= p.second.h && p.second.h->second == i->first; if (sim::flip()) { i->second = reinterpret_cast<void*>(next++); this->i().update_handle<int>(i->first, i->second); } else if (!used) { void* was = i->second; SIM_CHECK(this->i().release_handle<void*>(i->first) == was, "wrong-handle", "released handle %u leads elsewhere", (unsigned)i->first); handles.erase(i); } } break;
                case 13: if (e && live[e].a && sim::flip()) { w->component<data_a>().destroy_entity_record(e); live[e].a.reset(); if (snapshot) snapshot->erase(e); } else if (e && live[e].h) { w->component<data_h>().destroy_entity_record(e); handles.erase(live[e].h->second); live[e].h.reset(); } break;
                case 14: { auto& c = w->component<data_a>(); std::map<ne::entity_id, std::uint64_t> m; for (auto& p : live) if (p.second.a) m[p.first] = *p.second.a; if (attempt([&] { c.take_snapshot(); })) snapshot = m; else snapshot.reset(); w->component<data_h>().take_snapshot(); sim::probe("snapshot"); break; }
                case 15: { auto& c = w->component<data_a>(); bool const down = sim::flip(); c.sort([&](data_a const& l, data_a const& r) { return down ? r.v < l.v : l.v < r.v; }); for (std::size_t i = 1; i < c.component_data().size(); ++i) SIM_CHECK(down ? c[i].v <= c[i - 1].v : c[i - 1].v <= c[i].v, "not-sorted", "records %zu and %zu", i - 1, i); sim::probe("sorted"); break; }
                case 16: { auto& c = w->component<data_b>(); c.apply([&](auto&, data_b& d) { d.v += 1000000; }); for (auto& p : live) if (p.second.b) *p.second.b += 1000000; break; }
                case 17: if (e && !owned.count(e)) owned[e] = std::make_unique<ne::entity>(*w, e); else if (e && owned.count(e) && infos && sim::flip()) { auto p = std::move(owned[e]); owned.erase(e); SIM_CHECK(p->id() == e, "entity-object", "id"); p->detach(); } break;
                case 18: { std::string const n = sim::flip() ? "one" : "two"; auto const v = next++; auto& sc = w->shared_component<data_a>(); auto const way = sim::rnd(4); if (way == 0) w->populate_shared(n, data_a{ v }); else if (way == 1) { data_a d{ v }; w->populate_shared(n, d); } else { data_a d{ v }; ne::i_shared_component& raw = sc; if (way == 3) { bool refused = false; try { raw.populate(n, &d, sizeof d - 1); } catch (std::logic_error const&) { refused = true; } try { raw.populate(n, nullptr, sizeof d); refused = false; } catch (std::logic_error const&) {} SIM_CHECK(refused, "wrong-data", "data of another size, or none, was taken for a component's"); } void const* p = raw.populate(n, &d, sizeof d); SIM_CHECK(p == &sc[n] && static_cast<data_a const*>(p)->v == v, "wrong-data", "populate() gave other data than it stored"); } shared[n] = v; break; }
                default: if (infos && e && !live[e].dying) // life spans, by the world's clock
                    {
                        if (!live[e].life && sim::flip()) { ne::i64 const n = (ne::i64)sim::rnd(1000) * 1000; w->populate(e, ne::entity_life_span{ n }); live[e].life = n; }
                        now += (ne::i64)sim::rnd(300) * 1000; world_clock().time = now; for (auto& p : live) if (p.second.life && now - p.second.born > *p.second.life) p.second.dying = true;
                        w->system<ne::time>().apply(); commit(); sim::probe("life_spans");
                    }
                    break;
                }
                check(sim::chance(30));
            }
            commit(); check(true); for (auto& p : owned) p.second->detached_or_destroyed();
            while (!live.empty()) { destroy(live.begin()->first); } check(true); owned.clear(); sink.clear(); w.reset(); SIM_CHECK(data_a::sLive == 0, "leak", "%d records were never destroyed", data_a::sLive.load());
        }
    };
}
SIM_SCENARIO(ecs_history) { neolib::allocate_service_provider(); (void)neolib::async_event_queue::instance(); auto h = std::make_unique<history>(); neolib::services::register_service<neolib::i_async_task>(h->task); h->run(); auto& t = h->task; neolib::services::unregister_service<neolib::i_async_task>(t); }
