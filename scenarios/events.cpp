// C08, C09: events
#include <neolib/neolib.hpp>
#include <neolib/task/event.hpp>
#include "common.hpp"

namespace
{
    using event_t = neolib::event<int, std::string const&, neolib::i_string const&>;
    struct thrown { int id; };
    std::string text(int v) { return "argument of trigger number " + std::to_string(v); }
    std::string payload(int id) { return "state captured by the handler of subscription " + std::to_string(id); }

    // ---- one thread: every history of subscriptions, nested in handlers ----
    struct local_world
    {
        struct sub { int id, ev; long evGen; bool gone = false, stateless = false; };
        struct queued { int sub, ev; long evGen; int value; bool single; };
        struct frame { bool pump; int ev; long gen; std::vector<int> list; std::size_t pos = 0; int value = 0; bool accepted = false, dead = false; std::vector<queued> q; };
        std::vector<std::unique_ptr<event_t>> events; std::vector<long> gens;
        std::vector<std::unique_ptr<neolib::sink>> sinks; std::vector<std::vector<int>> sinkSubs;
        std::vector<sub> subs; std::vector<std::vector<int>> order; // per event
        std::vector<queued> queue; std::vector<frame*> stack; int nextValue = 1, budget, pendingThrows = 0; bool allowThrow;

        bool live(int s) { return !subs[(std::size_t)s].gone; }
        void gone(int s) { sim::quiet q; auto& x = subs[(std::size_t)s]; if (x.gone) return; x.gone = true; auto& o = order[(std::size_t)x.ev]; for (std::size_t i = 0; i < o.size(); ++i) if (o[i] == s) { o.erase(o.begin() + (long)i); break; } }
        void called(int s, int v, std::string const& str, std::string const& mine)
        {
            sim::quiet q;
            SIM_CHECK(mine == payload(s), "handler-state", "handler %d runs with damaged state '%s'", s, mine.c_str());
            SIM_CHECK(!stack.empty(), "called-unasked", "handler %d called though nothing is triggered or pumped", s);
            auto& f = *stack.back();
            SIM_CHECK(live(s), "called-after-removal", "handler %d called after its subscription was removed (%s)", s, f.pump ? "queued call" : "trigger");
            if (!f.pump)
            {
                SIM_CHECK(v == f.value && str == text(v), "arguments", "handler %d got %d '%s', triggered with %d", s, v, str.c_str(), f.value);
                SIM_CHECK(!f.dead, "called-after-destroy", "handler %d called after its event was destroyed", s);
                SIM_CHECK(!f.accepted, "called-after-accept", "handler %d called though an earlier handler accepted the event", s);
                while (f.pos < f.list.size() && !live(f.list[f.pos])) ++f.pos;
                SIM_CHECK(f.pos < f.list.size() && f.list[f.pos] == s, "wrong-order", "handler %d called, expected handler %d", s, f.pos < f.list.size() ? f.list[f.pos] : -1);
                ++f.pos;
            }
            else
            {
                for (std::size_t i = 0; i < f.q.size(); ++i)
                {
                    auto& e = f.q[i];
                    if (e.sub == s && e.value == v && events[(std::size_t)e.ev] && gens[(std::size_t)e.ev] == e.evGen)
                    {
                        SIM_CHECK(str == text(v), "arguments", "handler %d got '%s' with %d", s, str.c_str(), v);
                        if (!e.single) for (std::size_t j = 0; j < i; ++j) { auto& b = f.q[j]; SIM_CHECK(b.single || !live(b.sub) || !events[(std::size_t)b.ev] || gens[(std::size_t)b.ev] != b.evGen, "wrong-order", "queued call %d of handler %d delivered before call %d of handler %d which was triggered earlier", v, s, b.value, b.sub); }
                        f.q.erase(f.q.begin() + (long)i); sim::probe("queued_call_delivered"); return;
                    }
                }
                sim::fail("called-unasked", "handler %d called from the queue with %d which was not queued for it (or twice)", s, v);
            }
        }
        void handler_body(int s)
        {
            if (budget <= 0) return;
            int n = (int)sim::rnd(3);
            for (int i = 0; i < n; ++i) step(s);
            if (allowThrow && sim::chance(6)) { sim::probe("handler_throws"); throw thrown{ s }; }
        }
        void trigger(int e, int mode)
        {
            auto* ev = events[(std::size_t)e].get(); if (!ev) return;
            int const v = nextValue++;
            if (mode == 0 || mode == 3)
            {
                ev->set_trigger_type(mode == 0 ? neolib::trigger_type::Synchronous : neolib::trigger_type::SynchronousDontQueue);
                frame f; { sim::quiet q; f.pump = false; f.ev = e; f.gen = gens[(std::size_t)e]; f.list = order[(std::size_t)e]; f.value = v; stack.push_back(&f); }
                bool threw = false; auto r = neolib::trigger_result::Unknown;
                try { r = ev->trigger(v, text(v), neolib::string{ text(v) }); } catch (thrown const&) { threw = true; }
                sim::quiet q; stack.pop_back();
                if (threw) { sim::probe("trigger_threw"); return; }
                if (!f.dead && !f.accepted) for (; f.pos < f.list.size(); ++f.pos) SIM_CHECK(!live(f.list[f.pos]), "not-called", "trigger %d did not call handler %d", v, f.list[f.pos]);
                SIM_CHECK((r == neolib::trigger_result::Accepted) == (f.accepted && !f.dead), "result", "trigger reports %d, accepted %d", (int)r, f.accepted);
                if (f.accepted) sim::probe("accepted"); if (f.dead) sim::probe("event_destroyed_in_handler");
            }
            else
            {
                bool const dont = mode == 2;
                { sim::quiet q; for (int s : order[(std::size_t)e]) { bool single = dont || subs[(std::size_t)s].stateless; bool merged = false;
                    if (single) for (auto& x : queue) if (x.single && x.sub == s) { x.value = v; merged = true; }
                    if (!merged) queue.push_back({ s, e, gens[(std::size_t)e], v, single }); } }
                ev->set_trigger_type(dont ? neolib::trigger_type::AsynchronousDontQueue : neolib::trigger_type::Asynchronous);
                ev->trigger(v, text(v), neolib::string{ text(v) });
            }
        }
        void pump()
        {
            frame f; { sim::quiet q; f.pump = true; f.ev = -1; f.gen = 0; f.q.swap(queue); stack.push_back(&f); }
            bool threw = false;
            try { neolib::async_event_queue::instance().pump_events(); } catch (thrown const&) { threw = true; }
            sim::quiet q; stack.pop_back();
            if (threw) { sim::probe("pump_threw"); queue.insert(queue.begin(), f.q.begin(), f.q.end());
                // a coalesced call triggered again meanwhile counts once
                for (std::size_t i = 0; i < queue.size(); ++i) if (queue[i].single) for (std::size_t j = i + 1; j < queue.size(); ) if (queue[j].single && queue[j].sub == queue[i].sub) { queue[i].value = queue[j].value; queue.erase(queue.begin() + (long)j); } else ++j;
                return; }
            for (auto& e : f.q) SIM_CHECK(!live(e.sub) || !events[(std::size_t)e.ev] || gens[(std::size_t)e.ev] != e.evGen, "not-called", "queued call %d of handler %d was not delivered by the pump", e.value, e.sub);
        }
        void clear_sink(int k) { std::vector<int> l; { sim::quiet q; l.swap(sinkSubs[(std::size_t)k]); for (int s : l) gone(s); } }
        void destroy_event(int e)
        {
            std::unique_ptr<event_t> dead;
            { sim::quiet q; if (!events[(std::size_t)e]) return; for (auto* f : stack) if (!f->pump && f->ev == e && f->gen == gens[(std::size_t)e]) f->dead = true;
              dead = std::move(events[(std::size_t)e]); ++gens[(std::size_t)e]; for (int s : order[(std::size_t)e]) subs[(std::size_t)s].gone = true; order[(std::size_t)e].clear(); }
            dead.reset(); sim::probe("event_destroyed");
        }
        void step(int me)
        {
            if (--budget < 0) return;
            int const e = (int)sim::rnd(events.size()), k = (int)sim::rnd(sinks.size());
            switch (sim::rnd(me < 0 ? 13 : 15))
            {
            case 0: case 1: case 2:
            {
                auto* ev = events[(std::size_t)e].get(); if (!ev || subs.size() >= 24) break;
                int const id = (int)subs.size(); bool const prio = sim::chance(25), emitter = sim::chance(25), stateless = sim::chance(25); int const how = (int)sim::rnd(4);
                auto proxy = (*ev)([this, id, mine = payload(id)](int v, std::string const& s, neolib::i_string const& abstract) { SIM_CHECK(abstract.to_std_string_view() == s, "arguments", "handler %d got '%s' and '%s'", id, s.c_str(), std::string{ abstract.to_std_string_view() }.c_str()); called(id, v, s, mine); handler_body(id); std::string still = mine; SIM_CHECK(still == payload(id), "handler-state", "handler %d's captured state changed while it ran", id); }, prio);
                if (emitter) ~proxy; if (stateless) !proxy;
                { sim::quiet q; subs.push_back({ id, e, gens[(std::size_t)e], false, stateless }); auto& o = order[(std::size_t)e]; if (prio) o.insert(o.begin(), id); else o.push_back(id); }
                if (how == 3) { clear_sink(k); *sinks[(std::size_t)k] = std::move(proxy); } else if (how) *sinks[(std::size_t)k] += std::move(proxy);
                { sim::quiet q; if (how) sinkSubs[(std::size_t)k].push_back(id); else sim::probe("subscribed_without_sink"); }
                break;
            }
            case 3: case 4: case 5: if (stack.size() < 4) trigger(e, sim::chance(20) ? 3 : 0); break;
            case 6: trigger(e, 1); break;
            case 7: trigger(e, 2); break;
            case 8: if (stack.size() < 4) pump(); break;
            case 9: clear_sink(k); sinks[(std::size_t)k]->clear(); break;
            case 10: clear_sink(k); { auto dead = std::move(sinks[(std::size_t)k]); sinks[(std::size_t)k] = std::make_unique<neolib::sink>(); } break;
            case 11: if (sim::chance(40)) destroy_event(e); break;
            case 12: if (!events[(std::size_t)e]) events[(std::size_t)e] = std::make_unique<event_t>(); break;
            default:
            {
                int t = e; { sim::quiet q; if (!stack.empty() && !stack.back()->pump && sim::chance(70)) t = stack.back()->ev; if (!events[(std::size_t)t]) break; for (auto i = stack.rbegin(); i != stack.rend(); ++i) if (!(*i)->pump && (*i)->ev == t && (*i)->gen == gens[(std::size_t)t]) { (*i)->accepted = true; break; } }
                events[(std::size_t)t]->accept(); break;
            }
            }
        }
    };
}

SIM_SCENARIO(events_local)
{
    sim::set_time_limit(600 * sim::sec);
    neolib::allocate_service_provider();
    neolib::service<neolib::i_event_system>().set_locking_strategy((neolib::event_system_locking_strategy)sim::rnd(4));
    (void)neolib::async_event_queue::instance();
    auto w = std::make_unique<local_world>(); w->budget = 5 + (int)sim::rnd(50); w->allowThrow = sim::chance(30);
    int const ne = 1 + (int)sim::rnd(3), ns = 1 + (int)sim::rnd(3);
    for (int i = 0; i < ne; ++i) { w->events.push_back(std::make_unique<event_t>()); w->gens.push_back(0); w->order.emplace_back(); }
    for (int i = 0; i < ns; ++i) { w->sinks.push_back(std::make_unique<neolib::sink>()); w->sinkSubs.emplace_back(); }
    while (w->budget > 0) w->step(-1);
    w->allowThrow = false; w->budget = 0;
    w->pump(); SIM_CHECK(w->queue.empty(), "pump", "calls left after the last pump");
    // tear down in some order
    if (sim::flip()) { for (int i = 0; i < ne; ++i) w->destroy_event(i); w->sinks.clear(); } else { w->sinks.clear(); w->events.clear(); }
    sim::state((std::uint64_t)w->nextValue * 31 + w->subs.size());
}

// ---- several threads, each with its own queue ----
namespace
{
    constexpr std::uint64_t never = ~0ull;
    struct shared_world
    {
        struct subrec { int id, owner, ev; bool emitter, stateless, prio, acceptor; std::uint64_t addStart, addEnd = never, rmStart = never, rmEnd = never; bool byOp = false; };
        struct trig { int value, thread, ev; bool async, dont; std::uint64_t start, end = never; bool accepted = false, reported = false; std::vector<int> direct; };
        struct call { int sub, value, thread; bool direct; std::uint64_t time; };
        std::vector<std::unique_ptr<event_t>> events; std::vector<std::uint64_t> dead; // dead: time at which destruction was complete
        std::deque<subrec> subs; std::deque<trig> trigs; std::vector<call> calls;
        std::vector<std::vector<int>> directStack; std::vector<std::uint64_t> checkpoint; // per thread
        std::vector<std::thread::id> ids;
        int arrived = 0; std::mutex m; std::condition_variable cv;
        bool may_call(int s, int v, std::string const& str, int me)
        {
            sim::quiet q; auto now = sim::seq();
            SIM_CHECK(s >= 0 && s < (int)subs.size() && v > 0 && v <= (int)trigs.size(), "arguments", "handler %d called with %d", s, v);
            auto& x = subs[(std::size_t)s]; auto& t = trigs[(std::size_t)v - 1];
            SIM_CHECK(str == text(v), "arguments", "handler %d got '%s' with %d", s, str.c_str(), v);
            SIM_CHECK(t.ev == x.ev, "wrong-event", "handler %d of event %d called for a trigger of event %d", s, x.ev, t.ev);
            bool const direct = !directStack[(std::size_t)me].empty() && directStack[(std::size_t)me].back() == v;
            if (direct) SIM_CHECK(!t.accepted, "called-after-accept", "handler %d called for trigger %d which an earlier handler accepted", s, v);
            SIM_CHECK(x.addStart < t.end, "called-unasked", "handler %d subscribed after trigger %d had returned and was called for it", s, v);
            SIM_CHECK(x.rmEnd > t.start, "called-after-removal", "handler %d was removed before trigger %d and called for it", s, v);
            SIM_CHECK(x.rmEnd > checkpoint[(std::size_t)me], "called-after-removal", "handler %d was removed and started afterwards for trigger %d", s, v);
            SIM_CHECK(dead[(std::size_t)x.ev] > checkpoint[(std::size_t)me], "called-after-destroy", "handler %d started for trigger %d after its event was destroyed", s, v);
            if (me != x.owner) SIM_CHECK(x.emitter && me == t.thread, "wrong-thread", "handler %d of thread %d called on thread %d for a trigger by thread %d", s, x.owner, me, t.thread);
            else if (direct) SIM_CHECK(me == t.thread, "wrong-thread", "handler %d called directly on another thread than the trigger's", s);
            for (auto& c : calls) SIM_CHECK(!(c.sub == s && c.value == v), "twice", "handler %d called twice for trigger %d", s, v);
            if (direct) for (int o : t.direct) { auto& y = subs[(std::size_t)o];
                SIM_CHECK(!(x.addEnd < y.addStart && !x.prio && !y.prio), "wrong-order", "trigger %d called handler %d before handler %d, which was subscribed earlier", v, o, s); }
            else for (auto i = calls.rbegin(); i != calls.rend(); ++i) if (!i->direct && i->thread == me) { auto& u = trigs[(std::size_t)i->value - 1]; auto& y = subs[(std::size_t)i->sub];
                bool single = t.dont || x.stateless || u.dont || y.stateless;
                SIM_CHECK(single || !(t.end < u.start || (t.thread == u.thread && t.start < u.start && t.end != never)), "wrong-order", "queued call of trigger %d delivered after that of trigger %d, which was triggered later", v, i->value); }
            calls.push_back({ s, v, me, direct, now });
            if (direct) t.direct.push_back(s);
            return direct;
        }
        void rendezvous(int n) { std::unique_lock<std::mutex> l{ m }; ++arrived; cv.notify_all(); cv.wait(l, [&] { return arrived >= n; }); }
    };
}

SIM_SCENARIO(events_threads)
{
    sim::enable_fault("spurious_wakeup"); sim::enable_fault("time_skip"); sim::enable_fault("weak_cas_failure");
    sim::set_time_limit(600 * sim::sec);
    neolib::allocate_service_provider();
    neolib::service<neolib::i_event_system>().set_locking_strategy((neolib::event_system_locking_strategy)(1 + sim::rnd(3)));
    (void)neolib::async_event_queue::instance();
    auto w = std::make_unique<shared_world>();
    int const nt = 2 + (int)sim::rnd(3), ne = 1 + (int)sim::rnd(2), owned = (int)sim::rnd(2); // owned: event destroyed by thread 0 with calls pending
    for (int i = 0; i < ne + owned; ++i) { w->events.push_back(std::make_unique<event_t>()); w->dead.push_back(never); w->events.back()->set_trigger_type((neolib::trigger_type)sim::rnd(4)); }
    w->directStack.resize((std::size_t)nt); w->checkpoint.resize((std::size_t)nt); w->ids.resize((std::size_t)nt);
    struct opr { unsigned op, e, a, b; };
    std::vector<std::vector<opr>> script((std::size_t)nt); std::vector<bool> early;
    for (int t = 0; t < nt; ++t) { int n = 2 + (int)sim::rnd(9); early.push_back(sim::chance(30)); for (int i = 0; i < n; ++i) script[(std::size_t)t].push_back({ (unsigned)sim::rnd(12), (unsigned)sim::rnd((unsigned)ne), (unsigned)sim::rnd(16), (unsigned)sim::rnd(16) }); }
    int pre = nt; // subscriptions to the owned event are complete before it is used
    auto body = [&](int me)
    {
        (void)neolib::async_event_queue::instance();
        auto sinks = std::make_unique<std::array<neolib::sink, 3>>(); std::array<std::vector<int>, 3> held; int depth = 0;
        auto trigger = [&](unsigned e, unsigned mode)
        {
            int v; { sim::quiet q; v = (int)w->trigs.size() + 1; auto type = w->events[e]->trigger_type(); w->trigs.push_back({ v, me, (int)e, mode >= 2, type == (mode >= 2 ? neolib::trigger_type::AsynchronousDontQueue : neolib::trigger_type::SynchronousDontQueue), sim::seq() }); if (mode < 2) { w->directStack[(std::size_t)me].push_back(v); } }
            auto& ev = *w->events[e]; bool accepted = false;
            if (mode < 2) accepted = ev.sync_trigger(v, text(v), neolib::string{ text(v) }) == neolib::trigger_result::Accepted; else ev.async_trigger(v, text(v), neolib::string{ text(v) });
            sim::quiet q; auto& t = w->trigs[(std::size_t)v - 1]; t.end = sim::seq(); t.reported = accepted; if (mode < 2) w->directStack[(std::size_t)me].pop_back();
            SIM_CHECK(t.accepted == accepted, "result", "trigger %d reports accepted=%d, handlers accepted=%d", v, accepted, t.accepted);
            if (accepted) sim::probe("accepted");
        };
        auto subscribe = [&](unsigned e, unsigned a, unsigned b)
        {
            int id; auto const k = b % 3; { sim::quiet q; id = (int)w->subs.size(); w->subs.push_back({ id, me, (int)e, a % 4 == 0, a % 4 == 1, b % 5 == 0, b % 7 == 0, sim::seq() }); }
            auto& x = w->subs[(std::size_t)id];
            auto proxy = (*w->events[e])([&, id, e, mine = payload(id)](int v, std::string const& s, neolib::i_string const& abstract)
            {
                int who = -1; { sim::quiet q; for (int i = 0; i < nt; ++i) if (w->ids[(std::size_t)i] == std::this_thread::get_id()) who = i; }
                SIM_CHECK(who >= 0, "wrong-thread", "handler %d called on a thread that neither subscribed nor triggers", id);
                SIM_CHECK(abstract.to_std_string_view() == s, "arguments", "handler %d got '%s' and '%s'", id, s.c_str(), std::string{ abstract.to_std_string_view() }.c_str());
                SIM_CHECK(mine == payload(id), "handler-state", "handler %d runs with damaged state '%s'", id, mine.c_str());
                bool const direct = w->may_call(id, v, s, who);
                if (w->subs[(std::size_t)id].acceptor) { if (direct) { sim::quiet q; w->trigs[(std::size_t)v - 1].accepted = true; } w->events[e]->accept(); }
                { sim::quiet q; w->checkpoint[(std::size_t)who] = sim::seq(); }
            }, x.prio);
            if (x.emitter) ~proxy; if (x.stateless) !proxy;
            (*sinks)[k] += std::move(proxy);
            sim::quiet q; x.addEnd = sim::seq(); held[k].push_back(id);
        };
        auto unsubscribe = [&](unsigned k) { { sim::quiet q; for (int s : held[k]) w->subs[(std::size_t)s].rmStart = sim::seq(); } (*sinks)[k].clear(); sim::quiet q; for (int s : held[k]) w->subs[(std::size_t)s].rmEnd = sim::seq(); held[k].clear(); };
        auto pump = [&] { { sim::quiet q; w->checkpoint[(std::size_t)me] = sim::seq(); } return neolib::async_event_queue::instance().pump_events(); };
        { sim::quiet q; w->ids[(std::size_t)me] = std::this_thread::get_id(); }
        if (owned) { if (me != 0) subscribe((unsigned)ne, 2, 1 + (unsigned)me % 2); w->rendezvous(pre); }
        for (auto const& o : script[(std::size_t)me])
        {
            { sim::quiet q; w->checkpoint[(std::size_t)me] = sim::seq(); }
            switch (o.op)
            {
            case 0: case 1: subscribe(o.e, o.a | 2u * (o.a % 3 == 0), o.b - o.b % 3); break; // into sink 0: emptied by op 5
            case 2: subscribe(o.e, o.a, 2 - (o.b & 1) + 3 * (o.b / 3)); break;
            case 3: case 4: trigger(o.e, 0); break;
            case 5: { sim::quiet q; for (int s : held[0]) w->subs[(std::size_t)s].byOp = true; } unsubscribe(0); break;
            case 6: trigger(o.e, 2); break;
            case 7: trigger(o.e, 2); break;
            case 8: case 9: pump(); break;
            case 10: std::this_thread::sleep_for(std::chrono::microseconds(50)); break;
            case 11:
                if (owned && me == 0 && w->events[(std::size_t)ne])
                {
                    if (o.a % 3) trigger((unsigned)ne, o.a % 2 ? 0 : 2);
                    else { std::unique_ptr<event_t> e; { sim::quiet q; e = std::move(w->events[(std::size_t)ne]); } e.reset(); { sim::quiet q; w->dead[(std::size_t)ne] = sim::seq(); } sim::probe("destroyed_with_calls_pending"); }
                }
                break;
            }
        }
        if (early[(std::size_t)me])
        {
            for (unsigned k = 0; k < 3; ++k) unsubscribe(k);
            sinks.reset(); sim::probe("thread_left_early");
            std::unique_lock<std::mutex> l{ w->m }; ++w->arrived; w->cv.notify_all();
            return;
        }
        w->rendezvous(nt + (owned ? nt : 0));
        while (pump()) {}
        for (unsigned k = 0; k < 3; ++k) unsubscribe(k);
    };
    if (owned) { for (int t = 0; t < nt; ++t) early[(std::size_t)t] = false; }
    std::vector<std::thread> ts; for (int t = 0; t < nt; ++t) ts.emplace_back(body, t);
    for (auto& t : ts) t.join();
    sim::quiet q;
    auto called = [&](int s, int v) { for (auto& c : w->calls) if (c.sub == s && c.value == v) return true; return false; };
    for (auto& t : w->trigs) for (auto& x : w->subs)
    {
        if (x.ev != t.ev || x.addEnd > t.start) continue;
        bool const direct = !t.async && (x.emitter || x.owner == t.thread);
        if (called(x.id, t.value)) { sim::probe(direct ? "direct" : "queued"); continue; }
        if (direct && (x.rmStart < t.end || t.accepted)) continue;
        if (!direct)
        {
            if (t.accepted) continue; // handlers after the accepting one are not even queued
            int const where = x.emitter ? t.thread : x.owner; // who pumps it
            if (where != x.owner) continue; // its owner may have removed it before the emitter pumps
            if (early[(std::size_t)where] || w->dead[(std::size_t)x.ev] != never) continue;
            if (x.byOp) continue; // removed before the last pump
            if (t.dont || x.stateless)
            {
                bool superseded = false;
                for (auto& u : w->trigs) if (u.value != t.value && u.ev == t.ev && u.end > t.start && called(x.id, u.value)) superseded = true;
                if (superseded) { sim::probe("coalesced"); continue; }
            }
        }
        sim::fail("lost", "trigger %d of event %d by thread %d (%s) never reached handler %d of thread %d (stateless %d emitter %d dont %d; add end %d trigger start %d rm start %d)", t.value, t.ev, t.thread, t.async ? "queued" : "synchronous", x.id, x.owner, x.stateless, x.emitter, t.dont, (int)x.addEnd, (int)t.start, (int)x.rmStart);
    }
    sim::state(w->calls.size() * 31 + w->trigs.size());
}

// threads that come and go, one generation after another, so that thread ids are used again
SIM_SCENARIO(events_generations)
{
    sim::enable_fault("spurious_wakeup"); sim::enable_fault("time_skip"); sim::enable_fault("weak_cas_failure");
    sim::set_time_limit(600 * sim::sec);
    neolib::allocate_service_provider();
    neolib::service<neolib::i_event_system>().set_locking_strategy((neolib::event_system_locking_strategy)(1 + sim::rnd(3)));
    bool const mainHasQueue = sim::chance(70); if (mainHasQueue) (void)neolib::async_event_queue::instance();
    struct sub { int id, who; std::vector<int> got; bool gone = false; };
    std::vector<std::unique_ptr<sub>> subs; std::vector<std::thread::id> used; static thread_local int tWho; tWho = 0; int next = 0, nextWho = 1;
    auto ev = std::make_unique<event_t>(); neolib::sink mainSink; sub* mine = nullptr; std::vector<int> sent; std::size_t unsure = 0;
    auto add = [&](neolib::sink& s, int who)
    {
        sub* x; { sim::quiet q; subs.push_back(std::make_unique<sub>()); x = subs.back().get(); x->id = (int)subs.size(); x->who = who; }
        s += (*ev)([&, x, state = payload(x->id)](int v, std::string const& str, neolib::i_string const&)
        {
            sim::quiet q; SIM_CHECK(state == payload(x->id), "handler-state", "handler %d runs with damaged state", x->id); SIM_CHECK(str == text(v), "arguments", "handler %d got '%s' with %d", x->id, str.c_str(), v);
            SIM_CHECK(tWho == x->who, "wrong-thread", "handler %d of thread %d called on thread %d", x->id, x->who, tWho); SIM_CHECK(!x->gone, "called-after-removal", "handler %d was removed and is called for %d", x->id, v);
            SIM_CHECK(std::find(x->got.begin(), x->got.end(), v) == x->got.end(), "twice", "handler %d is called twice for %d", x->id, v); SIM_CHECK(x->who == 0 || x->got.empty() || x->got.back() < v, "wrong-order", "handler %d is called for %d after %d", x->id, v, x->got.empty() ? 0 : x->got.back()); x->got.push_back(v);
        });
        return x;
    };
    if (mainHasQueue && sim::chance(60)) mine = add(mainSink, 0);
    int const rounds = 2 + (int)sim::rnd(4);
    for (int r = 0; r < rounds; ++r)
    {
        int const n = 1 + (int)sim::rnd(2); struct member { int who; bool mainsSink, pumpsAtEnd, noEvents, stays = false; std::unique_ptr<neolib::sink> s; sub* x = nullptr; int first = 0; bool leave = false; }; std::vector<std::unique_ptr<member>> ms;
        std::mutex m; std::condition_variable cv; int ready = 0; bool done = false; std::vector<std::thread> ts;
        for (int t = 0; t < n; ++t)
        {
            ms.push_back(std::make_unique<member>()); auto& p = *ms.back(); p.who = nextWho++; p.mainsSink = sim::chance(30); p.pumpsAtEnd = sim::chance(50); p.noEvents = sim::chance(15); p.stays = !p.noEvents && sim::chance(25); if (p.stays) p.mainsSink = false;
            ts.emplace_back([&, &p = p]
            {
                tWho = p.who; { sim::quiet q; auto id = std::this_thread::get_id(); for (auto const& u : used) if (u == id) { sim::probe("thread_id_reused"); break; } used.push_back(id); }
                if (!p.noEvents)
                {
                    (void)neolib::async_event_queue::instance(); p.s = std::make_unique<neolib::sink>(); p.x = add(*p.s, p.who);
                }
                { std::unique_lock<std::mutex> l{ m }; ++ready; cv.notify_all(); }
                if (p.noEvents) return;
                for (int k = (int)sim::rnd(3); k-- > 0;) { neolib::async_event_queue::instance().pump_events(); sim::yield(); }
                { std::unique_lock<std::mutex> l{ m }; cv.wait(l, [&] { return done; }); }
                if (p.pumpsAtEnd) { while (neolib::async_event_queue::instance().pump_events()) {} }
                else sim::probe("left_with_calls_queued");
                if (p.stays) sim::probe("subscription_outlives_thread"); else if (!p.mainsSink) { p.s.reset(); sim::quiet q; p.x->gone = true; }
                else { std::unique_lock<std::mutex> l{ m }; p.leave = true; cv.notify_all(); cv.wait(l, [&] { return p.x->gone; }); if (sim::chance(50)) { l.unlock(); neolib::async_event_queue::instance().pump_events(); } }
            });
        }
        { std::unique_lock<std::mutex> l{ m }; cv.wait(l, [&] { return ready == n; }); }
        int const from = next;
        for (int k = (int)sim::rnd(6); k-- > 0;) { int const v = ++next; { sim::quiet q; sent.push_back(v); } if (sim::chance(50)) ev->async_trigger(v, text(v), neolib::string{ text(v) }); else ev->sync_trigger(v, text(v), neolib::string{ text(v) }); if (mainHasQueue && sim::chance(30)) neolib::async_event_queue::instance().pump_events(); }
        int const last = next;
        { std::unique_lock<std::mutex> l{ m }; done = true; cv.notify_all(); }
        for (auto& p : ms) if (p->mainsSink && !p->noEvents) { { std::unique_lock<std::mutex> l{ m }; cv.wait(l, [&] { return p->leave; }); } p->s.reset(); std::unique_lock<std::mutex> l{ m }; { sim::quiet q; p->x->gone = true; } cv.notify_all(); }
        for (auto& t : ts) t.join();
        for (auto& p : ms) if (p->stays)
        {
            int const v = next + 1; { sim::quiet q; ++next; sent.push_back(v); } bool const late = sim::chance(30);
            try { if (sim::chance(50)) ev->async_trigger(v, text(v), neolib::string{ text(v) }); else ev->sync_trigger(v, text(v), neolib::string{ text(v) }); } catch (std::logic_error&) { sim::probe("no_thread_to_call"); } // there is nobody to run the handler
            { sim::quiet q; p->x->gone = true; } if (!late) p->s.reset();
        }
        { sim::quiet q; for (auto& p : ms) if (p->x && p->pumpsAtEnd) SIM_CHECK((int)p->x->got.size() == last - from, "lost", "handler %d was called %zu times for %d triggers", p->x->id, p->x->got.size(), next - from); }
    }
    if (mine) { while (neolib::async_event_queue::instance().pump_events()) {} sim::quiet q; SIM_CHECK(mine->got.size() == sent.size() - unsure, "lost", "the main thread's handler was called %zu times for %zu triggers", mine->got.size(), sent.size()); }
    mainSink.clear(); sim::state((std::uint64_t)next * 31 + (std::uint64_t)nextWho);
}
