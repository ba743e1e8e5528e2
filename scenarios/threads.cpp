// C03: thread lifecycle, C04: waitable events
#include <neolib/neolib.hpp>
#include <neolib/task/thread.hpp>
#include <neolib/task/waitable_event.hpp>
#include "common.hpp"
#include "lin.hpp"

namespace
{
    struct mq : neolib::i_message_queue
    {
        std::atomic<bool> msg{ false };
        bool have_message() const override { return msg; }
        int get_message() const override { return 0; }
        void bump() override {}
        bool in_idle() const override { return false; }
        void idle() override {}
    };

    enum kind { Wait, Timed, Poll, SignalOne, SignalAll, Reset, Quiescent };
    struct op { kind k; bool ok = true; std::vector<int> blocked; };
    struct ev_model
    {
        using state = std::string; // [0] kept signal, [1+i]: 0 invoked, 1 waiting, 2 released/took, 3 gave up, 4 applied
        std::vector<op> const& ops;
        template <typename F> void steps(state const& s, int i, F emit) const
        {
            op const& o = ops[(std::size_t)i]; char const c = s[(std::size_t)i + 1];
            auto set = [&](char v, int ready = -1) { state n = s; n[(std::size_t)i + 1] = v; if (ready >= 0) n[0] = (char)ready; emit(n); };
            switch (o.k)
            {
            case Wait: case Timed: case Poll:
                if (c == 0) { if (s[0]) set(2, 0); else { if (o.k == Poll) set(3); set(1); } }
                else if (c == 1 && o.k != Wait) set(3);
                else if (c == 3 && o.k == Poll) { set(0); } // a poll looks again and again
                break;
            case SignalOne:
                if (c == 0)
                {
                    bool any = false;
                    for (std::size_t j = 1; j < s.size(); ++j) if (s[j] == 1) { any = true; state n = s; n[j] = 2; n[(std::size_t)i + 1] = 4; emit(n); }
                    if (!any) set(4, 1);
                }
                break;
            case SignalAll:
                if (c == 0) { state n = s; bool any = false; for (std::size_t j = 1; j < s.size(); ++j) if (n[j] == 1) { n[j] = 2; any = true; } n[(std::size_t)i + 1] = 4; if (!any) n[0] = 1; emit(n); }
                break;
            case Reset: if (c == 0) set(4, 0); break;
            case Quiescent: break;
            }
        }
        bool returned(state const& s, int i) const
        {
            op const& o = ops[(std::size_t)i]; char const c = s[(std::size_t)i + 1];
            switch (o.k)
            {
            case Wait: return c == 2;
            case Timed: case Poll: return o.ok ? c == 2 : c == 3;
            case Quiescent: for (int b : o.blocked) if (s[(std::size_t)b + 1] != 1) return false; return true;
            default: return c == 4;
            }
        }
    };

    struct ev_rec
    {
        std::vector<op> ops; std::vector<lin::event> h; int open = 0;
        int inv(kind k) { sim::quiet q; ops.push_back({ k }); h.push_back({ false, (int)ops.size() - 1 }); return (int)ops.size() - 1; }
        void ret(int o, bool ok = true) { sim::quiet q; ops[(std::size_t)o].ok = ok; h.push_back({ true, o }); sim::log("op %d kind %d -> %d", o, (int)ops[(std::size_t)o].k, (int)ok); }
        void drop(int o) { sim::quiet q; for (std::size_t i = 0; i < h.size(); ++i) if (h[i].op == o) { h.erase(h.begin() + (std::ptrdiff_t)i); break; } }
        void check(char const* name)
        {
            sim::quiet q;
            ev_model m{ ops };
            int bad = lin::check(m, std::string(ops.size() + 1, '\0'), h, [](std::string const&) { return true; });
            static char const* kn[] = { "wait", "timed wait", "list wait", "signal_one", "signal_all", "reset", "nothing more happening" };
            if (bad >= 0)
            {
                auto const& o = ops[(std::size_t)h[(std::size_t)bad].op];
                char b[700]; int n = 0; for (int i = 0; i <= bad && n < 600; ++i) n += snprintf(b + n, sizeof b - (std::size_t)n, " %s%s#%d%s", h[(std::size_t)i].ret ? "end-" : "", kn[ops[(std::size_t)h[(std::size_t)i].op].k], h[(std::size_t)i].op, h[(std::size_t)i].ret && !ops[(std::size_t)h[(std::size_t)i].op].ok ? "=false" : "");
                sim::fail(o.k == Quiescent ? "signal-lost" : o.ok ? "signal-invented" : "signal-missed", "%s: no order of the signals explains that %s #%d ended with %s; history:%s", name, kn[o.k], h[(std::size_t)bad].op, o.ok ? "success" : "a timeout", b);
            }
        }
    };
}

SIM_SCENARIO(events)
{
    sim::enable_fault("spurious_wakeup"); sim::enable_fault("time_skip");
    sim::set_time_limit(600 * sim::sec);
    int const nev = 1 + (int)sim::rnd(2);
    auto* ev = new neolib::waitable_event[2]; auto* rec = new ev_rec[2]; mq q0;
    struct w { int ev, kind; unsigned timeout, delay; };
    struct s { int ev, kind; unsigned delay; };
    int const nw = 1 + (int)sim::rnd(4), ns = 1 + (int)sim::rnd(2);
    std::vector<std::vector<w>> ws; std::vector<std::vector<s>> ss;
    for (int i = 0; i < nw; ++i) { ws.emplace_back(); int n = 1 + (int)sim::rnd(2); for (int j = 0; j < n; ++j) ws.back().push_back({ (int)sim::rnd((unsigned)nev), (int)sim::rnd(8), (unsigned)sim::rnd(4), (unsigned)sim::rnd(3) }); }
    for (int i = 0; i < ns; ++i) { ss.emplace_back(); int n = 1 + (int)sim::rnd(4); for (int j = 0; j < n; ++j) ss.back().push_back({ (int)sim::rnd((unsigned)nev), (int)sim::rnd(9), (unsigned)sim::rnd(4) }); }
    bool const withMsg = sim::chance(30); bool msgEver = false;
    int active = nw; bool listWaits = false; for (auto const& s : ws) for (auto const& o : s) listWaits = listWaits || (o.kind == 6 && o.timeout == 0);
    std::set<int> blocked[2]; bool endEver = false; int listBlocked = 0;
    struct : neolib::waitable { std::atomic<bool> ready{ false }; bool waitable_ready() const noexcept override { return ready; } } at_end;
    auto waiter = [&](int i)
    {
        for (auto const& o : ws[(std::size_t)i])
        {
            if (o.delay) std::this_thread::sleep_for(std::chrono::milliseconds(o.delay));
            switch (o.kind)
            {
            case 0: case 1: case 2: { int k = rec[o.ev].inv(Wait); { sim::quiet q; blocked[o.ev].insert(k); } ev[o.ev].wait(); { sim::quiet q; blocked[o.ev].erase(k); } rec[o.ev].ret(k); break; }
            case 3: case 4: case 5:
            {
                unsigned const t = o.timeout == 0 ? 0 : o.timeout * 2;
                std::int64_t const t0 = sim::now(); int k = rec[o.ev].inv(Timed);
                bool const ok = ev[o.ev].wait((std::uint32_t)t);
                std::int64_t const dt = sim::now() - t0;
                rec[o.ev].ret(k, ok);
                if (!ok) { sim::probe("timed_out"); SIM_CHECK(dt >= (std::int64_t)t * sim::ms, "timed-out-early", "a wait of %u ms gave up after %lld ns", t, (long long)dt); }
                else sim::probe("timed_wait_released");
                SIM_CHECK(dt <= 60 * sim::sec, "timed-out-late", "a wait of %u ms took %lld ns", t, (long long)dt);
                break;
            }
            case 6: // list of events, ended by a message if nothing else
            {
                int k[2]; for (int e = 0; e < nev; ++e) k[e] = rec[e].inv(Poll);
                neolib::waitable_event_list l(ev, ev + nev);
                auto r = [&]() -> neolib::wait_result
                {
                    if (o.timeout == 1) { sim::probe("list_waitable"); return l.wait(at_end); }
                    if (o.timeout == 2) return l.msg_wait(q0);
                    if (o.timeout == 3) return l.msg_wait(q0, at_end);
                    struct in { int& n; in(int& n) : n{ n } { sim::quiet q; ++n; } ~in() { sim::quiet q; --n; } } i{ listBlocked };
                    sim::probe("list_wait"); return l.wait();
                }();
                if (std::holds_alternative<neolib::wait_result_event>(r))
                {
                    auto const* p = &std::get<neolib::wait_result_event>(r).iEvent; int const e = (int)(p - ev);
                    SIM_CHECK(e >= 0 && e < nev, "wrong-event", "a list wait reported an event that is not in the list");
                    sim::probe("list_event");
                    for (int x = 0; x < nev; ++x) if (x == e) rec[x].ret(k[x], true); else rec[x].drop(k[x]); // the others were not consumed
                }
                else if (std::holds_alternative<neolib::wait_result_waitable>(r)) { sim::quiet q; SIM_CHECK((o.timeout & 1) && endEver, "wrong-waitable", "a list wait reported a waitable that was not ready"); for (int x = 0; x < nev; ++x) rec[x].ret(k[x], false); }
                else { sim::quiet q; SIM_CHECK(std::holds_alternative<neolib::wait_result_message>(r) && msgEver && o.timeout >= 2, "wrong-message", "a list wait reported a message that was not there"); for (int x = 0; x < nev; ++x) rec[x].ret(k[x], false); sim::probe("list_message"); }
                break;
            }
            case 7:
            {
                int k = rec[o.ev].inv(Poll); bool ok = o.timeout ? ev[o.ev].msg_wait(q0, o.timeout) : ev[o.ev].msg_wait(q0);
                rec[o.ev].ret(k, ok); if (!ok && !o.timeout) SIM_CHECK(msgEver, "wrong-message", "msg_wait reported a message that was not there");
                break;
            }
            }
        }
        sim::quiet q; --active;
    };
    auto signaller = [&](int i)
    {
        for (auto const& o : ss[(std::size_t)i])
        {
            if (o.delay) std::this_thread::sleep_for(std::chrono::milliseconds(o.delay));
            if (o.kind == 8) { int k = rec[o.ev].inv(Reset); ev[o.ev].reset(); rec[o.ev].ret(k); }
            else if (o.kind < 5) { int k = rec[o.ev].inv(SignalOne); ev[o.ev].signal_one(); rec[o.ev].ret(k); }
            else { int k = rec[o.ev].inv(SignalAll); ev[o.ev].signal_all(); rec[o.ev].ret(k); }
        }
    };
    std::vector<std::thread> ts, tw;
    for (int i = 0; i < nw; ++i) tw.emplace_back(waiter, i);
    for (int i = 0; i < ns; ++i) ts.emplace_back(signaller, i);
    if (withMsg) { std::this_thread::sleep_for(std::chrono::milliseconds(3)); { sim::quiet q; msgEver = true; } q0.msg = true; }
    for (auto& t : ts) t.join();
    { sim::quiet q; msgEver = endEver = true; } q0.msg = true; at_end.ready = true;
    sim::set_faults(false);
    for (int round = 0; ; ++round)
    {
        if (listWaits) std::this_thread::sleep_for(std::chrono::milliseconds(30)); // list waits poll: nothing is said about the others until they are done
        else std::this_thread::sleep_for(std::chrono::seconds(2)); // nothing but waits without a timeout is left by now
        bool some = false; { sim::quiet q; some = active != 0; }
        bool polling; { sim::quiet q; polling = listWaits && active > (int)(blocked[0].size() + blocked[1].size()); }
        if (!polling) for (int e = 0; e < nev; ++e)
        {
            sim::quiet q; rec[e].ops.push_back({ Quiescent, true, { blocked[e].begin(), blocked[e].end() } });
            int o = (int)rec[e].ops.size() - 1; rec[e].h.push_back({ false, o }); rec[e].h.push_back({ true, o });
        }
        if (!some) break;
        SIM_CHECK(round < 60, "wait-stuck", "a wait is not released by signal_all");
        for (int e = 0; e < nev; ++e) { bool b; { sim::quiet q; b = !blocked[e].empty(); } if (b || (e == 0 && [&] { sim::quiet q; return listBlocked != 0; }())) { sim::probe("rescued"); int k = rec[e].inv(SignalAll); ev[e].signal_all(); rec[e].ret(k); } }
    }
    for (auto& t : tw) t.join();
    for (int e = 0; e < nev; ++e) rec[e].check("event");
    sim::state(rec[0].h.size() * 100 + rec[1].h.size());
}

namespace
{
    struct life
    {
        int bodies = 0; bool ended = false, began = false, abortAsked = false, cancelled = false; int starts = 0, aborts = 0, abortsNoWait = 0;
    };
    struct sub : neolib::thread
    {
        std::function<void()> f; sub(std::function<void()> f, bool attach) : neolib::thread{ "sub", attach }, f{ f } {}
        void exec(neolib::yield_type) override { f(); }
    };
}

SIM_SCENARIO(thread_life)
{
    sim::enable_fault("spurious_wakeup"); sim::enable_fault("time_skip"); sim::enable_fault("thread_create_failure", 15);
    sim::set_time_limit(600 * sim::sec);
    unsigned const bodyKind = (unsigned)sim::rnd(8), len = (unsigned)sim::rnd(4);
    int const nobs = (int)sim::rnd(4); bool const startIt = !sim::chance(12), twoStarters = sim::chance(25), early = sim::chance(20);
    std::vector<std::vector<std::array<unsigned, 2>>> scripts;
    for (int i = 0; i < nobs; ++i) { scripts.emplace_back(); int n = 1 + (int)sim::rnd(4); for (int j = 0; j < n; ++j) scripts.back().push_back({ (unsigned)sim::rnd(11), (unsigned)sim::rnd(4) }); }
    auto* L = new life; neolib::thread* self = nullptr;
    auto* ev = new neolib::waitable_event; mq q0;
    neolib::thread* t = new neolib::thread([&, L]
    {
        neolib::thread& me = *self;
        { sim::quiet q; ++L->bodies; L->began = true; sim::log("body"); SIM_CHECK(L->bodies == 1, "body-twice", "the body ran %d times", L->bodies); }
        struct at_end { life* L; ~at_end() { sim::quiet q; L->ended = true; sim::log("body ends"); } } ae{ L };
        SIM_CHECK(me.in() && me.id() == std::this_thread::get_id(), "in", "in() is false inside the thread's own body");
        SIM_CHECK(me.started(), "state", "the body runs and started() is false");
        for (unsigned i = 0; i < len; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1));
        switch (bodyKind)
        {
        case 0: case 1: break;
        case 2: { sim::quiet q; L->cancelled = true; } me.cancel(); { sim::quiet q; SIM_CHECK(L->abortAsked, "cancel-ignored", "the body went on after cancel()"); } break; // cancel() does nothing to a thread already aborted
        case 3: // works until it is told to stop
            for (int i = 0; i < 20 && !me.aborted() && !me.finished(); ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1));
            break;
        case 4:
            for (int i = 0; i < 10; ++i) { me.block(); if (i == 0) SIM_CHECK(me.blocked(), "blocked", "blocked() is false between block() and unblock()"); std::this_thread::sleep_for(std::chrono::milliseconds(1)); me.unblock(); if (me.finished()) break; }
            break;
        case 5: { sim::quiet q; L->cancelled = true; } me.abort(); break;
        case 7: // aborted while blocked, or between two blocks: block() and unblock() must notice
            for (int i = 0; i < 12; ++i)
            {
                auto noticed = [&](char const* what) { sim::quiet q; SIM_CHECK(L->abortsNoWait != 0, "abort-ignored", "the thread was already aborted and %s let it go on", what); };
                bool gone = me.aborted(); me.block(); if (gone) noticed("block()");
                std::this_thread::sleep_for(std::chrono::milliseconds(1));
                gone = me.aborted(); if (gone) sim::probe("aborted_while_blocked"); me.unblock(); if (gone) noticed("unblock()");
            }
            break;
        case 6: try { me.wait(); sim::fail("wait-self", "a thread waited for itself"); } catch (neolib::thread::cannot_wait_on_self&) {} break;
        }
    }, "life");
    self = t;
    auto stage = [&, L](char const* who)
    {
        // started, then finished: never back
        bool const f1 = t->finished(); bool const s1 = t->started(); bool const f2 = t->finished();
        SIM_CHECK(!f1 || s1, "state", "%s: finished() but not started()", who); SIM_CHECK(!f1 || f2, "state", "%s: finished() went back to false", who);
        bool ended, began, ab; { sim::quiet q; ended = L->ended; began = L->began; ab = L->abortAsked || L->cancelled; }
        if (f1 && !ab && !t->error()) SIM_CHECK(ended, "finished-early", "%s: finished() while the body still runs", who);
        bool const r = t->running(); if (ended && !ab && f1) SIM_CHECK(!r, "state", "%s: running() after finished()", who);
        (void)began;
    };
    auto must_have_ended = [&, L](char const* what) { sim::quiet q; SIM_CHECK(L->ended || (L->abortAsked && !L->began) || (t->finished() && !L->began && L->starts == 0), "wait-early", "%s returned before the body ended", what); };
    auto doStart = [&, L] { struct tf { tf() { sim::thread_faults(true); } ~tf() { sim::thread_faults(false); } } f; try { t->start(); sim::quiet q; ++L->starts; } catch (neolib::thread::thread_already_started&) { sim::probe("second_start_refused"); } catch (std::system_error&) { sim::probe("start_failed"); } };
    if (early) { SIM_CHECK(!t->started() && !t->finished() && !t->running(), "state", "a thread not yet started reports that it is"); try { t->wait(); sim::fail("wait-early", "wait() on a thread never started returned"); } catch (neolib::thread::thread_not_started&) {} }
    std::vector<std::thread> obs;
    for (int i = 0; i < nobs; ++i) obs.emplace_back([&, L, i]
    {
        for (auto const& op : scripts[(std::size_t)i])
        {
            try
            {
                for (unsigned k = 0; k < op[1]; ++k) std::this_thread::sleep_for(std::chrono::milliseconds(1));
                switch (op[0])
                {
                case 0: case 1: stage("observer"); break;
                case 2: case 3: case 4: t->wait(); must_have_ended("wait()"); SIM_CHECK(t->finished(), "state", "wait() returned and finished() is false"); sim::probe("waited"); break;
                case 5: case 6:
                {
                    auto r = t->wait(neolib::waitable_event_list{ *ev });
                    if (std::holds_alternative<neolib::wait_result_waitable>(r)) { must_have_ended("wait() with events"); sim::probe("waited_with_events"); } else sim::probe("event_first");
                    break;
                }
                case 7: if (t->msg_wait(q0)) must_have_ended("msg_wait()"); break;
                case 8: ev->signal_one(); break;
                case 9: { sim::quiet q; L->abortAsked = true; ++L->aborts; if (!(op[1] & 1)) ++L->abortsNoWait; } t->abort(op[1] & 1); if ((op[1] & 1) && L->aborts == 1 && !L->cancelled) must_have_ended("abort()"); sim::probe("aborted"); break;
                case 10: SIM_CHECK(!t->in(), "in", "in() is true on another thread"); break;
                }
            }
            catch (neolib::thread::thread_not_started&) { sim::probe("not_started"); }
            catch (neolib::thread::no_thread_object&) { SIM_CHECK(t->error() || t->finished(), "no-thread", "a started thread has no thread object"); }
        }
    });
    if (startIt) { std::thread s2; if (twoStarters) s2 = std::thread(doStart); doStart(); if (s2.joinable()) s2.join(); SIM_CHECK(L->starts <= 1, "started-twice", "two start() calls succeeded"); SIM_CHECK(L->starts == 1 || t->error() || t->finished(), "not-started", "start() failed and the thread does not report an error"); }
    for (auto& o : obs) o.join();
    bool const running = startIt && L->starts == 1; bool aborted; { sim::quiet q; aborted = L->abortAsked; }
    { sim::quiet q; L->abortAsked = true; }
    delete t;
    sim::quiet q;
    SIM_CHECK(L->began == L->ended, "destroyed-early", "the thread object is gone while its body runs");
    if (running && !aborted && nobs && false) {}
    SIM_CHECK(L->bodies <= 1 && (running || L->bodies == 0), "body-count", "the body ran %d times", L->bodies);
}

// a started thread that nobody aborts runs its body, whoever waits
SIM_SCENARIO(thread_wait)
{
    sim::enable_fault("spurious_wakeup"); sim::enable_fault("time_skip");
    sim::set_time_limit(600 * sim::sec);
    int const nw = 1 + (int)sim::rnd(3); unsigned const len = (unsigned)sim::rnd(3); bool const attach = sim::chance(20); bool const cancelIt = sim::chance(20);
    auto* L = new life; sub* t = nullptr; std::vector<unsigned> how; for (int i = 0; i < nw; ++i) how.push_back((unsigned)sim::rnd(4));
    auto body = [&, L] { { sim::quiet q; ++L->bodies; L->began = true; } for (unsigned i = 0; i < len; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1)); SIM_CHECK(t->running() && t->in(), "state", "the body runs and running() or in() is false"); { sim::quiet q; L->ended = true; } if (cancelIt) t->cancel(); };
    t = new sub{ body, attach };
    if (attach)
    {
        t->start(); { sim::quiet q; SIM_CHECK(L->bodies == 1 && L->ended, "body-count", "an attached thread did not run its body in start()"); }
        delete t; return;
    }
    neolib::waitable_event never; mq q0;
    t->start();
    std::vector<std::thread> ws;
    for (int i = 0; i < nw; ++i) ws.emplace_back([&, L, i]
    {
        switch (how[(std::size_t)i])
        {
        case 0: case 1: t->wait(); break;
        case 2: { auto r = t->wait(neolib::waitable_event_list{ never }); SIM_CHECK(std::holds_alternative<neolib::wait_result_waitable>(r), "wrong-event", "an event nobody signalled was reported"); break; }
        case 3: { bool r = t->msg_wait(q0); SIM_CHECK(r, "wrong-message", "msg_wait() reported a message nobody sent"); break; }
        }
        sim::quiet q; SIM_CHECK(L->bodies == 1 && L->ended, "wait-early", "a wait returned before the body ended");
    });
    for (auto& w : ws) w.join();
    SIM_CHECK(!t->running() && t->finished() && t->started(), "state", "after wait(): started %d running %d finished %d", (int)t->started(), (int)t->running(), (int)t->finished());
    SIM_CHECK(t->cancelled() == cancelIt, "state", "cancelled() is %d", (int)t->cancelled());
    delete t;
}
