// C22: services, shared thread-locals; C23: lifetime flags; C17: reference counting; C24: time slices
#include <neolib/neolib.hpp>
#include <neolib/core/service.hpp>
#include <neolib/core/lifetime.hpp>
#include <neolib/core/reference_counted.hpp>
#include <neolib/app/i_shared_thread_local.hpp>
#include <neolib/app/shared_thread_local.hpp>
#include <neolib/task/time_slice.hpp>
#include "common.hpp"

// ---------------------------------------------------------------- C22 services
namespace
{
    struct svc_stats { int started = 0; int live = 0; };
    template <int N> struct i_svc : neolib::i_service
    {
        virtual int a() const = 0; virtual int b() const = 0; virtual int generation() const = 0;
        static neolib::uuid const& iid() { static neolib::uuid const sIid{ 0x10000000u + N, 1, 2, 3, { 0, 0, 0, 0, 0, N } }; return sIid; }
    };
    std::array<svc_stats, 4> sStats;
    std::array<unsigned, 4> sBuildWork;      // how long building the service takes
    template <int N> struct svc : i_svc<N>
    {
        int x = 0, y = 0, g;
        svc()
        {
            { sim::quiet q; g = ++sStats[N].started; ++sStats[N].live; }
            x = g;
            for (unsigned i = 0; i < sBuildWork[N]; ++i) sim::yield();
            if constexpr (N == 3) { auto& other = neolib::service<i_svc<0>>(); SIM_CHECK(other.a() == other.b(), "half-built", "service 0 seen half built by service 3"); } // one service needs another
            y = g;
        }
        int a() const override { return x; } int b() const override { return y; } int generation() const override { return g; }
    };
    struct provider : neolib::i_service_provider // an application's own provider
    {
        mutable std::recursive_mutex m; std::map<neolib::uuid, neolib::i_service*> s; int registered = 0;
        bool try_lock() override { return m.try_lock(); } void lock() override { m.lock(); } void unlock() override { m.unlock(); }
        bool service_registered(neolib::uuid i) const override { std::scoped_lock lk{ m }; return s.find(i) != s.end(); }
        neolib::i_service& service(neolib::uuid i) override { std::scoped_lock lk{ m }; auto e = s.find(i); if (e == s.end()) throw neolib::service_not_found(); return *e->second; }
        void register_service(neolib::i_service& v, neolib::uuid i) override { std::scoped_lock lk{ m }; s[i] = &v; ++registered; }
        void unregister_service(neolib::uuid i) override { std::scoped_lock lk{ m }; if (!s.erase(i)) throw neolib::service_not_found(); }
        void migrate_to(neolib::i_service_provider& o) override { std::scoped_lock lk{ m }; for (auto& e : s) o.register_service(*e.second, e.first); s.clear(); }
    };
    template <int N> neolib::i_service* get() { auto& v = neolib::service<i_svc<N>>(); int const a = v.a(), b = v.b(); SIM_CHECK(a == b && a != 0, "half-built", "a thread got service %d before it was fully built", N); return &v; }
    neolib::i_service* get(int n) { switch (n) { case 0: return get<0>(); case 1: return get<1>(); case 2: return get<2>(); default: return get<3>(); } }
    template <int N> void reg(svc<N>& s) { neolib::register_service<i_svc<N>>(s); }
}
namespace neolib
{
    template<> i_svc<0>& services::start_service<i_svc<0>>() { return *new svc<0>; }
    template<> i_svc<1>& services::start_service<i_svc<1>>() { return *new svc<1>; }
    template<> i_svc<2>& services::start_service<i_svc<2>>() { static svc<2> s; return s; }
    template<> i_svc<3>& services::start_service<i_svc<3>>() { return *new svc<3>; }
}
SIM_SCENARIO(services)
{
    sim::enable_fault("spurious_wakeup"); sim::enable_fault("time_skip");
    sim::set_time_limit(60 * sim::sec);
    for (auto& w : sBuildWork) w = (unsigned)sim::rnd(4);
    bool noProvider = false; try { neolib::get_service_provider(); } catch (neolib::no_service_provider_instance const&) { noProvider = true; }
    SIM_CHECK(noProvider && !neolib::service_provider_allocated(), "provider", "a provider is reported though none was allocated");
    neolib::allocate_service_provider();
    bool twice = false; try { neolib::allocate_service_provider(); } catch (neolib::service_provider_instance_exists const&) { twice = true; }
    SIM_CHECK(twice, "provider", "a second provider was allocated over the first");
    auto& original = neolib::get_service_provider();
    std::array<neolib::i_service*, 4> known{}; std::array<int, 4> changing{};
    auto check = [&](int n, neolib::i_service* got, std::set<neolib::i_service*> const& allowed) { sim::quiet q; if (!known[(std::size_t)n]) known[(std::size_t)n] = got; if (allowed.empty()) SIM_CHECK(got == known[(std::size_t)n], "not-shared", "two threads got different instances of service %d", n); else SIM_CHECK(allowed.count(got), "wrong-instance", "service %d is neither the old nor the new instance", n); };
    auto phase = [&](int nt, int ops)
    {
        std::vector<std::vector<unsigned>> scripts; for (int t = 0; t < nt; ++t) { scripts.emplace_back(); for (int i = 0; i < ops; ++i) scripts.back().push_back((unsigned)sim::rnd(8)); }
        std::vector<std::thread> ts;
        for (int t = 0; t < nt; ++t) ts.emplace_back([&, t]
        {
            for (auto k : scripts[(std::size_t)t])
            {
                int const n = (int)k % 4;
                if (k < 6) { check(n, get(n), {}); sim::probe("got"); }
                else
                {
                    // asking the provider directly agrees with having been asked for
                    bool const had = [&] { sim::quiet q; return known[(std::size_t)n] != nullptr; }();
                    bool r = n == 0 ? neolib::service_registered<i_svc<0>>() : n == 1 ? neolib::service_registered<i_svc<1>>() : n == 2 ? neolib::service_registered<i_svc<2>>() : neolib::service_registered<i_svc<3>>();
                    SIM_CHECK(r || !had, "lost-registration", "service %d was obtained but the provider does not know it", n);
                }
            }
        });
        for (auto& t : ts) t.join();
    };
    phase(2 + (int)sim::rnd(4), 1 + (int)sim::rnd(4));
    for (int n = 0; n < 4; ++n) SIM_CHECK(sStats[(std::size_t)n].started <= 1, "created-twice", "service %d was created %d times", n, sStats[(std::size_t)n].started);
    // a provider that replaces the first
    provider mine;
    if (sim::flip())
    {
        sim::probe("provider_replaced");
        std::array<bool, 4> had{}; for (int n = 0; n < 4; ++n) had[(std::size_t)n] = sStats[(std::size_t)n].started != 0;
        neolib::set_service_provider(mine);
        SIM_CHECK(&neolib::get_service_provider() == &mine, "provider", "the provider set is not the one used");
        for (int n = 0; n < 4; ++n) if (had[(std::size_t)n])
        {
            bool r = n == 0 ? neolib::service_registered<i_svc<0>>() : n == 1 ? neolib::service_registered<i_svc<1>>() : n == 2 ? neolib::service_registered<i_svc<2>>() : neolib::service_registered<i_svc<3>>();
            SIM_CHECK(r, "lost-registration", "service %d was lost when the provider was replaced", n);
            neolib::uuid const id = n == 0 ? i_svc<0>::iid() : n == 1 ? i_svc<1>::iid() : n == 2 ? i_svc<2>::iid() : i_svc<3>::iid();
            SIM_CHECK(!known[(std::size_t)n] || &mine.service(id) == known[(std::size_t)n], "not-shared", "the new provider has another instance of service %d", n);
        }
        int const before = mine.registered;
        phase(2 + (int)sim::rnd(3), 1 + (int)sim::rnd(4));
        int fresh = 0; for (int n = 0; n < 4; ++n) { SIM_CHECK(sStats[(std::size_t)n].started <= 1, "created-twice", "service %d was created %d times", n, sStats[(std::size_t)n].started); fresh += sStats[(std::size_t)n].started && !had[(std::size_t)n]; }
        SIM_CHECK(mine.registered - before == fresh, "provider", "%d services were started after the provider was replaced, but %d were registered with it", fresh, mine.registered - before);
    }
    // a service that replaces another while threads use it
    if (sim::flip())
    {
        sim::probe("service_replaced");
        sBuildWork = {};
        auto* first = get(1); auto second = std::make_unique<svc<1>>(); bool replaced = false;
        bool const gap = sim::flip(); // taken away before the new one is there: whoever asks in between starts one
        std::vector<std::thread> ts; int const nt = 1 + (int)sim::rnd(3);
        int const startedBefore = sStats[1].started;
        for (int t = 0; t < nt; ++t) ts.emplace_back([&]
        {
            for (int i = 0; i < 3; ++i)
            {
                bool const after = [&] { sim::quiet q; return replaced; }();
                auto* got = get(1);
                sim::quiet q;
                if (after) SIM_CHECK(got == second.get() , "stale-service", "the replaced instance is still handed out");
                else SIM_CHECK(got == first || got == second.get() || (gap && sStats[1].started > startedBefore), "wrong-instance", "neither the old nor the new instance");
            }
        });
        auto& prov = neolib::get_service_provider();
        if (gap) { std::unique_lock lk{ prov }; neolib::unregister_service<i_svc<1>>(static_cast<i_svc<1>&>(*static_cast<svc<1>*>(first))); SIM_CHECK(!neolib::service_registered<i_svc<1>>(), "provider", "an unregistered service is still registered"); lk.unlock(); sim::probe("unregistered"); }
        { std::unique_lock lk{ prov }; neolib::register_service<i_svc<1>>(*second); sim::quiet q; replaced = true; }
        for (auto& t : ts) t.join();
        SIM_CHECK(get(1) == second.get(), "stale-service", "the replaced instance is still handed out");
        (void)second.release();
    }
    (void)original;
    sim::state((std::uint64_t)sStats[0].started * 8 + sStats[3].started);
}

// ---------------------------------------------------------------- C22 shared thread-locals
namespace
{
    struct tls_value { std::uint64_t magic; int owner; int var; int count; };
    struct tls_world
    {
        struct cell { int owner, var; bool live, destroyed; int count; };
        std::map<void*, cell> cells; std::map<std::pair<int, int>, void*> where; std::map<int, int> ended; int destroyed = 0;
        int reach = -1; // destroying variable 0 uses variable `reach`
    } * sTls;
    char const* const tls_names[] = { "a::one", "a::two", "b::one", "wibble::f::n", "e", "f", "g", "h" };
    std::size_t const tls_sizes[] = { sizeof(tls_value), sizeof(tls_value) + 8, 64, 4096, sizeof(tls_value), 128, 256, sizeof(tls_value) };
    void tls_delete(void* p);
    tls_value* tls_use(int var, int me)
    {
        auto& s = neolib::service<neolib::i_shared_thread_local>();
        auto const r = s.allocate_or_get(tls_names[var], tls_sizes[var], false, &tls_delete);
        auto* v = static_cast<tls_value*>(r.memory);
        std::pair<int, int> const key{ me, var };
        bool const expectInit = [&] { sim::quiet q; auto e = sTls->where.find(key); if (e == sTls->where.end()) return true; auto const& c = sTls->cells[e->second]; return !c.live || c.owner != me || c.var != var; }();
        SIM_CHECK(r.initializationRequired == expectInit, "initialisation", "variable %d of thread %d: initialisation %s", var, me, r.initializationRequired ? "is asked for a second time" : "is not asked for the first time");
        if (r.initializationRequired)
        {
            for (std::size_t i = 0; i < tls_sizes[var]; ++i) static_cast<char*>(r.memory)[i] = 0;
            *v = { 0x5157ull + (unsigned)(me * 16 + var), me, var, 0 };
            sim::quiet q;
            SIM_CHECK(!(sTls->cells.count(v) && sTls->cells[v].live), "shared-cell", "variable %d of thread %d was given memory that is another value", var, me);
            sTls->cells[v] = { me, var, true, false, 0 }; sTls->where[key] = v;
        }
        else
        {
            sim::quiet q; SIM_CHECK(sTls->where[key] == v, "moved", "variable %d of thread %d moved", var, me);
        }
        SIM_CHECK(v->owner == me && v->var == var && v->magic == 0x5157ull + (unsigned)(me * 16 + var), "wrong-value", "thread %d got the value of variable %d of thread %d under variable %d", me, v->var, v->owner, var);
        { sim::quiet q; SIM_CHECK(sTls->cells[v].count == v->count, "lost-value", "variable %d of thread %d holds %d instead of %d", var, me, v->count, sTls->cells[v].count); ++sTls->cells[v].count; }
        ++v->count;
        return v;
    }
    void tls_delete(void* p)
    {
        auto* v = static_cast<tls_value*>(p); int const owner = v->owner, var = v->var;
        {
            sim::quiet q; auto e = sTls->cells.find(p);
            SIM_CHECK(e != sTls->cells.end(), "destroyed-unknown", "memory that never held a value was destroyed as one");
            SIM_CHECK(e->second.live, "destroyed-twice", "variable %d of thread %d was destroyed twice", var, owner);
            SIM_CHECK(v->magic == 0x5157ull + (unsigned)(owner * 16 + var), "wrong-value", "a value was overwritten before its destruction");
            SIM_CHECK(sTls->ended.count(owner), "destroyed-early", "variable %d of thread %d was destroyed while the thread runs", var, owner);
            e->second.live = false; e->second.destroyed = true; ++sTls->destroyed;
        }
        if (var == 0 && sTls->reach > 0) { tls_use(sTls->reach, owner); sim::quiet q; sim::probe("used_while_destroying"); }
        v->magic = 0;
    }
}
namespace
{
    int& macro_counter() { shared_thread_local(int, scen::f, n, 7); return n; }
    std::vector<int>& macro_vector() { shared_thread_local(std::vector<int>, scen::f, v, {}); return v; }
}
SIM_SCENARIO(thread_locals)
{
    sim::enable_fault("time_skip"); sim::enable_fault("alloc_failure", 30);
    sim::set_time_limit(60 * sim::sec);
    neolib::allocate_service_provider();
    tls_world w; sTls = &w;
    int const nt = 1 + (int)sim::rnd(4); w.reach = sim::chance(40) ? 1 + (int)sim::rnd(7) : -1;
    bool const rounds = sim::flip();
    std::vector<std::vector<unsigned>> scripts; for (int t = 0; t < nt; ++t) { scripts.emplace_back(); int n = (int)sim::rnd(10); for (int i = 0; i < n; ++i) scripts.back().push_back((unsigned)sim::rnd(10)); }
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t)
    {
        ts.emplace_back([&, t]
        {
            int uses = 0;
            for (auto k : scripts[(std::size_t)t])
            {
                if (k < 8)
                {
                    try { std::optional<sim::alloc_faults> af; if (sim::fault_enabled("alloc_failure")) af.emplace(100); tls_use((int)k, t); }
                    catch (std::bad_alloc const&) { sim::probe("no_memory"); }
                }
                else if (k == 8)
                {
                    // another size under a known name is refused, and refusing it changes nothing
                    bool const known = [&] { sim::quiet q; return w.where.count({ t, 0 }) != 0; }();
                    if (known) { bool refused = false; try { neolib::service<neolib::i_shared_thread_local>().allocate_or_get(tls_names[0], sim::flip() || tls_sizes[0] < 2 ? tls_sizes[0] + 1 : tls_sizes[0] - 1, false, &tls_delete); } catch (std::logic_error const&) { refused = true; } SIM_CHECK(refused, "size", "one variable with two sizes was accepted"); }
                }
                else
                {
                    // through the macros
                    auto& n = macro_counter(); SIM_CHECK(n == 7 + uses, "lost-value", "a shared_thread_local holds %d after %d uses", n, uses); ++n; ++uses;
                    auto& v = macro_vector(); if (uses == 1) v.clear(); SIM_CHECK(v.size() == (std::size_t)uses - 1, "lost-value", "a shared_thread_local vector has %zu elements after %d uses", v.size(), uses - 1); v.push_back(t);
                    for (auto x : v) SIM_CHECK(x == t, "wrong-value", "thread %d found an element of thread %d in its shared_thread_local", t, x);
                    sim::probe("macro");
                }
            }
            sim::quiet q; w.ended[t] = 1;
        });
        if (rounds) ts.back().join();
    }
    for (auto& t : ts) if (t.joinable()) t.join();
    for (auto& c : w.cells) SIM_CHECK(!c.second.live, "not-destroyed", "variable %d of thread %d was not destroyed when the thread ended", c.second.var, c.second.owner);
    sim::state((std::uint64_t)w.destroyed);
    sTls = nullptr;
}

// ---------------------------------------------------------------- C23 lifetime flags
namespace
{
    using neolib::lifetime_state;
    struct watched; // one entry of the model, shared with every thread
    struct truth { int id; std::atomic<int> lo{ 1 }, hi{ 1 }; }; // state completed, state begun (0 creating .. 3 destroyed)
    struct subject : neolib::lifetime<>
    {
        truth& t; bool early;
        subject(truth& t, lifetime_state s, bool early) : neolib::lifetime<>{ s }, t{ t }, early{ early } {}
        subject(subject const& o, truth& t) : neolib::lifetime<>{ o }, t{ t }, early{ o.early } {}
        void to(int s) { t.hi = s; if (s == 1) set_alive(); else if (s == 2) set_destroying(); else set_destroyed(); t.lo = s; }
        ~subject()
        {
            if (early) { if (t.lo < 2) to(2); sim::yield(); if (t.hi < 3 && sim::flip()) to(3); }
            t.hi = 3; // the base destroys: from 3 on only
        }
    };
    struct holder { truth t; std::unique_ptr<subject> s; };
    template <typename Flag> int state_of(Flag const& f) { return f.is_creating() ? 0 : f.is_alive() ? 1 : f.is_destroying() ? 2 : f.is_destroyed() ? 3 : -1; }
    struct watcher
    {
        truth* t; std::optional<neolib::destroyed_flag> gone; std::optional<neolib::destroying_flag> going; int seen = 0;
        void look()
        {
            for (int k = 0; k < 2; ++k)
            {
                // each question on its own: the state may move between two of them
                if (k == 0 ? !gone : !going) continue;
                auto ask = [&](char const* what, auto f, int from, int to)
                {
                    int const lo = t->lo; bool const r = f(); int const hi = t->hi;
                    if (hi < from || lo > to) SIM_CHECK(!r, "wrong-state", "a flag says %s for object %d whose state is between %d and %d", what, t->id, lo, hi);
                    if (lo >= from && hi <= to) SIM_CHECK(r, "wrong-state", "a flag denies %s for object %d whose state is between %d and %d", what, t->id, lo, hi);
                    return r;
                };
                bool c, a, g, d;
                if (k == 0)
                {
                    c = ask("creating", [&] { return gone->is_creating(); }, 0, 0); a = ask("alive", [&] { return gone->is_alive(); }, 1, 1);
                    g = ask("destroying", [&] { return gone->is_destroying(); }, 2, 2); d = ask("destroyed", [&] { return gone->is_destroyed(); }, 3, 3);
                    ask("destroyed (as bool)", [&] { return (bool)*gone; }, 3, 3);
                }
                else
                {
                    c = ask("creating", [&] { return going->is_creating(); }, 0, 0); a = ask("alive", [&] { return going->is_alive(); }, 1, 1);
                    g = ask("destroying", [&] { return going->is_destroying(); }, 2, 2); d = ask("destroyed", [&] { return going->is_destroyed(); }, 3, 3);
                    ask("destroying (as bool)", [&] { return (bool)*going; }, 2, 2);
                }
                int const s = d ? 3 : g ? 2 : a ? 1 : c ? 0 : seen;
                SIM_CHECK(s >= seen, "went-back", "a flag of object %d went from state %d back to %d", t->id, seen, s); seen = s;
            }
        }
    };
}
SIM_SCENARIO(lifetimes)
{
    sim::enable_fault("time_skip");
    sim::set_time_limit(60 * sim::sec);
    int const n = 1 + (int)sim::rnd(4), nt = (int)sim::rnd(4);
    std::deque<holder> obj; auto live0 = sim::live_blocks(); (void)live0;
    std::mutex m; std::vector<watcher> shared; // flags handed from thread to thread
    auto fresh = [&](lifetime_state s, bool early) -> holder& { auto& h = obj.emplace_back(); h.t.id = (int)obj.size() - 1; h.t.lo = h.t.hi = s == lifetime_state::Creating ? 0 : 1; h.s = std::make_unique<subject>(h.t, s, early); return h; };
    for (int i = 0; i < n; ++i) fresh(sim::chance(30) ? lifetime_state::Creating : lifetime_state::Alive, sim::flip());
    auto make = [&](holder& h) { watcher w; w.t = &h.t; if (sim::flip()) w.gone.emplace(*h.s); else w.going.emplace(*h.s); if (sim::chance(20)) { w.gone.emplace(*h.s); w.going.emplace(*h.s); } return w; };
    std::vector<std::thread> ts; std::atomic<int> stop{ 0 };
    for (auto& h : obj) shared.push_back(make(h));
    std::vector<std::vector<unsigned>> scripts; for (int t = 0; t < nt; ++t) { scripts.emplace_back(); int k = 1 + (int)sim::rnd(8); for (int i = 0; i < k; ++i) scripts.back().push_back((unsigned)sim::rnd(60)); }
    for (int t = 0; t < nt; ++t) ts.emplace_back([&, t]
    {
        std::vector<watcher> mine;
        for (auto k : scripts[(std::size_t)t])
        {
            unsigned const op = k % 6, which = k / 6;
            if (op == 0 || mine.empty()) { std::unique_lock lk{ m }; if (!shared.empty()) { watcher c{ shared[which % shared.size()] }; lk.unlock(); mine.push_back(std::move(c)); } continue; }
            auto& w = mine[which % mine.size()];
            if (op < 4) w.look();
            else if (op == 4) { watcher c{ w }; c.look(); mine.push_back(std::move(c)); mine.back().look(); sim::probe("flag_copied"); }
            else { auto& o = mine[(which + 1) % mine.size()]; if (&o != &w) { w = o; w.look(); sim::probe("flag_assigned"); } }
        }
        for (auto& w : mine) w.look();
    });
    std::vector<watcher> local;
    int const ops = 1 + (int)sim::rnd(16);
    for (int i = 0; i < ops; ++i)
    {
        auto& h = obj[sim::rnd(obj.size())]; auto const k = sim::rnd(10);
        if (k == 0) { if (h.s) { h.s.reset(); h.t.lo = 3; sim::probe("destroyed"); } }
        else if (k == 1) { if (h.s && h.t.lo == 0) h.s->to(1); else if (h.s) { bool refused = false; try { h.s->set_alive(); } catch (neolib::i_lifetime::not_creating const&) { refused = true; } SIM_CHECK(refused, "wrong-state", "an object in state %d was made alive again", h.t.lo.load()); } }
        else if (k == 2) { if (h.s && h.t.lo < 2) h.s->to(2); }
        else if (k == 3) { if (h.s) { h.s->to(3); sim::probe("destroyed_by_hand"); bool refused = false; try { h.s->set_destroying(); } catch (neolib::i_lifetime::already_destroyed const&) { refused = true; } SIM_CHECK(refused, "wrong-state", "a destroyed object began its destruction again"); } }
        else if (k == 4 || k == 5) { if (h.s) { local.push_back(make(h)); local.back().look(); } }
        else if (k == 6) { if (!local.empty()) { local.erase(local.begin() + (long)sim::rnd(local.size())); } }
        else if (k == 7) { if (h.s) { std::unique_lock lk{ m }; shared.push_back(make(h)); } }
        else if (k == 8)
        {
            if (h.s && h.t.lo == 1)
            {
                // a copy is an object of its own, and assigning leaves both as they are
                if (sim::chance(30)) { auto& o = obj[sim::rnd(obj.size())]; if (o.s && &o != &h) { static_cast<neolib::lifetime<>&>(*o.s) = static_cast<neolib::lifetime<>&>(*h.s); sim::probe("object_assigned"); for (auto& w : local) w.look(); continue; } }
                sim::probe("object_copied");
                auto& c = obj.emplace_back(); c.t.id = (int)obj.size() - 1; auto& src = *h.s; c.s = std::make_unique<subject>(src, c.t);
                local.push_back(make(c)); local.back().look();
            }
        }
        else { if (h.s) SIM_CHECK((int)h.s->object_state() == h.t.lo, "wrong-state", "object %d says state %d instead of %d", h.t.id, (int)h.s->object_state(), h.t.lo.load()); }
        for (auto& w : local) w.look();
    }
    for (auto& h : obj) if (sim::flip() && h.s) { h.s.reset(); h.t.lo = 3; }
    for (auto& t : ts) t.join();
    for (auto& h : obj) if (h.s) { h.s.reset(); h.t.lo = 3; }
    for (auto& w : local) { w.look(); SIM_CHECK(w.seen == 3, "missed", "a flag does not show that object %d is gone", w.t->id); }
    for (auto& w : shared) { w.look(); SIM_CHECK(w.seen == 3, "missed", "a flag does not show that object %d is gone", w.t->id); }
    sim::state(obj.size() * 100 + local.size());
}

// ---------------------------------------------------------------- C17 reference counting
namespace
{
    struct i_thing : neolib::i_reference_counted { using abstract_type = i_thing; virtual int id() const = 0; };
    struct ref_world
    {
        struct rec { int destroyed = 0; bool dying = false; void const* at = nullptr; std::atomic<int> gone{ 0 }; };
        std::deque<rec> recs; bool lookBack = false;
    } * sRefs;
    struct thing : neolib::reference_counted<i_thing>
    {
        int n; std::uint64_t magic = 0x7117; neolib::ref_ptr<i_thing> child; neolib::weak_ref_ptr<i_thing> own; bool lookBack;
        thing(int n) : n{ n }, lookBack{ sRefs->lookBack } { sim::quiet q; sRefs->recs[(std::size_t)n].at = this; if (lookBack) own = neolib::weak_ref_ptr<i_thing>{ this }; }
        thing(thing const& o) : neolib::reference_counted<i_thing>{ o }, n{ o.n } , lookBack{ false } {}
        ~thing()
        {
            auto& r = sRefs->recs[(std::size_t)n];
            { sim::quiet q; SIM_CHECK(++r.destroyed == 1, "destroyed-twice", "object %d was destroyed twice", n); r.dying = true; }
            SIM_CHECK(magic == 0x7117, "corrupt", "object %d was overwritten while it lived", n); magic = 0;
            if (lookBack) { auto* p = own.ptr(); SIM_CHECK(p == nullptr || p == this, "weak", "a weak reference yields another object"); (void)own.expired(); neolib::weak_ref_ptr<i_thing> again{ own }; (void)again.expired(); sim::probe("weak_in_destructor"); }
            r.gone = 1;
        }
        int id() const override { return n; }
        void touch() const { SIM_CHECK(magic == 0x7117, "destroyed-early", "object %d was destroyed while it is referenced", n); }
    };
    struct stranger : neolib::reference_counted<i_thing> { int id() const override { return -5; } };
    struct derived : thing { int extra = 5; derived(int n) : thing{ n } {} };
}
SIM_SCENARIO(references)
{
    sim::enable_fault("time_skip"); sim::enable_fault("alloc_failure", 20);
    sim::set_time_limit(60 * sim::sec);
    ref_world w; sRefs = &w; w.lookBack = sim::chance(40);
    using rp = neolib::ref_ptr<thing>; using ip = neolib::ref_ptr<i_thing>; using wp = neolib::weak_ref_ptr<thing>;
    constexpr int S = 4, I = 2, W = 3;
    {
        std::array<rp, S> s; std::array<ip, I> is; std::array<wp, W> ws;
        std::array<int, S> ms; ms.fill(-1); std::array<int, I> mi; mi.fill(-1); std::array<int, W> mw; mw.fill(-1);
        std::vector<int> kids; // kids[n]: child of object n
        struct adrift { thing* p; int n; }; std::vector<adrift> loose; // detached references: counted, held as raw pointers
        std::vector<int> pins;
        auto count = [&](int n) { int c = 0; for (int x : ms) c += x == n; for (int x : mi) c += x == n; for (auto& l : loose) c += l.n == n; return c; };
        std::function<bool(int)> lives = [&](int n) -> bool { if (count(n) || pins[(std::size_t)n]) return true; for (int k = 0; k < (int)kids.size(); ++k) if (kids[(std::size_t)k] == n && lives(k)) return true; return false; };
        auto uses = [&](int n) { int c = count(n); for (int k = 0; k < (int)kids.size(); ++k) c += kids[(std::size_t)k] == n && lives(k); return c; };
        auto check = [&]
        {
            for (int n = 0; n < (int)kids.size(); ++n)
            {
                bool const l = lives(n); auto& r = w.recs[(std::size_t)n];
                SIM_CHECK(!l || r.destroyed == 0, "destroyed-early", "object %d was destroyed though %d owners refer to it", n, count(n));
                SIM_CHECK(l || r.destroyed == 1, "not-destroyed", "object %d was not destroyed when its last owner let go", n);
            }
            for (int i = 0; i < S; ++i)
            {
                auto const& p = s[(std::size_t)i]; int const n = ms[(std::size_t)i];
                SIM_CHECK(p.valid() == (n >= 0) && (bool)p == (n >= 0) && p.managing() == (n >= 0), "wrong-pointer", "a pointer says valid=%d while it should refer to %d", p.valid(), n);
                if (n >= 0) { p->touch(); SIM_CHECK(p->n == n && (void const*)p.ptr() == w.recs[(std::size_t)n].at, "wrong-pointer", "a pointer refers to object %d instead of %d", p->n, n); SIM_CHECK(p.use_count() == uses(n), "count", "object %d reports %ld owners, it has %d", n, p.use_count(), uses(n)); SIM_CHECK(p.unique() == (uses(n) == 1), "count", "unique() of object %d with %d owners", n, uses(n)); }
                else { SIM_CHECK(p.use_count() == 0, "count", "an empty pointer reports owners"); bool threw = false; try { (void)*p; } catch (rp::no_object const&) { threw = true; } SIM_CHECK(threw, "wrong-pointer", "an empty pointer yields an object"); }
            }
            for (int i = 0; i < I; ++i) { auto const& p = is[(std::size_t)i]; int const n = mi[(std::size_t)i]; SIM_CHECK(p.valid() == (n >= 0), "wrong-pointer", "an interface pointer is %d", n); if (n >= 0) { SIM_CHECK(p->id() == n, "wrong-pointer", "an interface pointer refers to object %d instead of %d", p->id(), n); SIM_CHECK(p.use_count() == uses(n), "count", "object %d reports %ld owners, it has %d", n, p.use_count(), uses(n)); } }
            for (int i = 0; i < W; ++i)
            {
                auto const& p = ws[(std::size_t)i]; int const n = mw[(std::size_t)i]; bool const l = n >= 0 && lives(n);
                SIM_CHECK(p.expired() == !l, "weak", "a weak reference to object %d, which %s, says expired=%d", n, l ? "lives" : "does not live", p.expired());
                SIM_CHECK(p.valid() == l, "weak", "a weak reference to object %d says valid=%d", n, p.valid());
                if (l) { SIM_CHECK((void const*)p.ptr() == w.recs[(std::size_t)n].at, "weak", "a weak reference yields another object"); p->touch(); }
                else { SIM_CHECK(p.ptr() == nullptr, "weak", "an expired weak reference yields an object"); bool threw = false; try { (void)*p; } catch (wp::no_object const&) { threw = true; } SIM_CHECK(threw, "weak", "an expired weak reference yields an object"); }
            }
        };
        int const ops = 1 + (int)sim::rnd(24);
        for (int o = 0; o < ops; ++o)
        {
            auto a = (std::size_t)sim::rnd(S), b = (std::size_t)sim::rnd(S); auto const slot = a; if (ms[a] < 0 && sim::chance(70)) for (a = 0; a < S - 1 && ms[a] < 0;) ++a; // mostly one that holds something
            if (sim::chance(50) && ms[a] >= 0) for (auto k = (std::size_t)0; k < S; ++k) if (ms[k] >= 0 && k != a) b = k;
            auto const i = (std::size_t)sim::rnd(I), k = (std::size_t)sim::rnd(W);
            std::optional<sim::alloc_faults> af; if (sim::fault_enabled("alloc_failure")) af.emplace(150);
            try
            {
                auto const op = sim::chance(60) ? sim::rnd(26) : sim::rnd(34); sim::state(op * 1000 + a * 100 + b * 10 + i); switch (op)
                {
                case 0: case 1: case 2: case 3:
                {
                    int const n = (int)kids.size(); { sim::quiet q; w.recs.emplace_back(); }
                    rp fresh; bool const d = sim::flip();
                    try { fresh = d ? rp{ new derived{ n } } : neolib::make_ref<thing>(n); } catch (std::bad_alloc const&) { sim::quiet q; w.recs.pop_back(); throw; }
                    { sim::quiet q; kids.push_back(-1); pins.push_back(0); }
                    s[slot] = fresh; ms[slot] = n; break;
                }
                case 4: s[a] = s[b]; ms[a] = ms[b]; break;
                case 5: case 6: if (a != b) { bool const same = ms[a] >= 0 && ms[a] == ms[b]; s[a] = std::move(s[b]); ms[a] = ms[b]; ms[b] = -1; if (same) sim::probe("moved_onto_same_object"); } else { auto& self = s[a]; self = std::move(self); } break;
                case 7: { rp c{ s[a] }; SIM_CHECK(c.use_count() == (ms[a] < 0 ? 0 : uses(ms[a]) + 1), "count", "a copy is not counted"); break; }
                case 8: { rp c{ std::move(s[a]) }; int const n = ms[a]; ms[a] = -1; s[b] = c; ms[b] = n; break; }
                case 9: std::swap(s[a], s[b]); std::swap(ms[a], ms[b]); break;
                case 10: if (sim::flip()) s[a] = nullptr; else s[a].reset(); ms[a] = -1; break;
                case 11: s[a].reset(s[b].ptr()); ms[a] = ms[b]; break;
                case 12: is[i] = s[a]; mi[i] = ms[a]; break;
                case 13: if (sim::flip()) is[i] = neolib::static_pointer_cast<i_thing>(s[a]); else is[i] = neolib::static_pointer_cast<i_thing>(rp{ s[a] }); mi[i] = ms[a]; break;
                case 14: s[a] = neolib::dynamic_pointer_cast<thing>(is[i]); ms[a] = mi[i]; break;
                case 15: is[i] = nullptr; mi[i] = -1; break;
                case 16: ws[k] = s[a]; mw[k] = ms[a]; break;
                case 17: { auto const k2 = (std::size_t)sim::rnd(W); if (sim::flip()) ws[k] = ws[k2]; else { wp c{ ws[k2] }; ws[k] = c; } mw[k] = mw[k2]; break; }
                case 18: if (sim::flip()) ws[k].reset(); else ws[k] = nullptr; mw[k] = -1; break;
                case 19: if (ms[a] >= 0) { int const n = ms[a]; auto* p = s[a].detach(); ms[a] = -1; sim::quiet q; loose.push_back({ p, n }); sim::probe("detached"); } break;
                case 20: if (!loose.empty()) { auto l = loose.back(); { sim::quiet q; loose.pop_back(); } if (sim::flip()) { s[a].reset(l.p, l.p, true, false); ms[a] = l.n; } else { l.p->release(); } } break;
                case 21:
                    if (ms[a] >= 0 && !pins[(std::size_t)ms[a]])
                    {
                        int const n = ms[a];
                        if (uses(n) == 1) { thing* p = s[a].release(); ms[a] = -1; pins[(std::size_t)n] = 1; check(); pins[(std::size_t)n] = 0; sim::probe("released"); if (sim::flip()) delete p; else { s[b] = rp{ p }; ms[b] = n; } }
                        else { bool threw = false; try { s[a].release(); } catch (neolib::i_reference_counted::too_many_references const&) { threw = true; } SIM_CHECK(threw, "count", "an object with %d owners was given away", uses(n)); }
                    }
                    break;
                case 26: { i_thing* const p = s[a].ptr(); switch (sim::rnd(3)) { case 0: ws[k].reset(p); break; case 1: ws[k].reset(p, p); break; default: ws[k].reset(p, p, true, true); } mw[k] = ms[a]; break; }
                case 27: { bool const l = mw[k] >= 0 && lives(mw[k]); void const* const at = l ? w.recs[(std::size_t)mw[k]].at : nullptr; thing* const p = ws[k].detach(); SIM_CHECK((void const*)p == at, "weak", "detaching a weak reference gave another object"); mw[k] = -1; sim::probe("weak_detached"); break; }
                case 28: { bool refused = false; try { ws[k].release(); } catch (wp::no_object const&) { refused = true; } catch (wp::bad_release const&) { refused = true; } SIM_CHECK(refused, "weak", "a weak reference gave away the ownership it does not have"); SIM_CHECK(!ws[k].unique() && !ws[k].reference_counted() && ws[k].use_count() == 0 && ws[k].managing() == ws[k].valid() && ws[k].managed_ptr() == ws[k].ptr(), "weak", "a weak reference says that it owns"); break; }
                case 29: // owns one object and points to another
                {
                    int const n = ms[a]; rp al{ s[a], s[b].ptr() }; rp al2 = al; ip wide; rp moved{ std::move(al2), s[b].ptr() };
                    SIM_CHECK(al.ptr() == s[b].ptr() && al.managed_ptr() == s[a].ptr() && al.managing() == (n >= 0) && al.valid() == (ms[b] >= 0), "wrong-pointer", "an aliasing pointer refers to the wrong objects");
                    SIM_CHECK(al.use_count() == (n >= 0 ? uses(n) + 2 : 0) && !al2.managing(), "count", "aliasing pointers to object %d are not counted: %ld", n, al.use_count());
                    moved.reset(s[b].ptr(), s[a].ptr()); SIM_CHECK(moved.use_count() == (n >= 0 ? uses(n) + 2 : 0), "count", "object %d reports %ld owners", n, moved.use_count());
                    if (sim::flip()) al = al; moved = std::move(al); SIM_CHECK(moved.ptr() == s[b].ptr() && moved.use_count() == (n >= 0 ? uses(n) + 1 : 0), "count", "object %d reports %ld owners after a move", n, moved.use_count());
                    if (n >= 0 && sim::chance(30)) { s[a].reset(); ms[a] = -1; SIM_CHECK(w.recs[(std::size_t)n].destroyed == 0, "destroyed-early", "object %d was destroyed though an aliasing pointer owns it", n); }
                    sim::probe("aliased"); break;
                }
                case 30: // points and does not own
                    if (ms[a] >= 0) { rp u; u.reset(s[a].ptr(), s[a].ptr(), false, false); rp u2{ u }, u3; u3 = u2; u3 = s[a]; u3 = u; SIM_CHECK(u.use_count() == 0 && u2.use_count() == 0 && u.valid() && u.unique() && !u2.reference_counted() && !u3.reference_counted(), "count", "a pointer that does not own says it has owners"); SIM_CHECK(s[a].use_count() == uses(ms[a]), "count", "object %d reports %ld owners", ms[a], s[a].use_count()); sim::probe("not_owning"); }
                    break;
                case 31: { ip c{ s[a] }; ip c2{ rp{ s[a] } }; ip c3{ static_cast<neolib::i_ref_ptr<i_thing> const&>(c), c.ptr() }; SIM_CHECK(c3.use_count() == (ms[a] < 0 ? 0 : uses(ms[a]) + 3), "count", "converted pointers are not counted"); is[i] = std::move(c2); mi[i] = ms[a]; if (sim::flip()) { is[i] = std::move(s[a]); ms[a] = -1; } break; }
                case 32: // a pointer that cannot refer to what it is given keeps what it has
                {
                    neolib::ref_ptr<i_thing> other; { auto* o = new stranger{}; other = neolib::ref_ptr<i_thing>{ o }; } bool refused = false;
                    try { if (sim::flip()) s[a].reset(other.ptr()); else s[a].reset(other.ptr(), other.ptr(), true, true); } catch (std::bad_cast const&) { refused = true; }
                    SIM_CHECK(refused && other.use_count() == 1, "wrong-pointer", "a pointer took an object of another type"); sim::probe("bad_cast"); break;
                }
                case 33: if (ms[a] >= 0 && ms[b] >= 0) { static_cast<neolib::reference_counted<i_thing>&>(*s[a]) = static_cast<neolib::reference_counted<i_thing>&>(*s[b]); bool self = ms[a] == ms[b]; SIM_CHECK((s[a] == s[b]) == self && (s[a] != s[b]) == !self && (s[a] < s[b]) == (s[a].ptr() < s[b].ptr()) && !(s[a] == nullptr), "wrong-pointer", "comparing pointers"); SIM_CHECK(s[a].unique() == (uses(ms[a]) == 1), "count", "unique() with %d owners", uses(ms[a])); } break;
                case 22: case 24: case 25: if (ms[a] > ms[b]) std::swap(a, b); if (ms[a] >= 0 && ms[b] > ms[a]) { s[a]->child = s[b]; kids[(std::size_t)ms[a]] = ms[b]; sim::probe("child"); } break;
                case 23:
                    if (ms[a] >= 0)
                    {
                        int const n = ms[a];
                        if (!pins[(std::size_t)n]) { s[a]->pin(); pins[(std::size_t)n] = 1; } else { pins[(std::size_t)n] = 0; s[a]->unpin(); }
                        SIM_CHECK(s[a]->pinned() == (pins[(std::size_t)n] != 0), "pin", "pinned() is wrong");
                        if (pins[(std::size_t)n] && sim::flip()) { thing* p = s[a].ptr(); s[a] = nullptr; ms[a] = -1; check(); pins[(std::size_t)n] = 0; p->unpin(); sim::probe("kept_by_pin"); }
                    }
                    break;
                }
            }
            catch (std::bad_alloc const&) { sim::probe("no_memory"); }
            af.reset(); check();
        }
        for (int n = 0; n < (int)pins.size(); ++n) if (pins[(std::size_t)n]) { pins[(std::size_t)n] = 0; const_cast<thing*>(static_cast<thing const*>(w.recs[(std::size_t)n].at))->unpin(); }
        for (auto& l : loose) l.p->release(); loose.clear();
        s = {}; ms.fill(-1); is = {}; mi.fill(-1); check();
    }
    for (std::size_t n = 0; n < w.recs.size(); ++n) SIM_CHECK(w.recs[n].destroyed == 1, "not-destroyed", "object %zu was destroyed %d times", n, w.recs[n].destroyed);
    sim::state(w.recs.size()); sRefs = nullptr;
}

SIM_SCENARIO(references_mt)
{
    sim::enable_fault("time_skip"); sim::enable_fault("weak_cas_failure");
    sim::set_time_limit(60 * sim::sec);
    ref_world w; sRefs = &w; w.lookBack = sim::chance(30);
    int const n = 1 + (int)sim::rnd(3), nt = 2 + (int)sim::rnd(3);
    for (int i = 0; i < n; ++i) w.recs.emplace_back();
    std::uint64_t const before = sim::live_blocks();
    {
        std::vector<neolib::ref_ptr<thing>> roots; std::vector<neolib::weak_ref_ptr<thing>> weakRoots;
        for (int i = 0; i < n; ++i) { roots.push_back(neolib::make_ref<thing>(i)); if (sim::flip()) weakRoots.emplace_back(roots.back()); else weakRoots.emplace_back(); }
        std::vector<std::vector<unsigned>> scripts; for (int t = 0; t < nt; ++t) { scripts.emplace_back(); int k = 1 + (int)sim::rnd(8); for (int i = 0; i < k; ++i) scripts.back().push_back((unsigned)sim::rnd(9 * 12)); }
        struct start { std::vector<neolib::ref_ptr<thing>> strong; std::vector<neolib::weak_ref_ptr<thing>> weak; }; std::vector<start> st((std::size_t)nt);
        for (auto& x : st) for (int i = 0; i < n; ++i) { if (sim::flip()) x.strong.push_back(roots[(std::size_t)i]); if (sim::flip()) { x.weak.push_back(weakRoots[(std::size_t)i]); } }
        std::vector<std::thread> ts;
        for (int t = 0; t < nt; ++t) ts.emplace_back([&, t, mine = std::move(st[(std::size_t)t])]() mutable
        {
            struct weak { neolib::weak_ref_ptr<thing> p; int of; bool expired = false; };
            std::vector<weak> ws; for (auto& x : mine.weak) { auto* p = x.ptr(); (void)p; ws.push_back({ x, -1 }); }
            auto look = [&](weak& x)
            {
                bool const gone0 = x.of >= 0 && w.recs[(std::size_t)x.of].gone.load();
                bool held = false; for (auto& s : mine.strong) if (x.of >= 0 && s->n == x.of) held = true;
                bool const e = x.p.expired();
                SIM_CHECK(!(x.expired && !e), "weak", "an expired weak reference came back to life");
                SIM_CHECK(!(held && e), "weak", "a weak reference is expired while this thread owns the object");
                (void)gone0; x.expired = e;
                auto* p = x.p.ptr(); if (held) SIM_CHECK(p && (void*)p == w.recs[(std::size_t)x.of].at, "weak", "a weak reference yields another object"); if (e) SIM_CHECK(!p, "weak", "an expired weak reference yields an object");
            };
            for (auto c : scripts[(std::size_t)t])
            {
                unsigned const op = c % 9, which = c / 9;
                auto& S = mine.strong;
                switch (op)
                {
                case 0: case 1: if (!S.empty()) { auto c2 = S[which % S.size()]; c2->touch(); S.push_back(c2); } break;
                case 2: if (!S.empty()) { auto moved = std::move(S[which % S.size()]); S.erase(S.begin() + (long)(which % S.size())); moved->touch(); } break;
                case 3: case 4: if (!S.empty()) { auto& p = S[which % S.size()]; ws.push_back({ neolib::weak_ref_ptr<thing>{ p }, p->n }); SIM_CHECK(!ws.back().p.expired(), "weak", "a new weak reference to a living object is expired"); } break;
                case 5: if (!ws.empty()) { weak c2{ ws[which % ws.size()] }; look(c2); ws.push_back(c2); } break;
                case 6: if (!ws.empty()) ws.erase(ws.begin() + (long)(which % ws.size())); break;
                case 7: if (ws.size() > 1) { auto& a = ws[which % ws.size()]; auto& b = ws[(which + 1) % ws.size()]; a = b; look(a); } break;
                default: for (auto& x : ws) look(x);
                }
                for (auto& s : S) s->touch();
            }
            for (auto& x : ws) look(x);
            mine.strong.clear();
            for (auto& x : ws) look(x);
        });
        st.clear();
        if (sim::flip()) roots.clear(); else for (auto& r : roots) if (sim::flip()) r = nullptr;
        if (sim::flip()) weakRoots.clear();
        for (auto& t : ts) t.join();
        for (auto& x : weakRoots) (void)x.expired();
        roots.clear();
        for (int i = 0; i < n; ++i) SIM_CHECK(w.recs[(std::size_t)i].destroyed == 1, "not-destroyed", "object %d was destroyed %d times", i, w.recs[(std::size_t)i].destroyed);
        for (auto& x : weakRoots) SIM_CHECK(x.expired(), "weak", "a weak reference outlives its object unexpired");
    }
    SIM_CHECK(sim::live_blocks() == before, "leak", "%lld heap blocks of reference counting are never freed", (long long)(sim::live_blocks() - before));
    sim::state((std::uint64_t)n); sRefs = nullptr;
}

// ---------------------------------------------------------------- C24 time slices
SIM_SCENARIO(time_slices)
{
    sim::enable_fault("time_skip");
    sim::set_time_limit(3600 * sim::sec);
    neolib::allocate_service_provider();
    int const nt = 1 + (int)sim::rnd(3);
    struct op { unsigned kind; std::int64_t v; unsigned which; };
    std::vector<std::vector<op>> scripts;
    for (int t = 0; t < nt; ++t) { scripts.emplace_back(); int const n = 1 + (int)sim::rnd(24); for (int i = 0; i < n; ++i) { std::int64_t const v = sim::range(0, 40); scripts.back().push_back({ (unsigned)sim::rnd(12), v, (unsigned)sim::rnd(3) }); } }
    static neolib::time_slice_task tasks[3];
    auto body = [&](int me)
    {
        struct used { std::int64_t lo = 0, hi = 0; };
        struct open { int task; std::int64_t loIn, hiIn; bool running; }; // entered between loIn and hiIn
        struct slice { std::int64_t budget; std::size_t split = 0; bool hasSplit = false; std::map<int, used> spent; std::vector<open> stack; };
        std::vector<slice> model; auto& ts = neolib::service<neolib::i_time_slice>();
        struct frame { bool isSlice; bool counted; std::unique_ptr<neolib::scoped_time_slice> s; std::unique_ptr<neolib::scoped_time_slice_task<>> t; };
        std::vector<frame> frames;
        auto pause = [&](slice& s, std::int64_t lo, std::int64_t hi) { auto& o = s.stack.back(); auto& u = s.spent[o.task]; u.lo += std::max<std::int64_t>(0, lo - o.hiIn); u.hi += hi - o.loIn; o.running = false; };
        auto leave = [&]
        {
            auto f = std::move(frames.back()); frames.pop_back();
            std::int64_t const lo = sim::now(); bool const isSlice = f.isSlice, counted = f.counted; f.t.reset(); f.s.reset(); std::int64_t const hi = sim::now();
            if (isSlice) { model.pop_back(); return; }
            if (!counted) return;
            auto& s = model.back(); pause(s, lo, hi); s.stack.pop_back();
            if (!s.stack.empty()) s.stack.back() = { s.stack.back().task, lo, hi, true };
        };
        auto ask = [&]
        {
            SIM_CHECK(ts.active() == !model.empty(), "active", "active() is %d inside %zu slices", ts.active(), model.size());
            if (model.empty()) { SIM_CHECK(!ts.expired(), "expired-outside", "expired() outside any slice"); return; }
            auto& s = model.back(); if (s.stack.empty()) return; // no task: nothing to attribute time to
            std::int64_t const lo = sim::now(); bool const e = ts.expired(); std::int64_t const hi = sim::now();
            auto& o = s.stack.back(); auto const& u = s.spent[o.task]; std::int64_t const usedLo = u.lo + std::max<std::int64_t>(0, lo - o.hiIn), usedHi = u.hi + hi - o.loIn;
            std::int64_t const n = s.hasSplit ? std::max<std::int64_t>(1, (std::int64_t)s.split) : 1;
            if (usedLo > s.budget / n + 1000) { SIM_CHECK(e, "not-expired", "task %d used at least %lld ns of its %lld ns and is not expired (slice %zu deep)", o.task, (long long)usedLo, (long long)(s.budget / n), model.size()); sim::probe("expired"); }
            if (usedHi < s.budget / n - 1000) { SIM_CHECK(!e, "expired-early", "task %d used at most %lld ns of its %lld ns and is expired (slice %zu deep)", o.task, (long long)usedHi, (long long)(s.budget / n), model.size()); sim::probe("not_expired"); }
        };
        for (auto const& o : scripts[(std::size_t)me])
        {
            switch (o.kind)
            {
            case 0: case 1: if (model.size() < 3) { slice s; s.budget = o.v * sim::ms; frame f{ true, true, {}, {} }; f.s = std::make_unique<neolib::scoped_time_slice>(std::chrono::milliseconds(o.v)); frames.push_back(std::move(f)); if (!model.empty()) sim::probe("nested_slice"); model.push_back(std::move(s)); } break;
            case 2: case 3: case 4:
            {
                frame f{ false, !model.empty(), {}, {} };
                std::int64_t const lo = sim::now(); f.t = std::make_unique<neolib::scoped_time_slice_task<>>(tasks[o.which]); std::int64_t const hi = sim::now();
                if (f.counted) { auto& s = model.back(); if (!s.stack.empty()) { pause(s, lo, hi); sim::probe("nested_task"); } s.stack.push_back({ (int)o.which, lo, hi, true }); s.spent[(int)o.which]; }
                frames.push_back(std::move(f)); break;
            }
            case 5: if (!frames.empty()) leave(); break;
            case 6: if (!model.empty() && model.back().stack.empty() == false && o.which) { ts.split(o.which); model.back().split += o.which; model.back().hasSplit = true; sim::probe("split"); } break;
            case 7: case 8: sim::sleep_ns(o.v * sim::ms / 2); break;
            case 9: sim::jump(o.v * sim::us * 100); break;
            default: ask();
            }
            if (o.kind >= 7) ask();
        }
        while (!frames.empty()) { ask(); leave(); }
        SIM_CHECK(!ts.active() && !ts.expired(), "active", "still active after every slice was left");
        sim::state(model.size());
    };
    std::vector<std::thread> ts; for (int t = 1; t < nt; ++t) ts.emplace_back(body, t);
    body(0); for (auto& t : ts) t.join();
}
