// C05: mutexes
#include <neolib/neolib.hpp>
#include <neolib/core/mutex.hpp>
#include "common.hpp"

namespace
{
    struct tag_a {};
    struct lockable { virtual ~lockable() = default; virtual void lock() = 0; virtual void unlock() = 0; virtual bool try_lock() = 0; };
    template <typename M> struct box : lockable { M m; void lock() override { m.lock(); } void unlock() override { m.unlock(); } bool try_lock() override { return m.try_lock(); } };
    struct via_proxy : lockable { neolib::recursive_mutex<tag_a> s; neolib::proxy_mutex<neolib::recursive_mutex<tag_a>> m{ s }; void lock() override { m.lock(); } void unlock() override { m.unlock(); } bool try_lock() override { return m.try_lock(); } };
    std::unique_ptr<lockable> make(unsigned k)
    {
        switch (k)
        {
        case 0: return std::make_unique<box<neolib::recursive_mutex<tag_a>>>();
        case 1: return std::make_unique<box<neolib::recursive_mutex<tag_a, true>>>();
        case 2: return std::make_unique<box<neolib::recursive_mutex<tag_a, true, true>>>();
        case 3: return std::make_unique<via_proxy>();
        default: { auto p = std::make_unique<box<neolib::switchable_mutex<tag_a>>>(); if (k == 4) p->m.set_multi_threaded(); else if (k == 5) p->m.set_multi_threaded_profiled(); else if (k == 6) p->m.set_multi_threaded_spinlock(); return p; }
        }
    }
    struct observer : neolib::i_mutex_profiler_observer
    {
        int n = 0;
        void mutex_contended(neolib::i_lockable&, const std::chrono::microseconds&, neolib::mutex_lock_info const*, std::size_t) noexcept override { sim::quiet q; ++n; sim::probe("contention_reported"); }
    };
    struct shared
    {
        lockable* m; int holder = -1, depth = 0; std::vector<int> busy; // threads inside lock/try_lock/unlock or holding
        long a = 0, b = 0; // guarded, updated together
        int contenders(int me) { int n = 0; for (std::size_t i = 0; i < busy.size(); ++i) if ((int)i != me) n += busy[i]; return n; }
    };
}

SIM_SCENARIO(mutexes)
{
    sim::enable_fault("spurious_wakeup"); sim::enable_fault("time_skip"); sim::enable_fault("weak_cas_failure");
    sim::set_time_limit(600 * sim::sec);
    neolib::allocate_service_provider();
    int const nm = 1 + (int)sim::rnd(3), nt = 2 + (int)sim::rnd(3);
    std::vector<std::unique_ptr<lockable>> ms; std::vector<shared> sh((std::size_t)nm);
    for (int i = 0; i < nm; ++i) { ms.push_back(make((unsigned)sim::rnd(8))); sh[(std::size_t)i].m = ms.back().get(); sh[(std::size_t)i].busy.resize((std::size_t)nt); }
    std::array<neolib::recursive_mutex<tag_a>, 3> group; std::array<int, 3> groupHolder{ -1, -1, -1 }; std::array<long, 3> groupData{};
    auto& prof = neolib::service<neolib::i_mutex_profiler>(); observer obs; unsigned const profMode = (unsigned)sim::rnd(3);
    if (profMode) { prof.enable(std::chrono::microseconds{ 1 }, 0, profMode == 2); prof.subscribe(obs); }
    std::vector<std::vector<std::array<unsigned, 3>>> scripts;
    for (int t = 0; t < nt; ++t) { scripts.emplace_back(); int n = 1 + (int)sim::rnd(8); for (int i = 0; i < n; ++i) scripts.back().push_back({ (unsigned)sim::rnd(8), (unsigned)sim::rnd((unsigned)nm), (unsigned)sim::rnd(4) }); }
    auto entered = [](shared& s, int me) { sim::quiet q; SIM_CHECK(s.holder == -1 || s.holder == me, "not-exclusive", "thread %d holds the lock that thread %d already holds", me, s.holder); s.holder = me; ++s.depth; if (s.depth > 1) sim::probe("recursive"); };
    auto leaving = [](shared& s) { sim::quiet q; if (--s.depth == 0) s.holder = -1; };
    auto work = [](shared& s, unsigned k) { s.a += 1; if (k == 1) sim::yield(); else if (k == 2) std::this_thread::sleep_for(std::chrono::microseconds(20)); s.b += 1; SIM_CHECK(s.a == s.b, "not-visible", "guarded values differ: %ld and %ld", s.a, s.b); };
    auto body = [&](int me)
    {
        for (auto const& op : scripts[(std::size_t)me])
        {
            auto& s = sh[op[1]];
            auto busy = [&](int v) { sim::quiet q; s.busy[(std::size_t)me] = v; };
            switch (op[0])
            {
            case 0: case 1: case 2: case 3:
            {
                int const deep = op[0] == 3 ? 1 + (int)op[2] : 1;
                busy(1);
                for (int i = 0; i < deep; ++i) { s.m->lock(); entered(s, me); }
                work(s, op[2]);
                for (int i = 0; i < deep; ++i) { work(s, 0); leaving(s); s.m->unlock(); }
                busy(0);
                break;
            }
            case 4: case 5:
            {
                bool contended; { sim::quiet q; contended = s.contenders(me) != 0; s.busy[(std::size_t)me] = 1; }
                std::uint64_t const steps = sim::seq();
                bool ok = s.m->try_lock();
                { sim::quiet q; contended = contended || s.contenders(me) != 0 || sim::seq() != steps + 1; }
                if (ok) { entered(s, me); work(s, op[2]);
                    if (op[0] == 5) { bool again = s.m->try_lock(); SIM_CHECK(again, "try-lock-own", "try_lock() failed for the thread that holds the lock"); entered(s, me); work(s, 0); leaving(s); s.m->unlock(); }
                    work(s, 0); leaving(s); s.m->unlock(); sim::probe("try_lock_true"); }
                else { SIM_CHECK(contended, "try-lock-free", "try_lock() failed though the lock was free"); sim::probe("try_lock_false"); }
                busy(0);
                break;
            }
            case 6: case 7:
            {
                // several at once, each thread in its own order
                int const first = (int)op[2] % 3; neolib::recursive_mutex<tag_a>* order[3] = { &group[(std::size_t)first], &group[(std::size_t)((first + 1) % 3)], &group[(std::size_t)((first + 2) % 3)] };
                if (op[0] == 6) std::swap(order[1], order[2]);
                struct ref { neolib::recursive_mutex<tag_a>* p; void lock() { p->lock(); } void unlock() { p->unlock(); } bool try_lock() { return p->try_lock(); } };
                std::vector<ref> refs; for (auto* o : order) refs.push_back({ o });
                {
                    neolib::scoped_multi_lock<std::vector<ref>> lk{ refs };
                    { sim::quiet q; for (auto& h : groupHolder) { SIM_CHECK(h == -1, "not-exclusive", "scoped_multi_lock of thread %d got a lock that thread %d holds", me, h); h = me; } }
                    for (auto& d : groupData) d += 1;
                    sim::yield();
                    SIM_CHECK(groupData[0] == groupData[1] && groupData[1] == groupData[2], "not-visible", "guarded values differ");
                    { sim::quiet q; for (auto& h : groupHolder) h = -1; }
                }
                sim::probe("multi_lock");
                break;
            }
            }
        }
    };
    std::vector<std::thread> ts; for (int t = 0; t < nt; ++t) ts.emplace_back(body, t);
    for (auto& t : ts) t.join();
    for (auto& s : sh) { SIM_CHECK(s.m->try_lock(), "left-locked", "a lock is still held after every holder has unlocked it"); s.m->unlock(); }
    for (auto& g : group) { SIM_CHECK(g.try_lock(), "left-locked", "a lock is still held after every holder has unlocked it"); g.unlock(); }
    if (profMode) { prof.unsubscribe(obs); prof.disable(); }
    sim::state((std::uint64_t)sh[0].a);
}
