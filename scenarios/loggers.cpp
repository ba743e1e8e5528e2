// C10: loggers with their own thread or without, copies, filters, formatters, handlers, slow targets, exiting threads.
#include "common.hpp"
#include <ostream>
#include <streambuf>
#include <neolib/neolib.hpp>
#include <neolib/core/service.hpp>
#include <neolib/core/string.hpp>
#include <neolib/task/event.hpp>
#include <neolib/app/ostream_logger.hpp>

namespace nl = neolib::logger;

namespace
{
    enum expect { No, Yes, Maybe };
    struct message { int id, thread; std::uint64_t start, end = ~0ull; bool cut = false; std::array<expect, 3> want{ No, No, No }; std::array<int, 3> seen{ 0, 0, 0 }; };
    struct log_world
    {
        std::deque<message> messages;
        std::array<std::map<int, int>, 3> last; // per target: last message of each thread
        std::array<std::set<std::uint64_t>, 3> lines;
        std::array<std::uint64_t, 3> formatted{};
        std::array<bool, 3> gone{}, dirtyLines{};
        std::array<std::vector<std::string>, 3> told; // what the subscriber of new_log_message was told
    };
    log_world* world = nullptr;

    void arrived(int target, std::string const& text)
    {
        sim::quiet q;
        std::size_t pos = 0; auto& w = *world;
        SIM_CHECK(!w.gone[(std::size_t)target], "written-late", "target %d is written to after its logger was destroyed", target);
        while (pos < text.size())
        {
            std::uint64_t line = 0; bool formatted = false;
            if (text[pos] == '[') { char* e; line = std::strtoull(text.c_str() + pos + 1, &e, 10); formatted = true; SIM_CHECK(*e == ']', "mixed", "target %d got damaged text '%s'", target, text.substr(pos, 60).c_str()); pos = (std::size_t)(e - text.c_str()) + 1; }
            SIM_CHECK(pos < text.size() && text[pos] == '{', "mixed", "target %d got '%s' where a message should start", target, text.substr(pos, 60).c_str());
            char* e; int const id = (int)std::strtol(text.c_str() + pos + 1, &e, 10); pos = (std::size_t)(e - text.c_str());
            SIM_CHECK(id >= 0 && id < (int)w.messages.size(), "invented", "target %d got message %d which was never logged", target, id);
            auto& m = w.messages[(std::size_t)id];
            std::string const body = ":" + std::string((std::size_t)(id * 7 % 40), (char)('a' + id % 26)) + "}\n";
            std::size_t n = 0; while (n < body.size() && pos + n < text.size() && text[pos + n] == body[n]) ++n;
            SIM_CHECK(n == body.size() || m.cut, "mixed", "message %d arrived at target %d as '%s'", id, target, text.substr(pos, 60).c_str());
            pos += n;
            SIM_CHECK(m.want[(std::size_t)target] != No, "filtered", "message %d reached target %d which does not take it", id, target);
            SIM_CHECK(++m.seen[(std::size_t)target] == 1, "twice", "message %d reached target %d twice", id, target);
            auto& l = w.last[(std::size_t)target].try_emplace(m.thread, -1).first->second;
            SIM_CHECK(l < id, "order", "message %d of thread %d reached target %d after message %d", id, m.thread, target, l); l = id;
            if (formatted && !w.dirtyLines[(std::size_t)target]) SIM_CHECK(w.lines[(std::size_t)target].insert(line).second, "line-id", "line %llu given to two messages", (unsigned long long)line);
        }
    }

    struct target_buf : std::streambuf
    {
        int target; bool slow; std::string pending; int inside = 0;
        target_buf(int t, bool s) : target{ t }, slow{ s } {}
        std::streamsize xsputn(char const* p, std::streamsize n) override
        {
            SIM_CHECK(inside++ == 0, "overlapping-writes", "target %d is written to by two threads at once", target);
            if (slow && n) { sim::probe("slow_target"); sim::sleep_ns((std::int64_t)(1 + n % 7) * 300 * sim::us); }
            arrived(target, std::string(p, (std::size_t)n));
            --inside; return n;
        }
        int_type overflow(int_type c) override { return c; }
    };

    struct any_log { virtual ~any_log() = default; virtual nl::i_logger& get() = 0; virtual void finalize() = 0; };
    template <std::uint32_t I> struct log_of : any_log { nl::ostream_logger<I> l; log_of(std::ostream& s) : l{ s } {} nl::i_logger& get() override { return l; } void finalize() override { l.finalize(); } };
    std::unique_ptr<any_log> make(int i, std::ostream& s) { if (i == 0) return std::make_unique<log_of<0>>(s); if (i == 1) return std::make_unique<log_of<1>>(s); return std::make_unique<log_of<2>>(s); }
}

SIM_SCENARIO(loggers)
{
    sim::enable_fault("spurious_wakeup"); sim::enable_fault("time_skip"); sim::enable_fault("alloc_failure", 30); sim::enable_fault("thread_create_failure", 10);
    sim::set_time_limit(600 * sim::sec);
    neolib::allocate_service_provider();
    (void)neolib::async_event_queue::instance();
    auto w = std::make_unique<log_world>(); world = w.get();
    // target 0: the logger written to; target 1: a copy of it; target 2: a second logger
    std::array<std::unique_ptr<target_buf>, 3> bufs; std::array<std::unique_ptr<std::ostream>, 3> streams; std::array<std::unique_ptr<any_log>, 3> logs;
    bool const copy = sim::chance(60);
    struct config { int filter = 2; std::array<int, 3> cat{ -1, -1, -1 }; int busy = 0; std::uint64_t changed = 0; bool attached = false; bool threaded = false, maybeThreaded = false; };
    std::array<config, 3> cfg; auto const nt = 1 + (int)sim::rnd(4);
    nl::formatter fmt{ [&](nl::i_logger const& l, neolib::i_string const& in, neolib::i_string& out)
    {
        out = std::string{ "[" + std::to_string(l.line_id()) + "]" + std::string{ in.to_std_string_view() } };
    } };
    std::array<bool, 3> formatter{};
    for (int i = 0; i < 3; ++i)
    {
        bufs[(std::size_t)i] = std::make_unique<target_buf>(i, sim::chance(40)); streams[(std::size_t)i] = std::make_unique<std::ostream>(bufs[(std::size_t)i].get());
        logs[(std::size_t)i] = make(i, *streams[(std::size_t)i]);
        auto& c = cfg[(std::size_t)i]; auto& l = logs[(std::size_t)i]->get();
        if (sim::flip()) { c.filter = (int)sim::rnd(5); l.set_filter_severity((nl::severity)c.filter); }
        if ((formatter[(std::size_t)i] = sim::chance(40))) l.set_formatter(fmt);
        if (sim::chance(70)) { sim::thread_faults(true); try { l.create_logging_thread(); c.threaded = true; } catch (std::system_error const&) { sim::probe("no_logging_thread"); } sim::thread_faults(false); }
        SIM_CHECK(l.has_logging_thread() == c.threaded, "logging-thread", "logger %d says it has a logging thread: %d", i, !c.threaded);
    }
    for (int k = 0; k < 3; ++k) for (int i = 0; i < 3; ++i) if (sim::chance(40)) { auto& c = cfg[(std::size_t)i]; logs[(std::size_t)i]->get().register_category(k + 1, "c"); c.cat[(std::size_t)k] = 1; }
    if (copy) { logs[0]->get().copy_to(logs[1]->get()); cfg[0].attached = true; }
    // a subscriber on this thread, and a handler that logs itself
    neolib::sink sink; int nested = 0; bool const nestedLogs = sim::chance(30);
    struct tstate { bool failing = false; std::array<int, 3> sev{ 2, 2, 2 }, cat{ 0, 0, 0 }; };
    std::vector<tstate> states((std::size_t)nt + 1); std::vector<std::thread::id> ids((std::size_t)nt + 1); ids[0] = std::this_thread::get_id();
    auto who = [&] { sim::quiet q; for (int i = 0; i <= nt; ++i) if (ids[(std::size_t)i] == std::this_thread::get_id()) return i; return -1; };
    auto takes = [&](int me, int target) { auto& c = cfg[(std::size_t)target]; auto& s = states[(std::size_t)me]; if (s.sev[(std::size_t)target] < c.filter) return false; int k = s.cat[(std::size_t)target]; return !(k >= 1 && k <= 3 && c.cat[(std::size_t)k - 1] == 0); };
    std::function<void(int, int, int, bool)> say = [&](int me, int i, int style, bool fail)
    {
        auto& l = logs[(std::size_t)i]->get(); int id; std::array<int, 2> targets{ i, -1 };
        {
            sim::quiet q; id = (int)w->messages.size(); w->messages.push_back({ id, me, sim::seq() }); auto& m = w->messages.back();
            if (i == 0 && copy) targets[1] = 1;
            for (int t : targets) if (t >= 0) { auto& c = cfg[(std::size_t)t]; m.want[(std::size_t)t] = c.busy || cfg[0].busy ? Maybe : takes(me, t) ? Yes : No; if (t == 1 && i == 0 && !cfg[0].attached && m.want[1] != Maybe) m.want[1] = No; }
            if (style % 5 == 1) { m.cut = true; sim::probe("null_text"); }
        }
        auto& m = w->messages[(std::size_t)id];
        l << "{" << id;
        if (style % 5 == 1) l << static_cast<char const*>(nullptr);
        l << ":" << std::string((std::size_t)(id * 7 % 40), (char)('a' + id % 26)) << "}";
        if (style % 3 == 0 && !fail) l << std::endl;
        else
        {
            l << "\n";
            if (!fail) l << std::flush;
            else try { for (int t : targets) if (t >= 0) { sim::quiet q; if (m.want[(std::size_t)t] == Yes) m.want[(std::size_t)t] = Maybe; w->dirtyLines[(std::size_t)t] = true; } states[(std::size_t)me].failing = true; sim::alloc_faults f{ 150 }; l << std::flush; } catch (std::bad_alloc const&) { sim::probe("flush_out_of_memory"); }
            states[(std::size_t)me].failing = false;
        }
        sim::quiet q; m.end = sim::seq();
        for (int t : targets) if (t >= 0) { auto& c = cfg[(std::size_t)t]; if ((c.busy || c.changed > m.start || cfg[0].busy || cfg[0].changed > m.start) && m.want[(std::size_t)t] != No) m.want[(std::size_t)t] = Maybe;
            else if (c.busy || c.changed > m.start || ((t == 1 && i == 0) && (cfg[0].busy || cfg[0].changed > m.start))) m.want[(std::size_t)t] = Maybe; }
    };
    auto configure = [&](int i, auto&& act) { { sim::quiet q; ++cfg[(std::size_t)i].busy; for (auto& m : w->messages) if (m.end == ~0ull) for (int t = 0; t < 3; ++t) m.want[(std::size_t)t] = Maybe; } act(); sim::quiet q; --cfg[(std::size_t)i].busy; cfg[(std::size_t)i].changed = sim::seq(); };
    auto written = [&](int target, std::uint64_t before, char const* after) { sim::quiet q; for (auto& m : w->messages) if (m.end < before && m.want[(std::size_t)target] == Yes) SIM_CHECK(m.seen[(std::size_t)target] == 1, "lost", "message %d of thread %d is not written to target %d after %s", m.id, m.thread, target, after); };
    std::mutex cfgMutex; // one thread changes the configuration at a time
    if (sim::chance(50))
        sink += logs[0]->get().new_log_message([&](neolib::i_string const& s)
        {
            std::string const t{ s.to_std_string_view() }; sim::quiet q; w->told[0].push_back(t);
        });
    if (nestedLogs)
        sink += ~logs[2]->get().new_log_message([&](neolib::i_string const&)
        {
            int me = who(); if (me < 0 || states[(std::size_t)me].failing) return;
            { sim::quiet q; if (nested >= 3) return; ++nested; }
            sim::probe("logged_in_handler");
            int const target = nested % 2 ? 2 : 0; say(me, target, 2, false);
        });
    struct opr { unsigned op, a, b; };
    std::vector<std::vector<opr>> script((std::size_t)nt + 1);
    for (auto& s : script) { int n = 2 + (int)sim::rnd(12); for (int i = 0; i < n; ++i) s.push_back({ (unsigned)sim::rnd(15), (unsigned)sim::rnd(60), (unsigned)sim::rnd(60) }); }
    bool const faults = sim::fault_enabled("alloc_failure");
    auto body = [&](int me)
    {
        { sim::quiet q; ids[(std::size_t)me] = std::this_thread::get_id(); }
        (void)neolib::async_event_queue::instance();
        for (auto const& o : script[(std::size_t)me])
        {
            int const i = o.a % 3 == 2 ? 2 : o.a % 5 == 4 && !copy ? 1 : 0; auto& l = logs[(std::size_t)i]->get();
            switch (o.op)
            {
            case 0: case 1: case 2: case 3: case 4: say(me, i, (int)o.b, false); break;
            case 5: if (faults) say(me, i, (int)o.b, true); else say(me, i, (int)o.b, false); break;
            case 6: { l << (nl::severity)(o.b % 6); sim::quiet q; states[(std::size_t)me].sev[(std::size_t)i] = (int)(o.b % 6); if (i == 0 && copy) states[(std::size_t)me].sev[1] = (int)(o.b % 6); break; }
            case 7: { l << nl::category{ o.b % 4 }; sim::quiet q; states[(std::size_t)me].cat[(std::size_t)i] = (int)(o.b % 4); if (i == 0 && copy) states[(std::size_t)me].cat[1] = (int)(o.b % 4); break; }
            case 8: { std::lock_guard<std::mutex> g{ cfgMutex }; configure(i, [&] { l.set_filter_severity((nl::severity)(o.b % 5)); sim::quiet q; cfg[(std::size_t)i].filter = (int)(o.b % 5); }); break; }
            case 9: case 10:
            {
                std::lock_guard<std::mutex> g{ cfgMutex }; auto k = o.b % 3;
                configure(i, [&] { if (o.op == 9) l.disable_category(k + 1); else l.enable_category(k + 1); sim::quiet q; for (int t = 0; t < 2; ++t) { auto& c = cfg[(std::size_t)(t ? 1 : i)]; if (t && !(i == 0 && copy && cfg[0].attached)) break; if (c.cat[k] >= 0) c.cat[k] = o.op == 10; } });
                bool const known = cfg[(std::size_t)i].cat[k] >= 0; // category_enabled() is about registered categories
                bool const e = static_cast<nl::i_logger const&>(l).category_enabled((nl::category_id)(k + 1));
                SIM_CHECK(e == (known && o.op == 10), "category", "category %u of logger %d is enabled=%d after being set %d", k + 1, i, e, o.op == 10);
                break;
            }
            case 11: { bool t; { sim::quiet q; t = cfg[(std::size_t)i].threaded; } auto at = sim::seq(); l.wait(); if (t) { written(i, at, "wait()"); sim::probe("waited"); } break; }
            case 12: { bool t; { sim::quiet q; t = cfg[(std::size_t)i].threaded; } auto at = sim::seq(); l.commit(); if (!t) { bool now; { sim::quiet q; now = cfg[(std::size_t)i].maybeThreaded; } if (!now) { written(i, at, "commit()"); sim::probe("committed"); } } break; }
            case 13: { auto n = l.line_id(); SIM_CHECK(n >= nl::DefaultInitialLineId, "line-id", "line id %llu", (unsigned long long)n); (void)l.has_formatter(); (void)l.filter_severity(); break; }
            case 14:
                if (me == 0 && o.a % 4 == 0)
                {
                    if (i != 1 && !cfg[(std::size_t)i].threaded && sim::flip()) { std::lock_guard<std::mutex> g{ cfgMutex }; { sim::quiet q; cfg[(std::size_t)i].maybeThreaded = true; } l.create_logging_thread(); { sim::quiet q; cfg[(std::size_t)i].threaded = true; } sim::probe("late_logging_thread"); auto at = sim::seq(); l.wait(); written(i, at, "wait()"); }
                    else if (copy && cfg[0].attached && logs[1])
                    {
                        std::lock_guard<std::mutex> g{ cfgMutex };
                        configure(0, [&] { logs[0]->get().cancel_copy_to(logs[1]->get()); sim::quiet q; cfg[0].attached = false; });
                        auto at = sim::seq(); logs[1].reset(); written(1, at, "its destruction"); { sim::quiet q; w->gone[1] = true; } sim::probe("copy_destroyed");
                    }
                }
                else std::this_thread::sleep_for(std::chrono::milliseconds(o.b % 3 * 7));
                break;
            }
        }
    };
    std::vector<std::thread> ts; for (int t = 1; t <= nt; ++t) ts.emplace_back(body, t);
    body(0);
    for (auto& t : ts) t.join();
    while (neolib::async_event_queue::instance().pump_events()) {}
    { sim::quiet q; if (!w->told[0].empty()) sim::probe("subscriber"); std::map<std::string, int> n; for (auto& s : w->told[0]) ++n[s]; for (auto& m : w->messages) if (m.want[0] == Yes && !w->told[0].empty()) { int c = 0; auto text = "{" + std::to_string(m.id) + (m.cut ? "" : ":"); for (auto& [s, k] : n) if (s.find(text) != s.npos) c += k; SIM_CHECK(m.cut || c == 1, "subscriber", "new_log_message told the subscriber %d times of message %d", c, m.id); } }
    sink.clear();
    if (sim::chance(30)) { int i = (int)sim::rnd(3); if (logs[(std::size_t)i]) { auto at = sim::seq(); logs[(std::size_t)i]->finalize(); written(i, at, "finalize()"); sim::probe("finalized"); if (sim::flip() && i != 1) say(0, i, 2, false); } }
    if (cfg[0].attached) { configure(0, [&] { logs[0]->get().cancel_copy_to(logs[1]->get()); cfg[0].attached = false; }); }
    for (int k : { 1, 0, 2 }) if (logs[(std::size_t)k]) { auto at = sim::seq(); logs[(std::size_t)k].reset(); written(k, at, "its destruction"); w->gone[(std::size_t)k] = true; }
    sim::state(w->messages.size() * 31 + nested);
}
