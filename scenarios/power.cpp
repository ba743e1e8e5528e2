// C24: power modes follow activity and the clock
#include <neolib/neolib.hpp>
#include <boost/asio.hpp>
#include <neolib/task/async_thread.hpp>
#include <neolib/app/power.hpp>
#include "common.hpp"

template<> neolib::i_async_task& neolib::services::start_service<neolib::i_async_task>() { throw std::logic_error{ "no task" }; }
namespace
{
    struct pumped_task : neolib::async_task { pumped_task() : neolib::async_task{ "power task" } {} bool work() { return static_cast<neolib::i_task&>(*this).do_work(neolib::yield_type::NoYield); } };
}
SIM_SCENARIO(power_modes)
{
    using neolib::power_mode; using clock = std::chrono::steady_clock;
    sim::enable_fault("time_skip", 20); neolib::allocate_service_provider(); (void)neolib::async_event_queue::instance(); sim::set_time_limit(240 * 3600 * sim::sec);
    pumped_task task; neolib::services::register_service<neolib::i_async_task>(task); std::int64_t last0 = sim::now(); bool enabled = true, inHandler = false; int green = 0, turbo = 0, activities = 0, expected = 0; std::int64_t timeout = 5;
    {
        neolib::power p{ sim::flip() ? neolib::power_flags::SetProcessAndThreadPriority : neolib::power_flags{} }; neolib::sink sink; bool const nervous = sim::chance(30);
        auto activity = [&] { last0 = sim::now(); ++expected; p.register_activity(); SIM_CHECK(!p.green_mode_active(), "green-when-active", "green mode is still active after activity"); };
        sink += p.activity_registered([&]() { ++activities; });
        sink += p.green_mode_entered([&]()
        {
            SIM_CHECK(++green == 1, "mode-events", "green mode is entered twice"); SIM_CHECK(enabled, "green-when-disabled", "green mode is entered and is disabled"); SIM_CHECK(sim::now() - last0 >= timeout * sim::sec, "green-early", "green mode is entered %.3f s after activity; the timeout is %d s", (double)(sim::now() - last0) / 1e9, (int)timeout); SIM_CHECK(p.active_mode() == power_mode::Green, "mode-events", "green mode is entered and the mode is %d", (int)p.active_mode()); sim::probe("green");
            if (nervous && !inHandler && sim::flip()) { inHandler = true; activity(); inHandler = false; sim::probe("activity_on_entering"); }
        });
        sink += p.green_mode_left([&]() { SIM_CHECK(--green == 0, "mode-events", "green mode is left and was not entered"); });
        sink += p.turbo_mode_entered([&]() { SIM_CHECK(++turbo == 1, "mode-events", "turbo mode is entered twice"); });
        sink += p.turbo_mode_left([&]() { SIM_CHECK(--turbo == 0, "mode-events", "turbo mode is left and was not entered"); });
        int enables = 0, disables = 0; sink += p.green_mode_enabled([&]() { ++enables; }); sink += p.green_mode_disabled([&]() { ++disables; }); int en = 0, dis = 0;
        for (int ops = 5 + (int)sim::rnd(40); ops > 0; --ops)
        {
            switch (sim::rnd(10))
            {
            case 0: case 1: activity(); break;
            case 2: timeout = 1 + (std::int64_t)sim::rnd(10); p.set_activity_timeout(std::chrono::seconds{ timeout }); SIM_CHECK(p.activity_timeout().count() == timeout, "timeout", "activity_timeout() is not what was set"); break;
            case 3: if (sim::flip()) { dis += enabled; enabled = false; p.disable_green_mode(); } break;
            case 4: if (sim::chance(80)) { en += !enabled; enabled = true; p.enable_green_mode(); } break;
            case 5: { sim::sleep_ns((std::int64_t)(sim::rnd(12000)) * sim::ms); break; } // nobody pumps
            case 6: // long inactive
            {
                bool const was = p.green_mode_active(); sim::sleep_ns(timeout * sim::sec); int const before = activities; int entered = 0; neolib::sink s; s += p.green_mode_entered([&]() { ++entered; });
                for (int i = 0; i < 6; ++i) { task.work(); sim::sleep_ns(300 * sim::ms); } task.work();
                if (enabled && activities == before) SIM_CHECK(p.green_mode_active(), "green-late", "green mode is not active more than a second after the timeout of %d s (was %d)", (int)timeout, was);
                if (was && activities == before) SIM_CHECK(entered == 0, "mode-events", "green mode is entered again"); sim::probe("inactive"); break;
            }
            default: for (int n = 1 + (int)sim::rnd(4); n > 0; --n) { task.work(); sim::sleep_ns((std::int64_t)sim::rnd(1500) * sim::ms); } break;
            }
            SIM_CHECK(p.turbo_mode_active() == !enabled, "turbo", "turbo mode is %d and green mode is enabled: %d", p.turbo_mode_active(), enabled); SIM_CHECK(p.is_green_mode_enabled() == enabled && p.is_turbo_mode_enabled() == !enabled, "enabled", "is_green_mode_enabled() is wrong");
            SIM_CHECK(activities == expected && enables == en && disables == dis, "mode-events", "activity_registered %d of %d, enabled %d of %d, disabled %d of %d", activities, expected, enables, en, disables, dis); SIM_CHECK((green == 1) == p.green_mode_active() && (turbo == 1) == p.turbo_mode_active(), "mode-events", "the mode (%d) is not the one entered last", (int)p.active_mode());
            sim::state((std::uint64_t)p.active_mode() * 1000 + (std::uint64_t)timeout * 10 + enabled);
        }
        sink.clear();
    }
    neolib::services::unregister_service<neolib::i_async_task>(task);
}
