// simrt: in-process deterministic simulation runtime. Public interface for scenarios.
// One seed decides every scheduling decision, clock advance, fault and workload choice.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstddef>

namespace sim
{
    // ---- workload choices (minimised by the replay shrinker towards 0) ----
    std::uint64_t rnd(std::uint64_t n);                    // uniform in [0,n), n>=1
    inline std::int64_t range(std::int64_t lo, std::int64_t hi) { return lo + (std::int64_t)rnd((std::uint64_t)(hi - lo + 1)); }
    inline bool chance(unsigned percent) { return rnd(100) >= 100 - percent; } // shrinks to false
    inline bool flip() { return rnd(2) == 1; }

    // ---- faults ----
    // Registered fault kinds; a kind is enabled for a run by the swarm configuration.
    bool fault(char const* kind, unsigned permille);       // true: the fault fires here (counted, recorded)
    std::uint64_t fault_value(char const* kind, std::uint64_t n); // a value in [0,n) attached to a fault, 0 by default
    void enable_fault(char const* kind, unsigned percentOfRuns = 50); // called at scenario start: swarm on/off per run
    void disable_fault(char const* kind);
    bool fault_enabled(char const* kind);
    void set_faults(bool on);                              // global switch (e.g. "faults stop now")
    std::uint64_t fault_count(char const* kind);

    // ---- time ----
    std::int64_t now();                                    // simulated monotonic ns
    void sleep_ns(std::int64_t ns);
    void jump(std::int64_t ns);                            // move the monotonic clock forward
    void set_time_limit(std::int64_t nsFromNow);           // scenario must finish within this simulated time
    void set_step_limit(std::uint64_t steps);
    constexpr std::int64_t us = 1000, ms = 1000000, sec = 1000000000;

    // ---- scheduling ----
    void yield();                                          // a scheduling point
    std::uint64_t seq();                                   // global event sequence number (unique, increasing)
    int self();                                            // simulated thread id
    int threads_alive();                                   // simulated threads not finished
    void block_on(void* obj, std::int64_t deadlineNs = -1); // used by simulated devices
    void wake_all(void* obj);
    void thread_faults(bool on);                           // thread creation by this thread may fail (kind thread_create_failure)
    unsigned cpus();
    void set_cpus(unsigned n);                              // what hardware_concurrency() reports from now on

    // ---- oracle ----
    void log(char const* fmt, ...) __attribute__((format(printf, 1, 2)));   // event log: part of the run hash
    [[noreturn]] void fail(char const* cls, char const* fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void skip(char const* why);               // run is not usable (counted, not a pass)
    void probe(char const* name);                          // "this rare condition was reached" counter
    void state(std::uint64_t h);                           // adds an abstract state to the run's signature
    void races(bool on);                                   // data race detection on/off (default on)

    struct quiet                                           // bookkeeping section: no scheduling, no instrumentation
    {
        quiet(); ~quiet();
        quiet(quiet const&) = delete;
        int saved;
    };

    struct no_sched                                        // instrumented but not preempted
    {
        no_sched(); ~no_sched();
    };

    // ---- memory ----
    std::uint64_t live_blocks();                           // live application heap blocks
    std::uint64_t live_bytes();
    struct alloc_faults                                    // allocation failures may be injected in this scope (this thread)
    {
        explicit alloc_faults(unsigned permille = 20); ~alloc_faults();
        unsigned saved;
    };
    void alloc_fail_at(std::int64_t nth);                  // fail the nth allocation from now on this thread (1 = next); <=0 off
    bool alloc_fail_fired();
    bool is_heap(void const* p);
    bool is_freed(void const* p);

    // ---- scenario registration ----
    using scenario_fn = void (*)();
    struct registrar { registrar(char const* name, scenario_fn fn); };
#define SIM_SCENARIO(name) static void name(); static ::sim::registrar reg_##name{ #name, &name }; static void name()
#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) ::sim::fail(cls, __VA_ARGS__); } while (0)
}
