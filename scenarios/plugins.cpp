// C26: plugins are offered exactly while their module is open; failures anywhere in loading leave the others as they were
#include <neolib/neolib.hpp>
#include <dlfcn.h> // renamed by the build: module loading is simulated
#include <neolib/core/service.hpp>
#include <neolib/app/application_info.hpp>
#include <neolib/app/i_application.hpp>
#include <neolib/plugin/plugin.hpp>
#include <neolib/plugin/plugin_manager.hpp>
#include <neolib/task/event.hpp>
#include "common.hpp"
#include "../simrt/simfs.h"

namespace
{
    enum class misbehaves { no, open_fails, no_entry, entry_gives_nothing, entry_throws, entry_throws_late, load_refused, load_throws, init_refused, init_throws, count };
    constexpr int kModules = 6;
    struct mod { char path[64]; int ident; misbehaves how; bool stubborn; int open; int alive, made, destroyed, loads, inits, unloads; int evLoaded, evInit, evUnloaded; };
    mod* sMods; int sFailures; int sCalls; bool sArmed;
    void called(int m, char const* what) { sim::quiet q; ++sCalls; SIM_CHECK(sMods[m].open > 0, "unloaded-code", "%s of plugin %d was called though its module is closed", what, m); }

    neolib::uuid ident(int i) { neolib::uuid u{}; std::memset(&u, 0, sizeof u); ((unsigned char*)&u)[3] = (unsigned char)(i + 1); return u; }
    neolib::uuid iid(int i) { neolib::uuid u{}; std::memset(&u, 0, sizeof u); ((unsigned char*)&u)[5] = (unsigned char)(i + 1); return u; }
    struct no_faults { sim::alloc_faults a{ 0 }; };

    class test_plugin : public neolib::plugin<>
    {
    public:
        test_plugin(int m) : m{ m }, iId{ ident(sMods[m].ident) } { called(m, "the constructor"); ++sMods[m].alive; ++sMods[m].made; }
        ~test_plugin() { called(m, "the destructor"); --sMods[m].alive; ++sMods[m].destroyed; m = -1; }
        bool discover(neolib::uuid const& i, void*& r) override { called(m, "discover()"); if (i != iid(m)) return false; r = this; return true; }
        neolib::uuid const& id() const override { called(m, "id()"); return iId; }
        neolib::i_string const& name() const override { called(m, "name()"); return iName; }
        neolib::i_string const& description() const override { called(m, "description()"); return iName; }
        neolib::i_version const& version() const override { called(m, "version()"); return iVersion; }
        neolib::i_string const& copyright() const override { called(m, "copyright()"); return iName; }
        bool load() override { called(m, "load()"); ++sMods[m].loads; if (sMods[m].how == misbehaves::load_throws) throw std::runtime_error("load"); if (sMods[m].how == misbehaves::load_refused) return false; return neolib::plugin<>::load(); }
        bool initialize() override { called(m, "initialize()"); ++sMods[m].inits; SIM_CHECK(loaded(), "wrong-order", "plugin %d was initialised before being loaded", m); SIM_CHECK(!initialized(), "wrong-order", "plugin %d was initialised twice", m); if (sMods[m].how == misbehaves::init_throws) throw std::runtime_error("init"); if (sMods[m].how == misbehaves::init_refused) return false; return neolib::plugin<>::initialize(); }
        bool unload() override { called(m, "unload()"); ++sMods[m].unloads; SIM_CHECK(loaded(), "wrong-order", "plugin %d was unloaded without being loaded", m); if (sMods[m].stubborn) return false; return neolib::plugin<>::unload(); }
        bool open_uri(neolib::i_string const& u) override { called(m, "open_uri()"); return u.size() == (std::size_t)m + 1; }
        int m;
    private:
        neolib::uuid iId; neolib::string iName{ "test plugin" }; neolib::version iVersion;
    };
    int module_of(neolib::i_plugin const& p) { return static_cast<test_plugin const&>(p).m; }

    template <int M> void entry(neolib::i_application&, neolib::i_string const&, neolib::i_ref_ptr<neolib::i_plugin>& r)
    {
        called(M, "entry_point");
        switch (sMods[M].how) { case misbehaves::entry_gives_nothing: return; case misbehaves::entry_throws: throw std::runtime_error("entry"); default: break; }
        r = neolib::make_ref<test_plugin>(M);
        if (sMods[M].how == misbehaves::entry_throws_late) throw std::runtime_error("entry");
    }
    using entry_fn = void (*)(neolib::i_application&, neolib::i_string const&, neolib::i_ref_ptr<neolib::i_plugin>&);
    entry_fn const kEntries[kModules] = { entry<0>, entry<1>, entry<2>, entry<3>, entry<4>, entry<5> };
    int sOpens, sOpenFaults;
}

// the module loader
extern "C"
{
    void* dlopen(char const* path, int) noexcept
    {
        sim::yield(); sim::quiet q; ++sOpens;
        for (int m = 0; m < kModules; ++m) if (!strcmp(path, sMods[m].path))
        {
            if (sMods[m].how == misbehaves::open_fails) return nullptr;
            if (sArmed && sim::fault("dlopen_failure", 60)) { ++sOpenFaults; return nullptr; }
            ++sMods[m].open; return &sMods[m];
        }
        return nullptr;
    }
    void* dlsym(void* h, char const* name) noexcept { sim::quiet q; mod& m = *(mod*)h; SIM_CHECK(m.open > 0, "bad-handle", "a closed module was searched"); if (strcmp(name, "entry_point") || m.how == misbehaves::no_entry) return nullptr; return (void*)kEntries[&m - sMods]; }
    int dlclose(void* h) noexcept { sim::yield(); sim::quiet q; mod& m = *(mod*)h; SIM_CHECK(m.open > 0, "bad-handle", "module %d was closed too often", (int)(&m - sMods)); --m.open; if (!m.open) SIM_CHECK(m.alive == 0, "unloaded-code", "module %d was closed while its plugin exists", (int)(&m - sMods)); return 0; }
    char* dlerror() noexcept { static char e[] = "cannot open shared object file"; return e; }
}

namespace
{
    struct app : neolib::reference_counted<neolib::i_application>
    {
        neolib::application_info iInfo{ "app", "", neolib::version{}, "", "/sim/app", "/sim/app", "/sim/app", ".plg" }; neolib::i_plugin_manager* iManager = nullptr;
        bool discover(neolib::uuid const&, void*&) override { return false; }
        neolib::i_service_provider& service_provider() const override { std::abort(); }
        neolib::i_application_info const& info() const override { return iInfo; }
        neolib::i_plugin_manager& plugin_manager() override { return *iManager; }
    };
    struct offer { int m; bool init; bool operator==(offer const&) const = default; };
    using offers = std::vector<offer>;
    std::string show(offers const& o) { std::string r; for (auto& x : o) r += (r.empty() ? "" : ",") + std::to_string(x.m) + (x.init ? "" : "?"); return "[" + r + "]"; }
}

SIM_SCENARIO(plugins)
{
    sim::enable_fault("dlopen_failure"); sim::enable_fault("alloc_failure"); for (auto k : { "open_error", "readdir_error", "stat_error" }) sim::enable_fault(k, 30);
    neolib::allocate_service_provider(); neolib::async_event_queue::instance();
    { sim::quiet q; sMods = new mod[kModules]{}; sFailures = sCalls = sOpens = sOpenFaults = 0; sArmed = false; }
    bool const mixed = sim::chance(70);
    for (int m = 0; m < kModules; ++m)
    {
        mod& x = sMods[m]; char const* const dirs[] = { "/sim/app/", "/sim/app/plugins/", "/sim/app/plugins/deep/", "/sim/other/" };
        snprintf(x.path, sizeof x.path, "%sm%d.plg", dirs[sim::rnd(4)], m); x.ident = mixed && m && sim::chance(20) ? (int)sim::rnd(m) : m;
        x.how = mixed && sim::chance(40) ? (misbehaves)(1 + sim::rnd((int)misbehaves::count - 1)) : misbehaves::no; x.stubborn = mixed && sim::chance(8);
        sim::fs::put(x.path, "module"); sim::log("module %d %s ident %d how %d stubborn %d", m, x.path, x.ident, (int)x.how, x.stubborn);
    }
    sim::fs::put("/sim/app/plugins/readme.txt", "no plugin"); sim::fs::put("/sim/other/also.plgx", "no plugin");
    auto application = std::make_unique<app>(); bool const keepModules = sim::chance(8);
    {
        auto manager = std::make_unique<neolib::plugin_manager>(*application); application->iManager = &*manager; neolib::plugin_manager& pm = *manager;
        bool const other = sim::flip(), odd = sim::chance(40); char const* const oddities[] = { "/sim/absent", "/sim/app/plugins/readme.txt", "/sim/app", "/sim/app/plugins" };
        pm.plugin_folders().clear(); if (odd && sim::flip()) pm.plugin_folders().push_back(neolib::string{ oddities[sim::rnd(2)] }); pm.plugin_folders().push_back(neolib::string{ "/sim/app" }); if (odd) pm.plugin_folders().push_back(neolib::string{ oddities[sim::rnd(4)] }); if (other) pm.plugin_folders().push_back(neolib::string{ "/sim/other" });
        if (keepModules) pm.debug_dont_unload_modules();
        offers model;
        auto is_offered = [&](neolib::i_plugin const& p) { for (auto& o : pm.plugins()) if (o.ptr() == &p) return true; return false; };
        neolib::sink sink;
        sink += pm.PluginLoaded([&](neolib::i_plugin& p) { ++sMods[module_of(p)].evLoaded; SIM_CHECK(p.loaded(), "wrong-event", "a plugin not loaded was announced as loaded"); SIM_CHECK(is_offered(p), "wrong-event", "a plugin was announced that is not offered"); });
        sink += pm.PluginInitialized([&](neolib::i_plugin& p) { ++sMods[module_of(p)].evInit; SIM_CHECK(p.initialized(), "wrong-event", "a plugin not initialised was announced as initialised"); });
        sink += pm.PluginUnloaded([&](neolib::i_plugin& p) { ++sMods[module_of(p)].evUnloaded; SIM_CHECK(!p.loaded(), "wrong-event", "a loaded plugin was announced as unloaded"); });
        sink += pm.PluginLoadFailure([&](neolib::i_string const&) { ++sFailures; });
        auto offered = [&] { no_faults nf; offers r; for (auto& p : pm.plugins()) { SIM_CHECK(p->loaded(), "wrong-offer", "a plugin that is not loaded is offered"); r.push_back({ module_of(*p), p->initialized() }); } return r; };
        auto has = [&](int ident) { for (auto& o : model) if (sMods[o.m].ident == ident) return true; return false; };
        auto gone = [&](int m) { model.erase(std::find_if(model.begin(), model.end(), [&](auto& o) { return o.m == m; })); };
        int const ops = 1 + (int)sim::rnd(25);
        for (int o = 0; o < ops; ++o)
        {
            unsigned const op = (unsigned)sim::rnd(12); int const m = (int)sim::rnd(kModules); mod& x = sMods[m]; offers const before = model; mod was[kModules]; std::memcpy(was, sMods, sizeof was); int const fails = sFailures, faults = sOpenFaults;
            bool const arm = sim::chance(40), armDisk = arm && sim::flip(); sim::log("op %u module %d, offered %s", op, m, show(model).c_str()); sim::state(op * 100 + model.size() * 10 + (int)x.how);
            bool const was_in = std::any_of(model.begin(), model.end(), [&](auto& o) { return o.m == m; });
            switch (op)
            {
            case 0: case 1: case 2: case 3:
            {
                bool const defer = sim::flip(), ident_taken = has(x.ident), loads = x.how == misbehaves::no || x.how >= misbehaves::init_refused, inits = x.how == misbehaves::no; bool ok = false, threw = false; sArmed = arm;
                // what fails to initialise is unloaded: telling of that may not fail as well here
                try { std::optional<sim::alloc_faults> af; if (arm && (defer || inits)) af.emplace(30); ok = pm.load_plugin(neolib::string{ x.path }, defer); } catch (std::bad_alloc const&) { threw = true; }
                sArmed = false; bool const faulty = threw || sOpenFaults != faults || sim::alloc_fail_fired() || arm && sim::fault_count("alloc_failure");
                if (ok) { SIM_CHECK(!ident_taken && loads && (defer || inits), "wrong-offer", "loading module %d succeeded though it cannot", m); model.push_back({ m, !defer }); SIM_CHECK(x.evLoaded == was[m].evLoaded + 1 && x.evInit == was[m].evInit + !defer && x.evUnloaded == was[m].evUnloaded && sFailures == fails, "wrong-event", "loading module %d was announced wrongly", m); }
                else
                {
                    if (!faulty) SIM_CHECK(ident_taken || !loads || !defer && !inits, "not-loaded", "loading module %d failed for no reason", m);
                    if (!faulty) SIM_CHECK(sFailures == fails + 1, "wrong-event", "the failure to load module %d was announced %d times", m, sFailures - fails);
                    if (x.stubborn && x.unloads > was[m].unloads) { auto now = offered(); if (now.size() == model.size() + 1) model.push_back({ m, now.back().init }); } // it may insist on staying
                }
            } break;
            case 4: case 5:
            {
                bool completed = false; sArmed = arm; int const failed0 = (int)sim::fs::failures();
                try { std::optional<sim::fs::faults> ff; if (armDisk) ff.emplace(30); pm.load_plugins(); completed = true; } catch (std::filesystem::filesystem_error const& e) { sim::log("%s", e.what()); } sArmed = false;
                bool const disk = (int)sim::fs::failures() != failed0; SIM_CHECK(completed || disk, "unexpected-exception", "scanning threw for no reason"); offers const now = offered();
                // every good module is offered and initialised now, under each identity one
                for (auto& b : before) { bool const stays = std::any_of(now.begin(), now.end(), [&](auto& n) { return n.m == b.m && (n.init || !b.init); }); SIM_CHECK(stays || !b.init && sMods[b.m].how != misbehaves::no, "lost", "scanning lost plugin %d", b.m); }
                for (auto& n : now) { SIM_CHECK(std::any_of(before.begin(), before.end(), [&](auto& b) { return b.m == n.m; }) || sMods[n.m].how == misbehaves::no || sMods[n.m].how >= misbehaves::init_refused, "wrong-offer", "plugin %d is offered though it cannot load", n.m); if (completed) SIM_CHECK(n.init == (sMods[n.m].how == misbehaves::no), "not-initialised", "after scanning plugin %d is %s initialised", n.m, n.init ? "wrongly" : "not"); if (!n.init && completed) SIM_CHECK(sMods[n.m].stubborn, "wrong-offer", "plugin %d is offered though it cannot be initialised", n.m); }
                if (completed && !disk && sOpenFaults == faults) for (int k = 0; k < kModules; ++k) if (sMods[k].how == misbehaves::no && (other || strncmp(sMods[k].path, "/sim/other", 10)))
                    SIM_CHECK(std::any_of(now.begin(), now.end(), [&](auto& n) { return sMods[n.m].ident == sMods[k].ident; }) || std::any_of(sMods, sMods + kModules, [&](mod& y) { return &y != &sMods[k] && y.ident == sMods[k].ident; }), "not-loaded", "scanning did not load module %d", k);
                model = now;
            } break;
            case 6: if (was_in) { for (auto& p : pm.plugins()) if (module_of(*p) == m) { bool ok = pm.unload_plugin(*p); SIM_CHECK(ok == !x.stubborn, "wrong-answer", "unloading plugin %d answered wrongly", m); break; } if (!x.stubborn) { gone(m); SIM_CHECK(x.evUnloaded == was[m].evUnloaded + 1, "wrong-event", "unloading plugin %d was not announced once", m); } } break;
            case 7: if (was_in) for (auto& p : pm.plugins()) if (module_of(*p) == m && !p->initialized())
                {
                    bool ok = false, threw = false; try { ok = pm.initialize_plugin(*p); } catch (std::runtime_error const&) { threw = true; }
                    SIM_CHECK(ok == (x.how == misbehaves::no) && threw == (x.how == misbehaves::init_throws), "wrong-answer", "initialising plugin %d answered wrongly", m); auto i = std::find_if(model.begin(), model.end(), [&](auto& o) { return o.m == m; }); if (ok) { i->init = true; SIM_CHECK(x.evInit == was[m].evInit + 1, "wrong-event", "initialising plugin %d was not announced once", m); } else if (!x.stubborn) model.erase(i); break;
                } break;
            case 8: if (sim::chance(30)) { pm.unload_plugins(); std::erase_if(model, [](auto& o) { return !sMods[o.m].stubborn; }); } break;
            case 9: { auto const& f = pm.find_plugin(ident(x.ident)); bool const in = has(x.ident); SIM_CHECK((f != nullptr) == in, "wrong-find", "finding plugin %d gives %s", m, in ? "nothing" : "something"); if (in) SIM_CHECK(sMods[module_of(*f)].ident == x.ident, "wrong-find", "finding plugin %d gives another", m); } break;
            case 10: { void* r = nullptr; bool const ok = pm.discover(iid(m), r); SIM_CHECK(ok == was_in && (r != nullptr) == ok, "wrong-find", "discovering plugin %d answers wrongly", m); SIM_CHECK(pm.open_uri(neolib::string(std::size_t(m + 1), 'u')) == was_in, "wrong-find", "opening an URI with plugin %d answers wrongly", m); } break;
            case 11: if (was_in) for (auto& p : pm.plugins()) if (module_of(*p) == m) { bool const e = sim::flip(); pm.enable_plugin(*p, e); SIM_CHECK(pm.plugin_enabled(*p) == e, "wrong-answer", "plugin %d was not %s", m, e ? "enabled" : "disabled"); } break;
            }
            offers const now = offered(); SIM_CHECK(now == model, "wrong-offer", "after operation %u on module %d the plugins offered are %s instead of %s", op, m, show(now).c_str(), show(model).c_str());
            for (int k = 0; k < kModules; ++k)
            {
                bool const in = std::any_of(now.begin(), now.end(), [&](auto& n) { return n.m == k; });
                SIM_CHECK(sMods[k].alive == (in ? 1 : 0), "leak", "%d plugins of module %d exist after operation %u, %s offered", sMods[k].alive, k, op, in ? "one is" : "none is");
                if (!keepModules) SIM_CHECK(sMods[k].open == (in ? 1 : 0), "leak", "module %d is open %d times after operation %u, its plugin %s offered", k, sMods[k].open, op, in ? "is" : "is not");
                SIM_CHECK(sMods[k].evLoaded - sMods[k].evUnloaded <= (in ? 1 : 0) || sMods[k].evLoaded == sMods[k].evUnloaded + (in ? 1 : 0) || sim::fault_count("alloc_failure"), "wrong-event", "plugin %d was announced as loaded %d and unloaded %d times", k, sMods[k].evLoaded, sMods[k].evUnloaded);
            }
            for (std::size_t a = 0; a < now.size(); ++a) for (std::size_t b = 0; b < a; ++b) SIM_CHECK(sMods[now[a].m].ident != sMods[now[b].m].ident, "duplicate", "two plugins of one identity are offered");
        }
    }
    for (int k = 0; k < kModules; ++k) { SIM_CHECK(sMods[k].alive == 0, "leak", "plugin %d outlives the manager", k); if (!keepModules) SIM_CHECK(sMods[k].open == 0, "leak", "module %d is still open", k); }
    SIM_CHECK(sim::fs::open_handles() == 0, "leak", "a directory is still open");
}

// module objects: what one says it has open is open, once, and is what its path names
SIM_SCENARIO(module_handles)
{
    sim::enable_fault("dlopen_failure"); sim::enable_fault("alloc_failure");
    { sim::quiet q; sMods = new mod[kModules]{}; sOpens = sOpenFaults = 0; sArmed = false; for (int m = 0; m < kModules; ++m) snprintf(sMods[m].path, sizeof sMods[m].path, m & 1 ? "/sim/modules/in/a/deeper/directory/m%d.plg" : "/m%d", m); }
    bool const bad = sim::chance(50); for (int m = 0; m < kModules; ++m) { sMods[m].how = bad && sim::chance(30) ? misbehaves::open_fails : misbehaves::no; }
    struct expected { int path = -1; bool open = false; bool operator==(expected const&) const = default; }; constexpr int kSlots = 4;
    int released[kModules] = {};
    {
        std::optional<neolib::module> slots[kSlots]; std::optional<expected> model[kSlots];
        auto observe = [&](int s) { expected e; auto const& p = slots[s]->path(); for (int m = 0; m < kModules; ++m) if (p == sMods[m].path) e.path = m; SIM_CHECK(e.path >= 0 || p.empty(), "wrong-path", "module object %d has a path never given", s); e.open = slots[s]->loaded(); return e; };
        int const ops = 1 + (int)sim::rnd(30);
        for (int o = 0; o < ops; ++o)
        {
            unsigned const op = (unsigned)sim::rnd(9); int const s = (int)sim::rnd(kSlots), t = (int)sim::rnd(kSlots), m = (int)sim::rnd(kModules); sArmed = sim::chance(30); bool const arm = sArmed && sim::flip(); bool failed = false;
            auto const was = model[s], other = model[t]; std::optional<expected> wish = was, left = other; bool const can = m >= 0 && sMods[m].how == misbehaves::no; bool answer = true, expectAnswer = true;
            sim::log("op %u slot %d other %d module %d", op, s, t, m); sim::state(op * 16 + (was ? 1 + was->open : 0) * 4 + (other ? 1 + other->open : 0));
            { no_faults nf; if (op < 2) { slots[s].reset(); model[s].reset(); } else if (op == 2 || op == 3) { if (s == t || !other) continue; slots[s].reset(); model[s].reset(); } else if (op == 4 || op == 5) { if (!was || !other || op == 5 && s == t) continue; } else if (!was) continue; }
            try
            {
                std::optional<sim::alloc_faults> af; if (arm) af.emplace(30);
                switch (op)
                {
                case 0: slots[s].emplace(); wish = expected{}; break;
                case 1: { wish = expected{ m, true }; slots[s].emplace(std::string{ sMods[m].path }); SIM_CHECK(can, "wrong-answer", "a module that cannot be opened was"); } break;
                case 2: wish = other; slots[s].emplace(*slots[t]); break;
                case 3: wish = other; left = std::nullopt; slots[s].emplace(std::move(*slots[t])); break;
                case 4: wish = other; *slots[s] = *slots[t]; break;
                case 5: wish = other; left = std::nullopt; *slots[s] = std::move(*slots[t]); break;
                case 6: expectAnswer = was->path >= 0; wish = expected{ was->path, was->path >= 0 }; answer = slots[s]->load(); break;
                case 7: wish = expected{ was->path, false }; slots[s]->unload(); break;
                case 8:
                    if (sim::chance(20)) { { no_faults nf; if (was->open) ++released[was->path]; } wish = expected{ was->path, false }; (void)slots[s]->release(); }
                    else { auto const p = slots[s]->procedure_address("entry_point"); SIM_CHECK(p == (was->open ? (void*)kEntries[was->path] : nullptr), "wrong-module", "a procedure of another module was found"); SIM_CHECK(!slots[s]->procedure_address("none"), "wrong-module", "a procedure was found that is not there"); }
                    break;
                }
            }
            catch (std::bad_alloc const&) { failed = true; }
            catch (std::runtime_error const&) { failed = true; }
            sArmed = false;
            if (!failed) { SIM_CHECK(answer == expectAnswer, "wrong-answer", "loading answered wrongly"); model[s] = wish; if ((op == 3 || op == 5) && s != t) { SIM_CHECK(!slots[t]->loaded(), "wrong-answer", "a module moved from is still loaded"); model[t] = observe(t); } }
            else
            {
                bool const may = sim::fault_count("alloc_failure") || sim::fault_count("dlopen_failure") || wish && wish->path >= 0 && sMods[wish->path].how != misbehaves::no; SIM_CHECK(may, "unexpected-exception", "operation %u threw for no reason", op);
                if (slots[s]) { auto const now = observe(s); SIM_CHECK(now == was || now == wish || !now.open, "wrong-module", "after a failed operation %u a module is neither what it was nor what it should be", op); model[s] = now; }
                if ((op == 3 || op == 5) && slots[t]) model[t] = observe(t);
            }
            for (int k = 0; k < kSlots; ++k) { SIM_CHECK(!!slots[k] == !!model[k], "wrong-module", "?"); if (slots[k]) { auto const now = observe(k); SIM_CHECK(now == *model[k], "wrong-module", "after operation %u module object %d has path %d (%s) instead of %d (%s)", op, k, now.path, now.open ? "open" : "closed", model[k]->path, model[k]->open ? "open" : "closed"); if (now.open) { no_faults nf; SIM_CHECK(slots[k]->procedure_address("entry_point") == (void*)kEntries[now.path], "wrong-module", "module object %d has another module open than its path says", k); } } }
            for (int k = 0; k < kModules; ++k) { int n = released[k]; for (auto& e : model) n += e && e->open && e->path == k; SIM_CHECK(sMods[k].open == n, "leak", "module %d is open %d times instead of %d after operation %u", k, sMods[k].open, n, op); }
        }
    }
    for (int k = 0; k < kModules; ++k) SIM_CHECK(sMods[k].open == released[k], "leak", "module %d is open %d times at the end instead of %d", k, sMods[k].open, released[k]);
}
