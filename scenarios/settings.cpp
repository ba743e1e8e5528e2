// C15: settings and file utilities over a disk that crashes and fails
#include <neolib/neolib.hpp>
#include <neolib/core/service.hpp>
#include <neolib/app/settings.hpp>
#include <neolib/file/file.hpp>
#include <filesystem>
#include <variant>
#include "common.hpp"
#include "../simrt/simfs.h"

namespace
{
    using value = std::variant<bool, std::int32_t, std::int64_t, std::uint8_t, double, std::string>;
    struct kind { char const* key; value dflt; };
    kind const kinds[] = { { "editor.font", std::string("mono") }, { "editor.font.size", 12 }, { "editor.wrap", true }, { "editor", std::int64_t(1) }, { "view.zoom", 1.0 }, { "view.theme.name", std::string("") }, { "count", std::int64_t(-1) }, { "byte", std::uint8_t('A') }, { "last", 0 } };
    constexpr int N = 9;
    using state = std::map<int, value>;
    std::string text()
    {
        static char const* const bits[] = { "a", "Z", " ", "<", ">", "&", "\"", "'", "\n", "\t", "\r", "\xc3\xa9", "&amp;", "]]>", "=", "/", ";", "#", "  ", "x y", "\\", "&#10;" };
        std::string s; for (int n = (int)sim::rnd(7); n-- > 0;) s += bits[sim::rnd(22)]; return s;
    }
    value some_value(int i)
    {
        return std::visit([](auto const& d) -> value
        {
            using T = std::decay_t<decltype(d)>;
            if constexpr (std::is_same_v<T, std::string>) return text();
            else if constexpr (std::is_same_v<T, bool>) return sim::flip();
            else if constexpr (std::is_same_v<T, std::uint8_t>) return (std::uint8_t)(1 + sim::rnd(255));
            else if constexpr (std::is_same_v<T, double>) { static double const v[] = { 0, 1, 0.1, 1.0 / 3, 1e10, 123456789.123, 1e-7, -2.5, 1e300, 5e-324, 100000, 1234567 }; return sim::chance(30) ? (double)sim::range(-1000000, 1000000) / 7 : v[sim::rnd(12)]; }
            else { static T const v[] = { 0, 1, -1, 42, std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), 1000000 }; return v[sim::rnd(7)]; }
        }, kinds[i].dflt);
    }
    neolib::i_setting& add(neolib::settings& s, int i)
    {
        neolib::i_settings& is = s; neolib::string const key{ kinds[i].key };
        return std::visit([&](auto const& d) -> neolib::i_setting& { using T = std::decay_t<decltype(d)>; if constexpr (std::is_same_v<T, std::string>) return is.register_setting<neolib::string>(key, neolib::string{ d }); else return is.register_setting<T>(key, d); }, kinds[i].dflt);
    }
    void set(neolib::settings& s, neolib::i_setting& x, value const& v, bool apply)
    {
        neolib::i_settings& is = s;
        std::visit([&](auto const& d) { using T = std::decay_t<decltype(d)>; if constexpr (std::is_same_v<T, std::string>) is.change_setting(x, static_cast<neolib::i_setting_value const&>(neolib::setting_value<neolib::string>{ neolib::string{ d } }), apply); else is.change_setting(x, static_cast<neolib::i_setting_value const&>(neolib::setting_value<T>{ d }), apply); }, v);
    }
    value get(neolib::i_setting const& x, int i)
    {
        return std::visit([&](auto const& d) -> value { using T = std::decay_t<decltype(d)>; if constexpr (std::is_same_v<T, std::string>) return x.value<neolib::string>().to_std_string(); else return x.value<T>(); }, kinds[i].dflt);
    }
    std::string show(value const& v) { return std::visit([](auto const& d) -> std::string { using T = std::decay_t<decltype(d)>; if constexpr (std::is_same_v<T, std::string>) { std::string r; for (char c : d) { char b[8]; if (c > 31) r += c; else { snprintf(b, 8, "\\x%02x", (unsigned char)c); r += b; } } return "'" + r + "'"; } else { char b[64]; snprintf(b, 64, "%.17g", (double)d); return b; } }, v); }
    state defaults(std::vector<int> const& who) { state m; for (int i : who) m[i] = kinds[i].dflt; return m; }
    state load(std::vector<int> const& who)
    {
        auto s = neolib::make_ref<neolib::settings>(neolib::string{ "/sim/settings.xml" }); state m;
        for (int i : who) m[i] = get(add(*s, i), i);
        return m;
    }
    std::string diff(state const& a, state const& b) { for (auto const& e : a) { auto j = b.find(e.first); if (j == b.end() || j->second != e.second) return std::string(kinds[e.first].key) + " is " + show(e.second) + " instead of " + (j == b.end() ? "?" : show(j->second)); } return "same"; }
}

SIM_SCENARIO(settings_saves)
{
    sim::enable_fault("alloc_failure", 20); for (auto k : { "short_write", "interrupted", "torn_write" }) sim::enable_fault(k, 50); for (auto k : { "open_error", "write_error", "disk_full", "close_error", "rename_error", "unlink_error" }) sim::enable_fault(k, 20);
    sim::enable_fault("short_read", 30);
    neolib::allocate_service_provider();
    std::vector<int> who; for (int i = 0; i < N; ++i) if (!sim::chance(40)) who.push_back(i); if (who.empty()) who.push_back(0);
    state committed = defaults(who), applied = committed, pending; bool diskHasBoth = false; state alt;
    bool const faults = sim::chance(60); if (sim::chance(50)) sim::fs::crash_at(1 + sim::rnd(25));
    int const sessions = 1 + (int)sim::rnd(3);
    for (int ses = 0; ses < sessions; ++ses)
    {
        {
            sim::fs::faults ff(0); 
            state const now = load(who);
            SIM_CHECK(now == committed || (diskHasBoth && now == alt), "lost", "a load finds neither the saved values nor the ones being saved: %s", diff(now, committed).c_str());
            if (diskHasBoth && now == alt) committed = alt; diskHasBoth = false;
        }
        auto s = neolib::make_ref<neolib::settings>(neolib::string{ "/sim/settings.xml" }); std::map<int, neolib::i_setting*> x; applied = committed; pending.clear();
        for (int i : who) x[i] = &add(*s, i);
        for (int n = 1 + (int)sim::rnd(6); n-- > 0;)
        {
            unsigned const op = (unsigned)sim::rnd(7); int const i = who[sim::rnd(who.size())]; state next = applied; bool saves = false, threw = false; value const v = some_value(i); bool const wasCrashed = sim::fs::crashed();
            auto const f0 = sim::fs::failures();
            try
            {
                sim::fs::faults ff(faults ? 60 : 0); sim::alloc_faults af(0);
                switch (op)
                {
                case 0: case 1: case 2: next[i] = v; pending.erase(i); saves = true; set(*s, *x[i], v, true); break;
                case 3: { set(*s, *x[i], v, false); if (v == applied[i]) pending.erase(i); else pending[i] = v; break; }
                case 4: saves = s->modified(); for (auto const& p : pending) next[p.first] = p.second; pending.clear(); s->apply_changes(); break;
                case 5: saves = true; s->save(); break;
                case 6: next[i] = kinds[i].dflt; pending.erase(i); saves = true; sim::probe("deleted"); { auto* const gone = x[i]; x.erase(i); s->delete_setting(*gone); } break;
                }
            }
            catch (neolib::i_settings::settings_not_saved&) { threw = true; sim::probe("save_failed"); }
            applied = next;
            if (sim::fs::crashed() && !wasCrashed)
            {
                state const old = committed; sim::fs::restart(); sim::probe("crash_during_save");
                state const now = load(who); SIM_CHECK(now == old || now == next, "torn", "after a crash during a save a load finds neither the old nor the new values: %s", diff(now, old).c_str());
                return;
            }
            if (threw) { SIM_CHECK(sim::fs::failures() > f0, "save-refused", "a save failed on a healthy disk"); SIM_CHECK(saves, "save-refused", "a save that was not asked for"); diskHasBoth = true; alt = next; }
            else if (saves) { SIM_CHECK(sim::fs::failures() == f0 || true, "", ""); committed = next; diskHasBoth = false; sim::probe("saved"); }
            if (op == 6 && threw) break; // what was deleted and not saved may come back
            if (op == 6) { sim::alloc_faults af(0); x[i] = &add(*s, i); }
            for (int k : who) { value const g = get(*x[k], k); SIM_CHECK(g == applied[k], "wrong-value", "%s is %s instead of %s", kinds[k].key, show(g).c_str(), show(applied[k]).c_str()); }
            if (diskHasBoth || sim::chance(50))
            {
                state const now = load(who);
                SIM_CHECK(now == committed || (diskHasBoth && now == alt), diskHasBoth ? "torn" : "lost", "%s, a load finds: %s", diskHasBoth ? "after a save that failed" : "after a save that succeeded", diff(now, committed).c_str());
                if (diskHasBoth && now == alt) committed = alt; diskHasBoth = false;
            }
        }
    }
    SIM_CHECK(sim::fs::open_handles() == 0, "handle-leak", "%d files left open", sim::fs::open_handles());
}

SIM_SCENARIO(file_moves)
{
    for (auto k : { "open_error", "write_error", "rename_error", "mkdir_error", "stat_error", "interrupted" }) sim::enable_fault(k, 30);
    std::map<std::string, std::string> disk; bool const rel = sim::chance(30); sim::fs::relative(rel);
    auto name = [&](unsigned i) { static char const* const n[] = { "a", "b", "d/a", "d/e/b", "f/c", "\xc3\xa9", "d" }; return std::string(n[i]); };
    auto path = [&](std::string const& n) { return rel ? n : "/sim/" + n; };
    for (unsigned i = 0; i < 6; ++i) if (sim::chance(40)) { std::string b = "content " + std::to_string(i) + std::string(sim::rnd(100), 'x'); sim::fs::put("/sim/" + name(i), b); disk[name(i)] = b; }
    bool const faults = sim::chance(60);
    if (sim::chance(40)) sim::fs::crash_at(1 + sim::rnd(6));
    auto same = [&](std::map<std::string, std::string> const& m) { auto l = sim::fs::list(); if (l.size() != m.size()) return false; for (auto const& e : m) { std::string b; if (!sim::fs::get("/sim/" + e.first, b) || b != e.second) return false; } return true; };
    for (int n = 1 + (int)sim::rnd(8); n-- > 0;)
    {
        std::string const a = name((unsigned)sim::rnd(7)), b = name((unsigned)sim::rnd(7)); auto next = disk; auto const f0 = sim::fs::failures(); bool ok = false, reported = false; unsigned const op = (unsigned)sim::rnd(5);
        bool const aFile = disk.count(a), aDir = sim::fs::is_dir("/sim/" + a), bDir = sim::fs::is_dir("/sim/" + b); std::string const bp = b.find('/') == std::string::npos ? "" : b.substr(0, b.rfind('/')); bool blocked = false; for (std::string q = bp; !q.empty(); q = q.find('/') == std::string::npos ? "" : q.substr(0, q.rfind('/'))) blocked |= disk.count(q) > 0;
        if (aDir && op == 0) continue; // moving directories is not simulated
        try
        {
            sim::fs::faults ff(faults ? 80 : 0);
            switch (op)
            {
            case 0: case 1: case 2: if (aDir) continue; if (aFile && a != b) { next.erase(a); next[b] = disk[a]; } ok = neolib::move_file(path(a), path(b)); break;
            case 3: if (!aDir && !next.count(a)) next[a] = ""; neolib::create_file(path(a)); ok = !aDir; break;
            case 4: { neolib::simple_file f{ path(a), "rb" }; SIM_CHECK(f.valid() == (f.error() == 0), "error", "valid() is %d and error() is %d", (int)f.valid(), f.error()); if (f.valid() && aFile) { std::string got(disk[a].size() + 1, 0); std::size_t k = fread(&got[0], 1, got.size(), f); got.resize(k); SIM_CHECK(got == disk[a] || sim::fs::failures() > f0 || ferror(f), "wrong-content", "read %zu bytes of %zu", k, disk[a].size()); } SIM_CHECK(!f.valid() || aFile || aDir, "error", "a missing file was opened"); SIM_CHECK(f.valid() || !aFile || sim::fs::failures() > f0, "error", "a file could not be opened"); break; }
            }
        }
        catch (std::filesystem::filesystem_error&) { reported = true; }
        if (sim::fs::crashed()) { sim::fs::restart(); sim::probe("crash"); SIM_CHECK(same(disk) || same(next), "torn", "after a crash during %s the disk holds neither the old nor the new files", op < 3 ? "move_file()" : "create_file()"); return; }
        bool const healthy = sim::fs::failures() == f0; bool const possible = op < 3 ? aFile && !bDir && !blocked : op == 3;
        if (op < 3)
        {
            if (ok) { SIM_CHECK(same(next) && aFile, "not-moved", "move_file(%s, %s) reports success and the files are not as they should be", a.c_str(), b.c_str()); sim::probe("moved"); disk = next; }
            else { SIM_CHECK(same(disk), "lost", "move_file(%s, %s) failed and changed the files", a.c_str(), b.c_str()); SIM_CHECK(!possible || !healthy, "move-refused", "move_file(%s, %s) failed on a healthy disk%s", a.c_str(), b.c_str(), reported ? " (threw)" : ""); sim::probe("move_reported"); }
        }
        else if (same(next)) disk = next;
        else SIM_CHECK(same(disk), "lost", "the files changed");
        if (healthy && op == 3) { bool const parentThere = a.find('/') == std::string::npos || sim::fs::is_dir("/sim/" + a.substr(0, a.rfind('/'))); if (parentThere && !aDir) SIM_CHECK(sim::fs::exists("/sim/" + a), "not-created", "create_file(%s) on a healthy disk made no file", a.c_str()); }
    }
    SIM_CHECK(sim::fs::open_handles() == 0, "handle-leak", "%d files left open", sim::fs::open_handles());
}
