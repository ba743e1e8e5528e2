// C14: zip and gzip
#include <neolib/neolib.hpp>
#include <neolib/file/zip.hpp>
#include <neolib/file/gunzip.hpp>
#include <zlib.h>
#include <filesystem>
#include "common.hpp"
#include "../simrt/simfs.h"

namespace
{
    using bytes = std::string;
    void le(bytes& b, std::uint64_t v, int n) { for (int i = 0; i < n; ++i) b += (char)((v >> (8 * i)) & 0xFF); }
    bytes deflated(bytes const& d, int level)
    {
        z_stream s{}; deflateInit2(&s, level, Z_DEFLATED, -MAX_WBITS, 8, Z_DEFAULT_STRATEGY); bytes out(deflateBound(&s, d.size()) + 16, 0);
        s.next_in = (Bytef*)d.data(); s.avail_in = (uInt)d.size(); s.next_out = (Bytef*)out.data(); s.avail_out = (uInt)out.size(); deflate(&s, Z_FINISH); out.resize(s.total_out); deflateEnd(&s); return out;
    }
    std::uint32_t crc(bytes const& d) { return (std::uint32_t)::crc32(0, (Bytef const*)d.data(), (uInt)d.size()); }
    bytes content()
    {
        static std::size_t const sizes[] = { 0, 1, 7, 100, 1000, 5000, 40000 };
        std::size_t const n = sim::chance(4) ? 65530 + sim::rnd(70000) : sizes[sim::rnd(7)]; unsigned const kind = (unsigned)sim::rnd(4); std::uint32_t x = (std::uint32_t)sim::rnd(1000000) * 2654435761u + 1; bytes d; d.reserve(n);
        for (std::size_t i = 0; i < n; ++i) { x = x * 1664525 + 1013904223; d += kind == 0 ? (char)(x >> 24) : kind == 1 ? 'z' : kind == 2 ? "the quick brown fox "[(i + (x >> 30)) % 20] : (char)("ab"[x >> 31]); }
        return d;
    }
    std::size_t field_size() { return sim::chance(20) ? sim::rnd(40) : sim::chance(3) ? 65535 - sim::rnd(sim::flip() ? 3 : 33000) : 0; } // the longest a 16 bit length allows
    struct entry { bytes name, data; bool comp, streamed; };
    struct archive { bytes b; std::vector<entry> e; std::size_t dirAt; std::vector<std::size_t> fields; }; // fields: offsets of header fields worth damaging
    archive make_zip(bool nasty)
    {
        archive a; bytes dir; int const n = sim::chance(4) ? 5 + (int)sim::rnd(60) : (int)sim::rnd(5);
        for (int i = 0; i < n; ++i)
        {
            entry e; e.data = content(); e.comp = !sim::chance(30); e.streamed = e.comp && sim::chance(20);
            e.name = "f" + std::to_string(i) + "-" + std::to_string(sim::rnd(1000000) * 7919 % 1000003) + ".dat";
            if (nasty && sim::chance(30)) { static char const* const bad[] = { "../escape", "/sim/escape", "x/../../escape", "..", "sub/../../escape" }; e.name = bad[sim::rnd(5)] + std::to_string(i); if (sim::chance(20)) e.name = ".."; }
            bytes const z = e.comp ? deflated(e.data, 1 + (int)sim::rnd(9)) : e.data; std::uint32_t const c = crc(e.data);
            bytes const extra(field_size(), 'x'), dextra(field_size(), 'y'), comment(field_size(), 'c');
            std::size_t const at = a.b.size(); unsigned const flag = e.streamed ? 8 : 0;
            bytes& b = a.b; le(b, 0x04034b50, 4); le(b, 20, 2); le(b, flag, 2); a.fields.push_back(b.size()); le(b, e.comp ? 8 : 0, 2); le(b, 0, 4); a.fields.push_back(b.size()); le(b, e.streamed ? 0 : c, 4); a.fields.push_back(b.size()); le(b, e.streamed ? 0 : z.size(), 4); a.fields.push_back(b.size()); le(b, e.streamed ? 0 : e.data.size(), 4); a.fields.push_back(b.size()); le(b, e.name.size(), 2); a.fields.push_back(b.size()); le(b, extra.size(), 2); b += e.name; b += extra; b += z;
            if (e.streamed) { le(b, 0x08074b50, 4); le(b, c, 4); le(b, z.size(), 4); le(b, e.data.size(), 4); }
            bytes& d = dir; auto f = [&] { a.fields.push_back(0x40000000 + d.size()); };
            le(d, 0x02014b50, 4); le(d, 20, 2); le(d, 20, 2); le(d, flag, 2); f(); le(d, e.comp ? 8 : 0, 2); le(d, 0, 4); f(); le(d, c, 4); f(); le(d, z.size(), 4); f(); le(d, e.data.size(), 4); f(); le(d, e.name.size(), 2); f(); le(d, dextra.size(), 2); f(); le(d, comment.size(), 2); le(d, 0, 2); le(d, 0, 2); le(d, 0, 4); f(); le(d, at, 4); d += e.name; d += dextra; d += comment;
            a.e.push_back(e);
        }
        a.dirAt = a.b.size(); for (auto& f : a.fields) if (f >= 0x40000000) f = f - 0x40000000 + a.dirAt;
        a.b += dir; bytes& b = a.b; le(b, 0x06054b50, 4); le(b, 0, 4); a.fields.push_back(b.size()); le(b, a.e.size(), 2); a.fields.push_back(b.size()); le(b, a.e.size(), 2); a.fields.push_back(b.size()); le(b, dir.size(), 4); a.fields.push_back(b.size()); le(b, a.dirAt, 4); le(b, 0, 2);
        return a;
    }
    // -> lowest damaged offset, or npos
    std::size_t damage(bytes& b, std::vector<std::size_t> const& fields, bool& truncated)
    {
        truncated = false; if (b.empty()) return bytes::npos; bytes const before = b;
        switch (sim::rnd(7))
        {
        case 0: for (int k = 1 + (int)sim::rnd(3); k-- > 0;) b[sim::rnd(b.size())] ^= (char)(1 << sim::rnd(8)); break;
        case 1: b.resize(sim::rnd(b.size())); truncated = true; break;
        case 2: { std::size_t at = sim::rnd(b.size()), n = 1 + sim::rnd(std::min<std::size_t>(b.size() - at, 64)); b.erase(at, n); break; }
        case 3: b.insert(sim::rnd(b.size() + 1), bytes(1 + sim::rnd(32), (char)sim::rnd(256))); break;
        case 4: case 5: if (!fields.empty()) { std::size_t at = fields[sim::rnd(fields.size())]; static std::uint32_t const v[] = { 0, 1, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFF, 0x10000, 0xFFFFFF00 }; std::uint32_t x = sim::chance(50) ? v[sim::rnd(8)] : (std::uint32_t)(std::uint8_t)b[at] + (std::uint32_t)sim::rnd(64) - 32; unsigned n = sim::flip() ? 2 : 4; for (unsigned k = 0; k < n && at + k < b.size(); ++k) b[at + k] = (char)(x >> (8 * k)); } break;
        case 6: { std::size_t at = sim::rnd(b.size()), n = 1 + sim::rnd(std::min<std::size_t>(b.size() - at, 512)); for (std::size_t k = 0; k < n; ++k) b[at + k] = 0; break; }
        }
        for (std::size_t i = 0; i < std::min(b.size(), before.size()); ++i) if (b[i] != before[i]) return i;
        return b.size() != before.size() ? std::min(b.size(), before.size()) : bytes::npos;
    }
    std::unique_ptr<neolib::zip> open_zip(unsigned how, bytes const& b, std::vector<std::uint8_t>& keep)
    {
        neolib::zip::buffer_type v(b.begin(), b.end());
        switch (how)
        {
        case 0: return std::make_unique<neolib::zip>(std::string("/sim/in/a.zip"));
        case 1: { auto z = std::make_unique<neolib::zip>(v); for (auto& x : v) x = 0xEE; return z; } // the archive has its own copy
        case 2: return std::make_unique<neolib::zip>(std::move(v));
        default: keep = std::move(v); keep.shrink_to_fit(); return std::make_unique<neolib::zip>(keep.data(), keep.size());
        }
    }
}

SIM_SCENARIO(zip_files)
{
    sim::enable_fault("alloc_failure", 25); for (auto k : { "short_read", "short_write", "interrupted" }) sim::enable_fault(k, 40); for (auto k : { "read_error", "open_error", "write_error", "disk_full", "close_error", "stat_error" }) sim::enable_fault(k, 15);
    bool const nasty = sim::chance(15);
    archive const a = make_zip(nasty); bytes b = a.b; bool truncated = false; std::size_t const damagedFrom = sim::chance(65) ? damage(b, a.fields, truncated) : bytes::npos; bool const damaged = damagedFrom != bytes::npos;
    unsigned const how = (unsigned)sim::rnd(4); bool const faults = sim::chance(50); bool const badSector = sim::chance(15);
    sim::fs::put("/sim/in/a.zip", b); sim::fs::put("/sim/out/keep", "");
    if (badSector && how == 0 && !b.empty()) sim::fs::fail_reads_from("/sim/in/a.zip", sim::rnd(b.size()));
    auto const before = sim::live_blocks(); 
    {
        std::vector<std::uint8_t> keep; std::unique_ptr<neolib::zip> z; auto const f0 = sim::fs::failures(); bool opened = false, oom = false;
        try { sim::fs::faults ff(faults ? 60 : 0); sim::alloc_faults af(faults ? 8 : 0); z = open_zip(how, b, keep); opened = true; }
        catch (std::bad_alloc&) { oom = true; sim::probe("oom"); }
        catch (std::filesystem::filesystem_error&) { SIM_CHECK(sim::fs::failures() > f0, "open-failed", "opening a healthy file failed"); sim::probe("stat_failed"); }
        bool const healthyRead = sim::fs::failures() == f0;
        if (opened)
        {
            SIM_CHECK(healthyRead || !z->ok(), "unreadable-as-good", "the archive could not be read and ok() is true");
            if (!damaged && healthyRead) SIM_CHECK(z->ok() && z->file_count() == a.e.size(), "good-as-damaged", "a good archive of %zu files: ok %d, %zu files", a.e.size(), (int)z->ok(), z->file_count());
            if (truncated && damaged) { SIM_CHECK(!z->ok(), "truncated-as-good", "an archive cut to %zu of %zu bytes is ok", b.size(), a.b.size()); sim::probe("truncated"); }
            if (damaged && z->ok()) sim::probe("damage_not_in_directory");
            if (sim::chance(30)) { auto c = std::make_unique<neolib::zip>(*z); z.reset(); z = std::move(c); } // a copy outlives its original
            else if (sim::chance(20)) { auto c = std::make_unique<neolib::zip>(std::move(*z)); z.reset(); z = std::move(c); }
            bool const okDir = z->ok();
            if (!damaged && healthyRead) for (std::size_t i = 0; i < a.e.size(); ++i) { SIM_CHECK(z->file_path(i) == a.e[i].name, "wrong-name", "file %zu is called %s", i, z->file_path(i).c_str()); std::size_t k = z->index_of(a.e[i].name); SIM_CHECK(k <= i && a.e[k].name == a.e[i].name, "wrong-index", "index_of"); }
            try { z->index_of("no such file"); sim::fail("wrong-index", "index_of() found a file that is not there"); } catch (neolib::zip::file_not_found&) {}
            auto good = [&](std::size_t i, bytes const& got) // is this what was stored for entry i?
            {
                if (damagedFrom >= a.dirAt) { for (auto const& e : a.e) if (e.data == got) return true; return false; } // damage may be to the names in the directory
                return i < a.e.size() && a.e[i].data == got;
            };
            int const n = (int)z->file_count() + 1; bool failedBefore = false;
            for (int k = 0; k < n + 1; ++k)
            {
                std::size_t const i = sim::rnd((std::uint64_t)n); bool r = false, threw = false; bytes got; auto const f1 = sim::fs::failures(); bool wasOk = z->ok(); unsigned const op = (unsigned)sim::rnd(3); bool toFile = false;
                if (i >= z->file_count()) { neolib::zip::buffer_type buf; SIM_CHECK(!z->extract_to(i, buf) && buf.empty(), "index", "a file past the last one was extracted"); continue; }
                try
                {
                    sim::fs::faults ff(faults ? 60 : 0); sim::alloc_faults af(faults ? 8 : 0);
                    if (op == 0) { neolib::zip::buffer_type buf; if (sim::chance(50)) buf.assign(10, 77); r = z->extract_to(i, buf); got.assign(buf.begin(), buf.end()); }
                    else if (op == 1) { got = z->extract_to_string(i); r = z->ok(); if (!r) SIM_CHECK(got.empty(), "misread", "extract_to_string() failed and returned %zu bytes", got.size()); }
                    else { toFile = true; r = z->extract(i, "/sim/out"); }
                }
                catch (std::bad_alloc&) { threw = true; sim::probe("oom"); } catch (std::ios_base::failure&) { threw = true; }
                bytes file; bool const have = toFile && sim::fs::get("/sim/out/" + z->file_path(i), file);
                if (threw) { z.reset(); break; } // out of memory: reported
                if (toFile && r) { SIM_CHECK(have, "not-written", "extract() succeeded and there is no file"); got = file; SIM_CHECK(sim::fs::failures() == f1, "write-failed", "extract() succeeded although writing the file failed"); }
                if (r) { SIM_CHECK(good(i, got), "misread", "entry %zu: %zu bytes returned as good are not what was stored", i, got.size()); SIM_CHECK(z->ok() && wasOk, "ok", "an extract succeeded and ok() is %d", (int)z->ok()); sim::probe(damaged ? "good_entry_of_damaged_archive" : "extracted"); }
                else { SIM_CHECK(!z->ok(), "not-reported", "extract failed and ok() is true"); bool const escape = toFile && nasty; if (!damaged && healthyRead && sim::fs::failures() == f1 && wasOk && !sim::alloc_fail_fired() && !escape && sim::fault_count("alloc_failure") == 0) { SIM_CHECK(failedBefore, "good-as-damaged", "entry %zu of a good archive was not extracted", i); } failedBefore = true; sim::probe("reported"); }
            }
            (void)okDir;
        }
        for (auto const& p : sim::fs::list()) SIM_CHECK(p == "/sim/in/a.zip" || p.compare(0, 9, "/sim/out/") == 0, "escape", "a file was written outside the target directory: %s", p.c_str());
        SIM_CHECK(sim::fs::open_handles() == 0, "handle-leak", "%d files left open", sim::fs::open_handles());
    }
    SIM_CHECK(sim::live_blocks() <= before + 4, "leak", "%lld blocks leaked", (long long)(sim::live_blocks() - before));
}

SIM_SCENARIO(gzip_streams)
{
    sim::enable_fault("alloc_failure", 25);
    bytes const d = content(); bytes b, z = deflated(d, 1 + (int)sim::rnd(9)); unsigned const flg = (unsigned)sim::rnd(32);
    b += (char)0x1f; b += (char)0x8b; b += (char)8; b += (char)flg; le(b, sim::rnd(0xFFFFFFFF), 4); b += (char)0; b += (char)3; std::vector<std::size_t> fields{ 0, 2, 3 };
    if (flg & 4) { bytes x((std::size_t)(sim::chance(20) ? 65535 - sim::rnd(sim::flip() ? 3 : 33000) : sim::rnd(300)), sim::flip() ? 'e' : '\0'); fields.push_back(b.size()); le(b, x.size(), 2); b += x; }
    if (flg & 8) { b += "name" + std::to_string(sim::rnd(1000)); b += (char)0; }
    if (flg & 16) { b += "comment"; b += (char)0; }
    if (flg & 2) le(b, ::crc32(0, (Bytef const*)b.data(), (uInt)b.size()) & 0xFFFF, 2);
    std::size_t const at = b.size(); b += z; fields.push_back(b.size()); le(b, crc(d), 4); fields.push_back(b.size()); le(b, d.size(), 4); fields.push_back(b.size() - 3);
    bool const twice = sim::chance(10); if (twice) { bytes const d2 = content(); bytes const z2 = deflated(d2, 6); b += bytes("\x1f\x8b\x08\0\0\0\0\0\0\3", 10) + z2; le(b, crc(d2), 4); le(b, d2.size(), 4); }
    bool truncated = false; std::size_t const df = sim::chance(65) ? damage(b, fields, truncated) : bytes::npos; bool const damaged = df != bytes::npos; (void)at;
    auto const before = sim::live_blocks();
    {
        std::vector<char> v(b.begin(), b.end()); v.shrink_to_fit();
        try
        {
            std::unique_ptr<neolib::gunzip> g; { sim::alloc_faults af(sim::chance(50) ? 60 : 0); g = std::make_unique<neolib::gunzip>(v); }
            auto const& u = g->uncompressed_data(); bool const same = bytes(u.begin(), u.end()) == d;
            if (g->ok()) { SIM_CHECK(same, "misread", "%zu bytes returned as good are not the %zu stored", u.size(), d.size()); sim::probe(damaged ? "harmless_damage" : "good"); SIM_CHECK(!twice || damaged, "misread", "a second member was ignored"); SIM_CHECK(!truncated || !damaged || twice, "truncated-as-good", "a stream cut short is ok"); }
            else { SIM_CHECK(damaged || twice || sim::fault_count("alloc_failure"), "good-as-damaged", "a good stream of %zu bytes was refused", d.size()); SIM_CHECK(u.empty(), "misread", "ok() is false and there is data"); sim::probe("reported"); }
        }
        catch (std::bad_alloc&) { sim::probe("oom"); }
    }
    SIM_CHECK(sim::live_blocks() == before, "leak", "%lld blocks leaked", (long long)(sim::live_blocks() - before));
}
