// C16: reading and writing JSON and XML documents over streams that deliver in pieces, end early or fail
#include <neolib/neolib.hpp>
#include <neolib/file/json.hpp>
#include <neolib/file/xml.hpp>
#include <fstream>
#include <sstream>
#include "common.hpp"
#include "../simrt/simfs.h"

namespace
{
    // a stream source the scenario controls
    struct source : std::streambuf
    {
        std::string bytes; std::size_t pos = 0, endAt, failAt = std::string::npos; bool seekable, failed = false; char buf[64];
        source(std::string b, bool s) : bytes(std::move(b)), endAt(bytes.size()), seekable(s) {}
        int_type underflow() override
        {
            if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
            if (pos >= failAt) { failed = true; sim::probe("stream_failed"); throw std::runtime_error("simulated device error"); }
            if (pos >= endAt) return traits_type::eof();
            std::size_t k = std::min(endAt, failAt) - pos; k = std::min(k, 1 + (std::size_t)(sim::chance(50) ? sim::rnd(4) : sim::rnd(64)));
            memcpy(buf, bytes.data() + pos, k); pos += k; setg(buf, buf, buf + k); return traits_type::to_int_type(*buf);
        }
        pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override
        {
            if (!seekable) return pos_type(off_type(-1));
            off_type const cur = (off_type)pos - (egptr() - gptr()); off_type const t = (d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? cur : (off_type)endAt) + o;
            if (t < 0 || t > (off_type)endAt) return pos_type(off_type(-1));
            setg(buf, buf, buf); pos = (std::size_t)t; return pos_type(t);
        }
        pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
    };
    struct sink : std::streambuf
    {
        std::string bytes; std::size_t room; sink(std::size_t r) : room(r) {}
        int_type overflow(int_type c) override { if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c); if (bytes.size() >= room) return traits_type::eof(); bytes += traits_type::to_char_type(c); return c; }
    };
    std::string quote(std::string const& s) { std::string r = "\""; for (char c : s) { char b[8]; if (c > 31 && c != '"') r += c; else { snprintf(b, 8, "\\%02x", (unsigned char)c); r += b; } } return r + "\""; }
    bool coarse = false; // a written number has six digits
    std::string number(double d) { char b[40]; snprintf(b, 40, coarse ? "#%.5g" : "#%.17g", d); return b; }

    // ---- JSON: text and the canonical form of the document it stands for ----
    std::string ws() { static char const* const w[] = { "", "", "", " ", "\n", "\t ", "\r\n", "  " }; return w[sim::rnd(8)]; }
    void jstring(std::string& t, std::string& v, bool name = false)
    {
        static struct { char const* t; char const* v; } const p[] = { { "a", "a" }, { "key", "key" }, { " ", " " }, { "\\n", "\n" }, { "\\\"", "\"" }, { "\\\\", "\\" }, { "\\/", "/" }, { "\\u0041", "A" }, { "\xc3\xa9", "\xc3\xa9" }, { "\\t", "\t" }, { "{[", "{[" }, { "]}", "]}" }, { ",:", ",:" }, { "0123456789abcdef", "0123456789abcdef" }, { "\\b", "\b" }, { "\\f", "\f" }, { "\\r", "\r" }, { "\xe2\x82\xac", "\xe2\x82\xac" }, { "\xf0\x9f\x98\x80", "\xf0\x9f\x98\x80" }, { "http://", "http://" }, { "/*", "/*" }, { "*/", "*/" }, { "'", "'" }, { "`", "`" }, { "\\u001F", "\x1f" } };
        for (int n = (int)sim::rnd(5); n-- > 0;) { auto const& e = p[sim::rnd(25)]; if (e.t[1] == 'u' && (name || v.empty())) continue; /* the meaning of such escapes is C90 */ t += e.t; v += e.v; }
    }
    bool relaxed = false; // RJSON takes commas and colons only directly after what they follow
    std::string wsc(bool more) { return relaxed && more ? "" : ws(); }
    char const* sep(std::string const& t) { return relaxed && (t.back() == '}' || t.back() == ']') ? "\n" : ","; }
    void jvalue(std::string& t, std::string& c, int depth, bool composite)
    {
        switch (composite ? 7 + sim::rnd(2) : sim::rnd(depth > 0 ? 11 : 7))
        {
        case 0: { std::int64_t const n = sim::range(-1000, 1000); t += std::to_string(n); c += number((double)n); break; }
        case 1: { static char const* const d[] = { "0.5", "-2.25", "1e3", "1.5e-3", "123456.75", "2E+2", "0.0" }; char const* s = d[sim::rnd(7)]; t += s; c += number(strtod(s, nullptr)); break; }
        case 2: { static std::int64_t const v[] = { 2147483647, 2147483648ll, -2147483648ll, 4294967296ll, 9007199254740991ll, 0, -9007199254740991ll, -2147483649ll, 4294967295ll }; std::int64_t const n = v[sim::rnd(9)]; t += std::to_string(n); c += number((double)n); break; }
        case 3: t += "true"; c += "T"; break;
        case 4: t += "false"; c += "F"; break;
        case 5: t += "null"; c += "N"; break;
        case 6: { std::string v; t += '"'; jstring(t, v); t += '"'; c += quote(v); break; }
        case 7: case 9: { t += "["; c += "["; int n = (int)sim::rnd(5); for (int i = 0; i < n; ++i) { t += ws(); jvalue(t, c, depth - 1, false); t += wsc(i + 1 < n); if (i + 1 < n) t += sep(t); c += ","; } t += ws(); t += "]"; c += "]"; break; }
        default: { t += "{"; c += "{"; int n = (int)sim::rnd(4); for (int i = 0; i < n; ++i) { std::string v = "k" + std::to_string(i); t += ws(); t += "\"" + v; jstring(t, v, true); t += "\"" + wsc(true) + ":" + ws(); c += quote(v) + ":"; jvalue(t, c, depth - 1, false); t += wsc(i + 1 < n); if (i + 1 < n) t += sep(t); c += ","; } t += ws(); t += "}"; c += "}"; break; }
        }
    }
    template <typename V> std::string jcanon(V const& v)
    {
        using neolib::json_type; std::string c;
        switch (v.type())
        {
        case json_type::Object: c = "{"; for (auto i = v.begin(); i != v.end(); ++i) c += quote((*i).name().to_std_string()) + ":" + jcanon(*i) + ","; return c + "}";
        case json_type::Array: c = "["; for (auto i = v.begin(); i != v.end(); ++i) c += jcanon(*i) + ","; return c + "]";
        case json_type::Double: return number(std::get<double>(*v));
        case json_type::Int64: return number((double)std::get<std::int64_t>(*v));
        case json_type::Uint64: return number((double)std::get<std::uint64_t>(*v));
        case json_type::Int: return number(std::get<std::int32_t>(*v));
        case json_type::Uint: return number(std::get<std::uint32_t>(*v));
        case json_type::String: return quote(v.text().to_std_string());
        case json_type::Bool: return std::get<bool>(*v) ? "T" : "F";
        case json_type::Null: return "N";
        default: return "?";
        }
    }
    // ---- XML ----
    std::string xword() { static char const* const w[] = { "a", "node", "x1", "long-name", "b" }; return w[sim::rnd(5)]; }
    void xtext(std::string& t, std::string& v)
    {
        static struct { char const* t; char const* v; } const p[] = { { "a", "a" }, { "word", "word" }, { "two words", "two words" }, { "&lt;", "<" }, { "&gt;", ">" }, { "&amp;", "&" }, { "&quot;", "\"" }, { "&#65;", "A" }, { "&#x42;", "B" }, { "\xc3\xa9", "\xc3\xa9" }, { "=", "=" }, { "-", "-" }, { "]", "]" }, { "/", "/" } };
        for (int n = 1 + (int)sim::rnd(4); n-- > 0;) { auto const& e = p[sim::rnd(14)]; t += e.t; v += e.v; }
    }
    void xelement(std::string& t, std::string& c, int depth)
    {
        std::string const name = xword(); t += "<" + name; c += "<" + quote(name); 
        for (int i = 0, n = (int)sim::rnd(3); i < n; ++i) { std::string v, a = "n" + std::to_string(i); char const q = sim::flip() ? '"' : '\''; t += std::string(1 + sim::rnd(2), ' ') + a + "=" + q; if (sim::chance(80)) { xtext(t, v); } t += q; c += " " + quote(a) + "=" + quote(v); }
        c += ">";
        if (depth <= 0 || sim::chance(20)) { if (sim::flip()) t += "/>"; else t += "></" + name + ">"; c += "."; return; }
        t += ">"; bool lastText = false;
        for (int n = (int)sim::rnd(5); n-- > 0;)
        {
            unsigned const k = (unsigned)sim::rnd(7);
            if (k < 3) { t += ws(); xelement(t, c, depth - 1); t += lastText ? "" : ws(); lastText = false; }
            else if (k == 3 && !lastText) { std::string v; t += ws(); xtext(t, v); t += ws(); c += quote(v); lastText = true; }
            else if (k == 4) { static char const* const m[] = { " c ", "", "<b>", "a - b", "&" }; std::string s = m[sim::rnd(5)]; t += "<!--" + s + "-->"; c += "!" + quote(s); lastText = false; }
            else if (k == 5) { static char const* const m[] = { "", "x", "<&>", "a]]b", "</b>" }; std::string s = m[sim::rnd(5)]; t += "<![CDATA[" + s + "]]>"; c += "C" + quote(s); lastText = false; }
        }
        t += ws(); t += "</" + name + ">"; c += ".";
    }
    std::string strip(std::string s) { std::size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
    template <typename X> std::string xcanon(typename X::element const& e)
    {
        std::string c = "<" + quote(e.name().to_std_string());
        for (auto const& a : e.attributes()) c += " " + quote(a.first.to_std_string()) + "=" + quote(a.second.to_std_string());
        c += ">";
        typename X::node const& nd = e;
        for (auto i = nd.begin(); i != nd.end(); ++i)
            switch (i->type())
            {
            case X::node::Element: c += xcanon<X>(static_cast<typename X::element const&>(*i)); break;
            case X::node::Text: c += quote(strip(static_cast<typename X::text const&>(*i).content().to_std_string())); break;
            case X::node::Comment: c += "!" + quote(static_cast<typename X::comment const&>(*i).content().to_std_string()); break;
            case X::node::Cdata: c += "C" + quote(static_cast<typename X::cdata const&>(*i).content().to_std_string()); break;
            default: c += "?"; break;
            }
        return c + ".";
    }
    struct document { std::string text, canon; };
    using plain_xml = neolib::basic_xml<char>;
    template <typename D> struct traits;
    template <typename J> struct jtraits
    {
        static constexpr bool pooled = std::is_same_v<J, neolib::fast_json>; static constexpr char const* name = std::is_same_v<J, neolib::rjson> ? "rjson" : "json";
        static document make() { document d; relaxed = std::is_same_v<J, neolib::rjson>; if (sim::chance(10)) d.text = "\xEF\xBB\xBF"; d.text += ws(); jvalue(d.text, d.canon, 3, true); d.text += ws(); return d; }
        static std::string canon(J const& j) { return jcanon(j.croot()); }
        static bool good(J&) { return true; }
    };
    template <> struct traits<neolib::json> : jtraits<neolib::json> { };
    template <> struct traits<neolib::rjson> : jtraits<neolib::rjson> { };
    template <> struct traits<neolib::fast_json> : jtraits<neolib::fast_json> { };
    template <typename X> struct xtraits
    {
        static constexpr bool pooled = !std::is_same_v<X, plain_xml>; static constexpr char const* name = "xml";
        static document make() { document d; if (sim::flip()) d.text += "<?xml version=\"1.0\"?>" + ws(); if (sim::chance(20)) d.text += "<!DOCTYPE a [ <!ELEMENT a ANY> ]>" + ws(); if (sim::chance(20)) d.text += "<!-- first -->" + ws(); xelement(d.text, d.canon, 3); d.text += ws(); if (sim::chance(20)) d.text += "<!-- last -->" + ws(); return d; }
        static std::string canon(X const& x) { return xcanon<X>(x.root()); }
        static bool good(X& x) { return !x.error(); }
    };
    template <> struct traits<plain_xml> : xtraits<plain_xml> {};
    template <> struct traits<neolib::xml> : xtraits<neolib::xml> {};
    template <typename D> bool read_file(D& d, std::string const& path) { if constexpr (requires { d.read(path); }) return d.read(path); else { std::ifstream f(path); return f && d.read(f); } }

    // documents whose size is at or next to a size a reader may take for its blocks
    std::size_t near_block(std::size_t atLeast) { std::size_t b = (std::size_t)64 << sim::rnd(8); if (sim::flip()) b = 512 * (1 + sim::rnd(10)); while (b < atLeast + 2) b *= 2; return b + sim::rnd(4) - 2; }
    void pad(document& d)
    {
        while (!d.text.empty() && strchr(" \t\r\n", d.text.back())) d.text.pop_back();
        std::size_t at = d.text.compare(0, 3, "\xEF\xBB\xBF") == 0 ? 3 : d.text.compare(0, 5, "<?xml") == 0 ? d.text.find("?>") + 2 : 0, n = near_block(d.text.size()) - d.text.size();
        d.text.insert(at, std::string(n, sim::flip() ? ' ' : '\n')); sim::probe("block_sized");
    }
    std::size_t cut_at(std::size_t end) { if (end > 70 && sim::chance(50)) { std::size_t const c = near_block(0); if (c < end) return c; } return sim::rnd(end); }
    template <typename D> void reads()
    {
        using T = traits<D>;
        for (auto k : { "read_error", "open_error", "alloc_failure" }) sim::enable_fault(k, 30); for (auto k : { "short_read", "interrupted" }) sim::enable_fault(k, 50);
        { D warm; source b{ "<a b='1'>t<c/></a>", true }; std::istream s{ &b }; try { warm.read(s); } catch (std::exception&) {} source b2{ "{\"a\":[1,true,null,2.5,\"x\"]}", true }; std::istream s2{ &b2 }; try { warm.read(s2); } catch (std::exception&) {} }
        auto const blocks = sim::live_blocks();
        {
            D d;
            for (int n = 1 + (int)sim::rnd(4); n-- > 0;)
            {
                document doc = T::make(); if (sim::chance(25)) pad(doc); unsigned const how = (unsigned)sim::rnd(6); bool ok = false, threw = false, whole = false, mem = false; std::size_t cut = doc.text.size(); std::string what;
                if (how == 5)
                {
                    sim::fs::put("/sim/doc", doc.text); auto const f0 = sim::fs::failures(); bool const bad = sim::chance(30); if (bad) { cut = cut_at(doc.text.size()); sim::fs::fail_reads_from("/sim/doc", cut); }
                    try { sim::fs::faults ff(100); sim::alloc_faults af(0); ok = read_file(d, "/sim/doc"); } catch (std::bad_alloc&) { threw = mem = true; } catch (std::exception& e) { threw = true; what = e.what(); }
                    whole = sim::fs::failures() == f0 && !bad && !sim::fault_enabled("interrupted"); if (bad) sim::probe("bad_sector"); what = "a file" + what;
                }
                else
                {
                    bool const memory = sim::fault_enabled("alloc_failure") && sim::chance(50);
                    source b{ doc.text, sim::flip() }; 
                    if (how == 1 || how == 2) b.failAt = cut = cut_at(doc.text.size() + 1); else if (how == 3 || how == 4) b.endAt = cut = cut_at(doc.text.size());
                    std::istream s{ &b }; auto const a0 = sim::fault_count("alloc_failure");
                    try { sim::alloc_faults af(memory ? 30 : 0); ok = d.read(s); } catch (std::bad_alloc&) { threw = mem = true; sim::probe("read_out_of_memory"); } catch (std::exception& e) { threw = true; what = e.what(); }
                    whole = how == 0 && sim::fault_count("alloc_failure") == a0; SIM_CHECK(!mem || memory, "spurious-bad-alloc", "bad_alloc with memory available");
                    what = std::string(b.seekable ? "a seekable" : "an unseekable") + " stream " + (how == 0 ? "" : how < 3 ? "that failed " : "that ended early ") + what;
                    // a stream that failed before it ended cannot be known to hold all of the document
                    SIM_CHECK(!ok || !b.failed, "failure-ignored", "read() reports success on %s (device error after %zu of %zu bytes)", what.c_str(), cut, doc.text.size());
                }
                SIM_CHECK(mem || !threw, "threw", "read() threw something else than bad_alloc: %s", what.c_str());
                if (whole) { SIM_CHECK(ok && T::good(d), "good-refused", "%s: read() refuses a complete document from %s: %s", T::name, what.c_str(), doc.text.c_str()); sim::probe("read_whole"); }
                if (cut < 3 && doc.text[0] == '\xEF') continue; // part of a byte order mark is a keyword
                if (ok) { std::string const c = T::canon(d); SIM_CHECK(c == doc.canon, whole ? "wrong-document" : "part-missing", "%s: read() reports success on %s, %zu of %zu bytes, and the document is %s instead of %s: %s", T::name, what.c_str(), cut, doc.text.size(), c.c_str(), doc.canon.c_str(), doc.text.c_str()); }
                else sim::probe("read_reported");
            }
        }
        SIM_CHECK(T::pooled || sim::live_blocks() == blocks, "leak", "%lld blocks leaked", (long long)(sim::live_blocks() - blocks));
        SIM_CHECK(sim::fs::open_handles() == 0, "handle-leak", "%d files left open", sim::fs::open_handles());
    }
    template <typename D> void writes()
    {
        using T = traits<D>; for (auto k : { "open_error", "write_error", "disk_full", "close_error" }) sim::enable_fault(k, 30); for (auto k : { "short_write", "interrupted" }) sim::enable_fault(k, 50);
        document const doc = T::make(); D d; { source b{ doc.text, true }; std::istream s{ &b }; SIM_CHECK(d.read(s), "good-refused", "read() refuses a complete document: %s", doc.text.c_str()); }
        bool ok; std::string bytes, full; bool whole; { std::ostringstream o; SIM_CHECK(d.write(o), "write-refused", "write() to a healthy stream fails"); full = o.str(); }
        if constexpr (requires { d.write(std::string{}); }) if (sim::flip())
        {
            auto const f0 = sim::fs::failures(); { sim::fs::faults ff(150); ok = d.write("/sim/out"); } whole = sim::fs::failures() == f0 && !sim::fault_enabled("interrupted"); sim::fs::get("/sim/out", bytes);
            goto check;
        }
        { sink b{ sim::chance(50) ? full.size() : (std::size_t)sim::rnd(full.size()) }; std::ostream o{ &b }; ok = d.write(o) ; whole = b.room >= full.size(); bytes = b.bytes; }
        check:
        if (ok) { SIM_CHECK(bytes == full, "write-lost", "write() reports success with %zu of %zu bytes written", bytes.size(), full.size()); sim::probe("written"); D e; source b{ bytes, true }; std::istream s{ &b }; SIM_CHECK(e.read(s), "unreadable", "a written document is refused: %s", bytes.c_str());
            coarse = true; std::string const x = T::canon(d), y = T::canon(e); coarse = false; SIM_CHECK(x == y, "written-differently", "a document was written as %s, which reads as %s instead of %s", bytes.c_str(), y.c_str(), x.c_str()); }
        else { SIM_CHECK(!whole, "write-refused", "write() to a healthy stream fails"); sim::probe("write_reported"); }
        SIM_CHECK(sim::fs::open_handles() == 0, "handle-leak", "%d files left open", sim::fs::open_handles());
    }
}
SIM_SCENARIO(json_reads) { switch (sim::rnd(3)) { case 0: reads<neolib::json>(); break; case 1: reads<neolib::rjson>(); break; case 2: reads<neolib::fast_json>(); break; } }
SIM_SCENARIO(xml_reads) { if (sim::flip()) reads<plain_xml>(); else reads<neolib::xml>(); }
SIM_SCENARIO(document_writes) { switch (sim::rnd(4)) { case 0: case 1: writes<neolib::json>(); break; case 2: writes<plain_xml>(); break; case 3: writes<neolib::xml>(); break; } }
