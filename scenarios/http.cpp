// C25: the HTTP client over a simulated network: one outcome for each request, and the right one
#include <neolib/neolib.hpp>
#include <boost/asio.hpp>
#include <neolib/task/async_thread.hpp>
#include <neolib/io/http.hpp>
#include <map>
#include "common.hpp"
#include "../simrt/simnet.h"

namespace
{
    struct pumped_task : neolib::async_task { pumped_task() : neolib::async_task{ "http task" } {} bool work() { return static_cast<neolib::i_task&>(*this).do_work(neolib::yield_type::NoYield); } };
    std::string text(std::size_t n, bool binary) { std::string r; while (r.size() < n) r += binary ? (char)sim::rnd(256) : (char)('a' + sim::rnd(26)); return r; }
    std::string lower(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
    std::string recased(std::string s) { if (sim::flip()) return s; for (auto& c : s) { if (sim::flip() && c >= 'a' && c <= 'z') c -= 32; else if (sim::flip() && c >= 'A' && c <= 'Z') c += 32; } return s; }

    struct exchange
    {
        int id; std::string request;                               // what the server has to receive
        std::string bytes; std::size_t headEnd = 0;                // the response, all of it
        int status = 200; std::string statusLine; std::map<std::string, std::string> headers, trailers; std::string body; enum { Length, Chunked, Close } how = Length; std::size_t bodyDone = 0; // bytes from which the body is complete
        std::size_t cut; bool reset = false, refused = false, over_long = false;
        std::size_t hold = ~(std::size_t)0; bool started = false, cutShort = false, answered = false; int completed = 0, failed = 0, progress = 0; sim::net::peer peer; std::string received; std::size_t sent = 0; bool over = false, gone = false;
    };

    struct client_world
    {
        pumped_task task; std::unique_ptr<neolib::http> h; std::vector<std::unique_ptr<neolib::sink>> sinks; std::deque<exchange> all; exchange* cur = nullptr; sim::net::peer listener; std::vector<sim::net::peer> nameless; bool faulty = false, passive = false, slow = false; int budget = 0, depth = 0; static constexpr unsigned short Port = 8080;

        void response(exchange& e)
        {
            static int const codes[] = { 200, 200, 200, 200, 201, 206, 299, 404, 500, 301, 199 }; e.status = slow ? 200 : codes[sim::rnd(11)]; std::string const nl = sim::chance(85) ? "\r\n" : "\n";
            e.statusLine = "HTTP/1.1 " + std::to_string(e.status) + " " + (sim::flip() ? "OK" : "Some Reason"); e.bytes = e.statusLine + nl; e.how = slow ? exchange::Length : (decltype(e.how))sim::rnd(3);
            auto header = [&](std::map<std::string, std::string>& m, std::string const& n, std::string const& v)
            {
                std::string line = recased(n) + ":" + std::string(sim::rnd(3), ' ') + v; std::string value = v;
                if (sim::chance(15) && n[0] == 'X') { std::string const more = (sim::flip() ? " " : "\t") + text(1 + sim::rnd(5), false); line += nl + more; value += more; }
                auto& at = m[lower(n)]; at = at.empty() ? value : at + "," + value; return line + nl;
            };
            std::size_t const size = slow ? 100 : sim::chance(20) ? 0 : sim::chance(70) ? sim::rnd(60) : 1000 + sim::rnd(3000); e.body = text(size, true);
            auto extra = [&] { for (int n = (int)sim::rnd(3); n > 0; --n) e.bytes += header(e.headers, sim::flip() ? "X-One" : "X-Two", text(1 + sim::rnd(10), false)); };
            extra(); if (e.how == exchange::Length) e.bytes += header(e.headers, "Content-Length", std::to_string(size)); else if (e.how == exchange::Chunked) e.bytes += header(e.headers, "Transfer-Encoding", "chunked"); extra();
            e.bytes += nl; e.headEnd = e.bytes.size();
            if (e.how != exchange::Chunked) { e.bytes += e.body; e.bodyDone = e.bytes.size(); if (!slow && e.how == exchange::Length && sim::chance(8)) { e.over_long = true; e.bytes += text(1 + sim::rnd(5), true); } } // more than was announced
            else
            {
                for (std::size_t i = 0; i < size;) { std::size_t const n = std::min(size - i, 1 + sim::rnd(sim::flip() ? 10 : 1000)); char hex[20]; std::snprintf(hex, sizeof hex, sim::flip() ? "%zx" : "%zX", n); e.bytes += std::string(hex) + (sim::chance(15) ? ";ext=1" : "") + "\r\n" + e.body.substr(i, n) + "\r\n"; i += n; }
                e.bytes += "0\r\n"; e.bodyDone = e.bytes.size(); std::map<std::string, std::string> m; if (sim::chance(20)) e.bytes += "X-Trailer: t\r\n", e.trailers["x-trailer"] = "t"; e.bytes += "\r\n";
            }
            e.cut = slow || sim::chance(60) ? e.bytes.size() : sim::rnd(e.bytes.size() + 1); e.reset = !slow && sim::chance(15);
        }
        // 1 complete, 0 not, -1 either
        int whole(exchange const& e) const
        {
            if (e.over_long && e.sent > e.bodyDone) return -1; if (e.sent < e.headEnd) return 0; if (e.over_long) return e.sent == e.bodyDone; if (e.how == exchange::Close) return 1; if (e.sent < e.bodyDone) return 0; return e.sent == e.bytes.size() ? 1 : -1;
        }
        std::string got_body(exchange const& e) const { return e.how == exchange::Close ? e.body.substr(0, e.sent - e.headEnd) : e.body; }
        void completed()
        {
            SIM_CHECK(cur && h, "called-after-destruction", "completed() after the client was destroyed"); auto& e = *cur; SIM_CHECK(e.completed + e.failed == 0, "outcome-twice", "request %d: completed after completed=%d failed=%d", e.id, e.completed, e.failed); ++e.completed;
            SIM_CHECK(e.started, "out-of-turn", "request %d completed and was not started", e.id); SIM_CHECK(e.status / 100 == 2, "wrong-outcome", "request %d: completed with status %d", e.id, e.status);
            SIM_CHECK(whole(e) != 0 && e.over, "wrong-outcome", "request %d: completed when %zu of %zu bytes of the response were sent", e.id, e.sent, e.bytes.size());
            SIM_CHECK(h->ok() && h->status_code() == (unsigned)e.status && h->response_status() == e.statusLine, "wrong-response", "request %d: status %u '%s', '%s' was sent", e.id, h->status_code(), h->response_status().c_str(), e.statusLine.c_str());
            SIM_CHECK(h->body_as_string() == got_body(e) && h->body_length() == got_body(e).size(), "wrong-response", "request %d: a body of %zu bytes (%zu sent) which is not the one that was sent", e.id, h->body().size(), got_body(e).size());
            auto m = e.headers; if (e.how == exchange::Chunked && whole(e) == 1) for (auto& t : e.trailers) m[t.first] = t.second;
            std::map<std::string, std::string> r; for (auto& p : h->response_headers()) { auto const k = lower(neolib::make_string(p.first)); if (whole(e) == 1 || !e.trailers.count(k)) r[k] = p.second; }
            SIM_CHECK(r == m, "wrong-response", "request %d: %zu headers which are not the %zu that were sent", e.id, r.size(), m.size());
            sim::probe(e.how == exchange::Length ? "completed_length" : e.how == exchange::Chunked ? "completed_chunked" : "completed_close"); after();
        }
        void failed()
        {
            SIM_CHECK(cur && h, "called-after-destruction", "failure() after the client was destroyed"); auto& e = *cur; SIM_CHECK(e.completed + e.failed == 0, "outcome-twice", "request %d: failure after completed=%d failed=%d", e.id, e.completed, e.failed); ++e.failed;
            if (!faulty && e.started && !e.reset && !e.refused) SIM_CHECK(e.status / 100 != 2 || whole(e) != 1 || !e.over, "wrong-outcome", "request %d: failed and the whole response was sent (status %d)", e.id, e.status);
            SIM_CHECK(h->body().empty(), "wrong-response", "request %d failed and has a body", e.id); sim::probe("failed"); after();
        }
        void make() { h = std::make_unique<neolib::http>(task); sinks.push_back(std::make_unique<neolib::sink>()); auto& k = *sinks.back();
            k += h->started([this]() { SIM_CHECK(cur && h, "called-after-destruction", "started() after the client was destroyed"); SIM_CHECK(!cur->started && cur->completed + cur->failed == 0, "out-of-turn", "request %d is started again", cur->id); cur->started = true; });
            k += h->progress([this]() { SIM_CHECK(cur && h, "called-after-destruction", "progress() after the client was destroyed"); SIM_CHECK(cur->started && cur->completed + cur->failed == 0, "out-of-turn", "request %d: progress", cur->id); ++cur->progress; if (sim::chance(10)) act(); });
            k += h->completed([this]() { completed(); }); k += h->failure([this]() { failed(); }); }
        void after() { if (sim::chance(35)) act(); }
        void act()
        {
            if (passive || depth > 2 || budget-- <= 0) return; ++depth; sim::probe("acted_in_callback");
            if (sim::chance(30)) { cur = nullptr; h.reset(); if (sim::flip()) { make(); request(); } } else request();
            --depth;
        }
        void request()
        {
            if (!h) return; all.emplace_back(); auto& e = all.back(); e.id = (int)all.size() - 1; cur = &e; response(e); for (auto& o : all) if (&o != &e) o.gone = true;
            static char const* const hosts[] = { "server", "127.0.0.1", "nowhere" }; std::string const host = hosts[passive ? 0 : sim::chance(90) ? sim::rnd(2) : 2]; unsigned short const port = passive || sim::chance(92) ? Port : 81; e.refused = host == "nowhere" || port != Port;
            std::string const resource = "/r" + std::to_string(e.id) + "/" + text(sim::rnd(10), false) + (sim::flip() ? "?a=b" : ""); auto const type = sim::flip() ? neolib::http::Get : neolib::http::Post; neolib::http::headers_t headers; std::string body;
            if (type == neolib::http::Post) { body = text(sim::chance(80) ? sim::rnd(100) : 3000, true); headers["Content-Length"] = std::to_string(body.size()); } if (sim::flip()) headers["X-Custom"] = text(5, false);
            e.request = std::string(type == neolib::http::Get ? "GET " : "POST ") + resource + " HTTP/1.1\r\nHost: " + host + "\r\nConnection: close\r\n"; for (auto& p : headers) e.request += neolib::make_string(p.first) + ": " + p.second + "\r\n"; e.request += "\r\n" + body;
            if (sim::flip()) h->request("http://" + host + ":" + std::to_string(port) + resource, type, headers, body); else h->request(host, resource, type, port, false, headers, std::vector<char>(body.begin(), body.end())); sim::probe("requested");
        }
        // the server's side of things
        void serve(bool all_)
        {
            auto p = listener.accept(); if (p.id >= 0) nameless.push_back(p);
            for (std::size_t i = 0; i < nameless.size(); ++i)
            {
                // whose connection it is shows when the request line has arrived; until then it is kept here
                auto& q = nameless[i]; std::string& r = unknown[q.id]; r += q.recv(); auto const end = r.find('\n'); if (end == std::string::npos) { if (q.eof() || q.was_reset()) { q.close(); nameless.erase(nameless.begin() + (long)i--); } continue; }
                auto const at = r.find("/r"); SIM_CHECK(at != std::string::npos, "wrong-request", "the server received '%s'", r.substr(0, end).c_str()); int const id = std::atoi(r.c_str() + at + 2); SIM_CHECK(id >= 0 && id < (int)all.size() && all[(std::size_t)id].peer.id < 0, "wrong-request", "the server received '%s'", r.substr(0, end).c_str());
                auto& e = all[(std::size_t)id]; e.peer = q; e.received = r; nameless.erase(nameless.begin() + (long)i--); sim::probe("reached_server");
            }
            for (auto& e : all)
            {
                if (e.peer.id < 0 || e.cutShort) continue; e.received += e.peer.recv(); SIM_CHECK(e.request.compare(0, e.received.size(), e.received) == 0, "wrong-request", "request %d: the server received %zu bytes which are not those of the request", e.id, e.received.size());
                if (e.over) { if (e.peer.eof() || e.peer.was_reset()) { e.peer.close(); e.cutShort = true; } continue; }
                if (e.received.size() < e.request.size() && !(e.gone && (e.peer.eof() || e.peer.was_reset()))) continue;
                std::size_t n = all_ ? std::min(e.cut, e.hold) - e.sent : std::min(e.cut - e.sent, sim::rnd(sim::flip() ? 20 : 2000)); e.peer.send(e.bytes.substr(e.sent, n)); e.sent += n;
                if (e.sent == e.cut && (all_ || sim::flip())) { e.over = true; if (e.reset) { e.peer.reset(); e.cutShort = true; sim::probe("reset_by_server"); } else e.peer.fin(); }
            }
        }
        std::map<int, std::string> unknown;
        void pump(int n = 1) { for (; n > 0; --n) { task.work(); if (sim::chance(30)) sim::sleep_ns((std::int64_t)(1 + sim::rnd(20)) * 50 * sim::us); } }
        bool finished() const { return !cur || cur->completed + cur->failed > 0; }
        void run()
        {
            sim::net::name("server", { "127.0.0.1" }); sim::set_time_limit(240 * 3600 * sim::sec); listener = sim::net::peer::listen(Port); faulty = sim::chance(40); for (auto k : { "short_send", "short_recv", "net_split", "net_delay" }) sim::enable_fault(k, 60); sim::enable_fault("net_stall", 25);
            if (faulty) for (auto k : { "net_reset", "connect_error", "socket_error", "bind_error", "resolve_error" }) sim::enable_fault(k, 25);
            sim::enable_fault("resolve_delay", 50); sim::net::intensity(sim::chance(20) ? 0 : (unsigned)(10 + sim::rnd(150))); budget = (int)sim::rnd(8); make();
            for (int ops = 5 + (int)sim::rnd(40); ops > 0; --ops)
                switch (sim::rnd(10))
                {
                case 0: if (!h) make(); if (finished() || sim::chance(15)) request(); break;
                case 1: if (sim::chance(10)) { cur = nullptr; h.reset(); sim::probe("destroyed"); } break;
                case 2: case 3: case 4: serve(false); break;
                case 5: sim::sleep_ns((std::int64_t)sim::rnd(1000) * sim::ms); break;
                default: pump(1 + (int)sim::rnd(5)); break;
                }
            sim::net::intensity(0); sim::set_faults(false); passive = true;
            auto settle = [&] { std::int64_t const t0 = sim::now(); while (!finished() && sim::now() - t0 < 3600 * sim::sec) { pump(2); serve(true); sim::sleep_ns(sim::now() - t0 < 500 * sim::ms ? 5 * sim::ms : 10 * sim::sec); } SIM_CHECK(finished(), "no-outcome", "request %d (to a server that %s) has no outcome after an hour", cur->id, cur->refused ? "is not there" : "has answered"); };
            settle(); if (!h) make(); bool const was = faulty; faulty = false; request(); settle(); faulty = was;
            // what arrives slowly is reported as it arrives
            slow = true; request(); slow = false; auto& e = *cur; e.hold = e.headEnd; int const pieces = 2 + (int)sim::rnd(4);
            for (int i = 0; i < pieces; ++i)
            {
                e.hold += 5; std::int64_t const t0 = sim::now(); while (e.sent < e.hold && sim::now() - t0 < 3600 * sim::sec) { pump(2); serve(true); sim::sleep_ns(sim::sec); }
                for (int k = 0; k < 10; ++k) { pump(2); sim::sleep_ns(sim::sec); }
                SIM_CHECK(e.progress > i, "no-progress-event", "request %d: %d pieces of the body have arrived seconds apart, and progress was reported %d times", e.id, i + 1, e.progress);
            }
            e.hold = e.cut; settle(); SIM_CHECK(e.completed == 1, "wrong-outcome", "request %d failed without a fault", e.id); sim::probe("slow_body");
            h.reset(); cur = nullptr; for (int i = 0; i < 5; ++i) { pump(2); sim::sleep_ns(10 * sim::sec); } for (auto& x : all) if (x.peer.id >= 0 && !x.cutShort) x.peer.close();
            sim::state(all.size() * 64 + (std::uint64_t)budget); sinks.clear(); SIM_CHECK(sim::net::open_sockets() == 0, "socket-leak", "%d sockets are still open", sim::net::open_sockets());
        }
    };
}
SIM_SCENARIO(http_requests) { sim::net::enable(); neolib::allocate_service_provider(); (void)neolib::async_event_queue::instance(); auto w = std::make_unique<client_world>(); w->run(); }
