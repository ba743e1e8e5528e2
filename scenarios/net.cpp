// C11, C12: packet streams, servers and resolvers over a simulated network
#include <neolib/neolib.hpp>
#include <boost/asio.hpp>
#include <neolib/task/async_thread.hpp>
#include <neolib/io/packet_stream.hpp>
#include <neolib/io/tcp_packet_stream_server.hpp>
#include <neolib/io/resolver.hpp>
#include <map>
#include <cstring>
#include "common.hpp"
#include "../simrt/simnet.h"

namespace
{
    struct pumped_task : neolib::async_task { pumped_task() : neolib::async_task{ "net task" } {} bool work() { return static_cast<neolib::i_task&>(*this).do_work(neolib::yield_type::NoYield); } };
    void network_faults()
    {
        for (auto k : { "short_send", "short_recv", "net_split", "net_delay" }) sim::enable_fault(k, 60);
        for (auto k : { "net_stall", "net_reset", "connect_error", "accept_error", "socket_error", "bind_error", "resolve_error" }) sim::enable_fault(k, 25);
        sim::enable_fault("resolve_delay", 50);
    }
    void begin_world() { network_faults(); sim::net::enable(); neolib::allocate_service_provider(); (void)neolib::async_event_queue::instance(); }
    constexpr bool is_string(neolib::string_packet const*) { return true; }
    constexpr bool is_string(neolib::binary_packet const*) { return false; }
    std::string joined(std::deque<std::string> const& v) { std::string r; for (auto& s : v) r += s; return r; }
    std::string brief(std::string const& s) { return s.size() < 60 ? s : s.substr(0, 40) + "...(" + std::to_string(s.size()) + ")"; }

    // what one side of one connection sent and what the other side got of it
    template <typename P> struct traffic
    {
        struct packet { std::string body, wire; bool high; int sent = -1; int before = 0; };
        std::vector<packet> packets; std::vector<int> order; std::deque<std::string> got; std::string in, out; std::size_t taken = 0, placed = 0, verified = 0; bool over = false; // over: the sender's session has ended
        std::string make(std::string const& tag, bool high)
        {
            if (!high && sim::chance(4)) { packets.push_back({ {}, {}, high }); sim::probe("empty_packet"); return {}; }
            std::string b = tag + "." + std::to_string(packets.size()) + ":"; std::size_t n = sim::chance(70) ? sim::rnd(40) : sim::chance(60) ? sim::rnd(300) : 1000 + sim::rnd(1200);
            while (b.size() < n) b += (char)('a' + b.size() % 26);
            std::string w = b; if constexpr (is_string((P*)nullptr)) { static char const* const d[] = { "\n", "\r\n", "\r", "\n\n", "\r\n\r\n" }; w += d[sim::rnd(5)]; }
            packets.push_back({ b, w, high }); return w;
        }
        int find(std::string const& wire) const { for (std::size_t i = 0; i < packets.size(); ++i) if (packets[i].wire == wire && (!wire.empty() || packets[i].sent < 0)) return (int)i; return -1; }
        void queued() // just handed to the stream
        {
            // a high priority packet goes before everything that waits, except one that may be being sent already
            auto& p = packets.back(); if (!p.high) return; p.before = 0;
            for (std::size_t i = 0; i + 1 < packets.size(); ++i) p.before += packets[i].sent >= 0;
        }
        void was_sent(std::string const& wire, char const* who)
        {
            int i = find(wire); SIM_CHECK(i >= 0, "sent-unknown", "%s: packet_sent for a packet that was not sent: %s", who, brief(wire).c_str());
            SIM_CHECK(packets[(std::size_t)i].sent < 0, "sent-twice", "%s: packet_sent twice for %s", who, brief(wire).c_str());
            SIM_CHECK(!over, "sent-after-close", "%s: packet_sent after the session ended", who);
            packets[(std::size_t)i].sent = (int)order.size();
            if (!packets[(std::size_t)i].high) for (int k = 0; k < i; ++k) SIM_CHECK(packets[(std::size_t)k].high || packets[(std::size_t)k].sent >= 0, "sent-order", "%s: packet %d was sent before packet %d", who, i, k);
            else
            {
                // those that went between: the one that was being sent, and high priority packets queued later
                int lower = 0; for (std::size_t k = (std::size_t)packets[(std::size_t)i].before; k < order.size(); ++k) lower += order[k] < i;
                SIM_CHECK(lower <= 1, "priority", "%s: %d packets that were waiting were sent before the high priority packet %d", who, lower, i);
            }
            order.push_back(i);
        }
        // packets that may come after those known to be sent: one, being sent when the session ended
        void check(char const* who, bool complete)
        {
            if constexpr (is_string((P*)nullptr))
            {
                std::vector<int> shown; for (int k : order) if (!packets[(std::size_t)k].body.empty()) shown.push_back(k); // nothing shows of an empty packet
                for (std::size_t i = 0; i < got.size(); ++i)
                {
                    if (i < shown.size()) { SIM_CHECK(got[i] == packets[(std::size_t)shown[i]].body, "not-what-was-sent", "%s: packet %zu to arrive is '%s', '%s' was sent", who, i, brief(got[i]).c_str(), brief(packets[(std::size_t)shown[i]].body).c_str()); continue; }
                    int k = -1; for (std::size_t j = 0; j < packets.size(); ++j) if (packets[j].body == got[i]) k = (int)j;
                    SIM_CHECK(k >= 0, "not-what-was-sent", "%s: '%s' arrived and was never sent", who, brief(got[i]).c_str());
                    SIM_CHECK(packets[(std::size_t)k].sent < 0 && i == shown.size(), "not-what-was-sent", "%s: '%s' arrived out of turn or twice", who, brief(got[i]).c_str());
                }
                if (complete) { std::size_t n = 0; for (auto& q : packets) n += !q.body.empty(); SIM_CHECK(got.size() == n, "lost", "%s: %zu packets were sent and %zu arrived", who, n, got.size()); }
            }
            else
            {
                for (; taken < got.size(); ++taken) in += got[taken];
                for (; placed < order.size(); ++placed) out += packets[(std::size_t)order[placed]].wire;
                std::size_t const both = std::min(in.size(), out.size());
                SIM_CHECK(in.compare(verified, both - verified, out, verified, both - verified) == 0, "not-what-was-sent", "%s: of the %zu bytes that arrived some after %zu are not those that were sent", who, in.size(), verified); verified = both;
                if (in.size() > out.size())
                {
                    bool found = false; for (auto& p : packets) found = found || (p.sent < 0 && in.size() - out.size() <= p.wire.size() && in.compare(out.size(), std::string::npos, p.wire, 0, in.size() - out.size()) == 0);
                    SIM_CHECK(found, "not-what-was-sent", "%s: the %zu bytes that arrived are not those that were sent (%zu known to be)", who, in.size(), out.size());
                }
                if (complete) { std::size_t n = 0; for (auto& p : packets) n += p.wire.size(); SIM_CHECK(in.size() == n, "lost", "%s: %zu bytes were sent and %zu arrived", who, n, in.size()); }
            }
        }
    };

    template <typename P> struct pipes
    {
        using stream = neolib::packet_stream<P, neolib::tcp_protocol>; using server = neolib::tcp_packet_stream_server<P>;
        struct session { int client; traffic<P> up, down; bool established = false, closed = false, failed = false, served = false, servedClosed = false, transferFailed = false, openRefused = false, closedByUs = false; int serverSide = -1; std::string tag; std::size_t keptFrom = 0; };
        struct server_side { int index; stream* s = nullptr; std::unique_ptr<stream> owned; std::unique_ptr<neolib::sink> sink; int sess = -1; std::deque<std::string> early; std::string acc; bool removed = false, closed = false, failed = false; };
        struct client { std::unique_ptr<stream> s; std::unique_ptr<neolib::sink> sink; int sess = -1; int sessions = 0; };
        pumped_task task; std::unique_ptr<server> srv; neolib::sink serverSink; std::deque<session> sessions; std::deque<server_side> sides; std::deque<client> clients; bool serverReplies = false; int budget; unsigned const port = 4000; neolib::protocol_family family = neolib::IPv4;

        session& cur(client& c) { return sessions[(std::size_t)c.sess]; }
        void begin(client& c) { c.sess = (int)sessions.size(); sessions.emplace_back(); sessions.back().client = (int)(&c - &clients[0]); sessions.back().tag = "c" + std::to_string(&c - &clients[0]) + "s" + std::to_string(c.sessions++); }
        void subscribe(client& c)
        {
            c.sink = std::make_unique<neolib::sink>(); auto& k = *c.sink; auto* cp = &c; auto* s = c.s.get();
            k += s->connection_established([this, cp]() { auto& x = cur(*cp); SIM_CHECK(!x.established && !x.failed && !x.closed, "outcome-twice", "%s: connection_established after established=%d failed=%d closed=%d", x.tag.c_str(), x.established, x.failed, x.closed); x.established = true; });
            k += s->connection_failure([this, cp](boost::system::error_code const&) { auto& x = cur(*cp); SIM_CHECK(!x.established && !x.failed && !x.closed, "outcome-twice", "%s: connection_failure after established=%d failed=%d closed=%d", x.tag.c_str(), x.established, x.failed, x.closed); x.failed = true; sim::probe("connection_failure"); });
            k += s->packet_sent([this, cp](P const& p) { cur(*cp).up.was_sent({ p.begin(), p.end() }, cur(*cp).tag.c_str()); });
            k += s->packet_arrived([this, cp](P const& p) { auto& x = cur(*cp); SIM_CHECK(!x.closed, "arrived-after-close", "%s: a packet arrives after the session ended", x.tag.c_str()); x.down.got.push_back({ p.begin(), p.end() }); x.down.check((x.tag + " down").c_str(), false); });
            k += s->transfer_failure([this, cp](boost::system::error_code const&) { auto& x = cur(*cp); SIM_CHECK(x.established && !x.closed && !x.transferFailed, "failure-out-of-turn", "%s: transfer_failure when established=%d closed=%d failed=%d", x.tag.c_str(), x.established, x.closed, x.transferFailed); x.transferFailed = true; sim::probe("transfer_failure"); });
            k += s->connection_closed([this, cp]() { auto& x = cur(*cp); SIM_CHECK(x.established && !x.closed, "closed-out-of-turn", "%s: connection_closed when established=%d closed=%d", x.tag.c_str(), x.established, x.closed); x.closed = true; x.up.over = true; x.keptFrom = x.up.packets.size(); sim::probe("connection_closed"); });
        }
        void serve(stream& s)
        {
            sides.emplace_back(); auto* p = &sides.back(); p->index = (int)sides.size() - 1; p->s = &s; p->sink = std::make_unique<neolib::sink>(); auto& k = *p->sink; sim::probe("accepted");
            k += s.packet_arrived([this, p](P const& q)
            {
                std::string b(q.begin(), q.end()); SIM_CHECK(!p->closed, "arrived-after-close", "a packet arrives at the server after the session ended");
                if (p->sess < 0)
                {
                    p->early.push_back(b); std::string all = joined(p->early); auto dot = all.find('.'); if (dot == std::string::npos) return;
                    for (std::size_t i = 0; i < sessions.size(); ++i) if (sessions[i].tag == all.substr(0, dot)) p->sess = (int)i;
                    SIM_CHECK(p->sess >= 0, "not-what-was-sent", "the server got '%s', which nobody sent", brief(all).c_str());
                    auto& x = sessions[(std::size_t)p->sess]; SIM_CHECK(!x.served, "session-split", "packets of session %s arrive over two connections", x.tag.c_str()); x.served = true; x.serverSide = p->index;
                    x.up.got = p->early;
                }
                else sessions[(std::size_t)p->sess].up.got.push_back(b);
                auto& x = sessions[(std::size_t)p->sess]; x.up.check((x.tag + " up").c_str(), false);
                if (serverReplies && budget > 0 && sim::chance(40)) { --budget; bool const high = sim::chance(20); std::string w = x.down.make(x.tag, high); p->s->send_packet(P{ w.data(), w.size() }, high); x.down.queued(); sim::probe("replied"); }
            });
            k += s.packet_sent([this, p](P const& q) { SIM_CHECK(p->sess >= 0, "sent-unknown", "server: packet_sent for a packet that was not sent"); sessions[(std::size_t)p->sess].down.was_sent({ q.begin(), q.end() }, "server"); });
            k += s.transfer_failure([this, p](boost::system::error_code const&) { SIM_CHECK(!p->closed && !p->failed, "failure-out-of-turn", "server: transfer_failure out of turn"); p->failed = true; });
            k += s.connection_closed([this, p]() { SIM_CHECK(!p->closed, "closed-out-of-turn", "server: connection_closed twice"); p->closed = true; if (p->sess >= 0) { auto& x = sessions[(std::size_t)p->sess]; x.servedClosed = true; x.down.over = true; } });
        }
        void pump(int n = 1) { for (; n > 0; --n) { task.work(); if (sim::chance(30)) sim::sleep_ns((std::int64_t)(1 + sim::rnd(20)) * 50 * sim::us); } }
        void send(client& c, int n)
        {
            for (; n > 0 && budget > 0; --n) { --budget; auto& x = cur(c); bool const high = sim::chance(15); std::string w = x.up.make(x.tag, high); c.s->send_packet(P{ w.data(), w.size() }, high); x.up.queued(); if (sim::chance(30)) pump(); }
        }
        void open(client& c)
        {
            auto& x = cur(c); static char const* const hosts[] = { "127.0.0.1", "server", "two", "nowhere" }; unsigned const h = sim::chance(90) ? (unsigned)sim::rnd(3) : 3;
            bool const ok = c.s->open(family == neolib::IPv6 && h == 0 ? "::1" : hosts[h], (unsigned short)(sim::chance(95) ? port : 4999), false, family); if (!ok) { x.openRefused = true; sim::probe("open_refused"); }
        }
        void end(client& c, bool destroy)
        {
            auto& x = cur(c); bool const was = x.established && !x.closed; x.closedByUs = true;
            if (destroy) { c.s.reset(); sim::probe("destroyed"); } else c.s->close();
            SIM_CHECK(!was || x.closed, "not-closed", "%s: the stream was closed and connection_closed was not triggered", x.tag.c_str()); x.closed = true; x.up.over = true;
            if (c.s) { SIM_CHECK(!c.s->connected() && !c.s->opened(), "not-closed", "%s: the stream was closed and still says it is open", x.tag.c_str()); }
            if (destroy) { c.s = std::make_unique<stream>(task, false, family); subscribe(c); }
            begin(c);
        }
        void run()
        {
            sim::set_time_limit(24 * 3600 * sim::sec);
            serverReplies = sim::flip(); budget = 3 + (int)sim::rnd(25); if (sim::chance(20)) { family = neolib::IPv6; sim::probe("ipv6"); }
            sim::net::name("server", { family == neolib::IPv6 ? "::1" : "127.0.0.1" }); sim::net::name("two", { "::1", "127.0.0.1" });
            srv = std::make_unique<server>(task, (unsigned short)port, false, family);
            serverSink += srv->packet_stream_added([this](stream& s) { serve(s); });
            serverSink += srv->packet_stream_removed([this](stream& s) { bool found = false; for (auto& e : sides) if (e.s == &s && !e.removed) { if (!e.closed) { SIM_CHECK(!s.connected(), "removed-open", "the server removes a stream that is connected"); e.closed = true; if (e.sess >= 0) sessions[(std::size_t)e.sess].servedClosed = true; } e.removed = found = true; break; } SIM_CHECK(found, "removed-unknown", "the server removes a stream it did not add"); });
            unsigned const intensity = sim::chance(30) ? 0 : (unsigned)(10 + sim::rnd(90)); sim::net::intensity(intensity);
            int const nc = 1 + (int)sim::rnd(2); for (int i = 0; i < nc; ++i) clients.emplace_back();
            for (auto& c : clients) { c.s = std::make_unique<stream>(task, false, family); subscribe(c); begin(c); }
            int ops = 4 + (int)sim::rnd(30);
            while (ops-- > 0)
            {
                auto& c = clients[sim::rnd(clients.size())]; auto& x = cur(c);
                { bool waiting = false; for (std::size_t i = x.keptFrom; i < x.up.packets.size(); ++i) waiting = waiting || x.up.packets[i].sent < 0; SIM_CHECK(c.s->underflow() == !waiting, "underflow", "%s: underflow() is %d and packets %s waiting (closed %d)", x.tag.c_str(), (int)c.s->underflow(), waiting ? "are" : "are not", x.closed); }
                switch (sim::rnd(8))
                {
                case 0: case 1: send(c, 1 + (int)sim::rnd(4)); break;
                case 2: if (!c.s->opened() && !x.openRefused && !x.failed && !x.established) open(c); else if (x.openRefused || x.failed || x.closed) end(c, sim::chance(20)); break;
                case 3: if (sim::chance(25)) end(c, sim::chance(30)); break;
                case 4: if (!sides.empty() && sim::chance(15)) { auto& e = sides[sim::rnd(sides.size())]; if (!e.closed) { e.s->close(); sim::probe("server_closed_stream"); } } break;
                default: pump(1 + (int)sim::rnd(6)); break;
                }
            }
            // faults stop; everything opened comes to an end and everything sent over a connection that stays up arrives
            sim::net::intensity(0); sim::set_faults(false);
            for (auto& c : clients) { auto& x = cur(c); if (!c.s->opened() && !x.openRefused && !x.failed && !x.established) open(c); }
            auto settled = [&]
            {
                for (auto& c : clients) { auto& x = cur(c); if (x.openRefused || x.failed) continue; if (!x.established) return false; if (x.closed) continue; for (auto& p : x.up.packets) if (p.sent < 0) return false; if (!x.up.packets.empty() && !x.served) return false; if (x.serverSide >= 0 && !sides[(std::size_t)x.serverSide].closed) for (auto& p : x.down.packets) if (p.sent < 0) return false; }
                return true;
            };
            std::int64_t const t0 = sim::now(); while (!settled()) { pump(); sim::sleep_ns(sim::now() - t0 < 500 * sim::ms ? 5 * sim::ms : 10 * sim::sec); if (sim::now() - t0 > 3600 * sim::sec) break; }
            for (auto& c : clients)
            {
                auto& x = cur(c); if (x.openRefused || x.failed) continue;
                SIM_CHECK(x.established, "no-outcome", "%s: open() has no outcome after an hour", x.tag.c_str()); if (x.closed) continue;
                for (auto& p : x.up.packets) SIM_CHECK(p.sent >= 0, "stuck", "%s: a packet is not sent after an hour (%s) [open %d conn %d served %d sclosed %d transferFailed %d]", x.tag.c_str(), brief(p.body).c_str(), c.s->opened(), c.s->connected(), x.served, x.servedClosed, x.transferFailed);
            }
            pump(5); sim::sleep_ns(100 * sim::sec); pump(50); sim::sleep_ns(100 * sim::sec); pump(50);
            for (auto& c : clients)
            {
                auto& x = cur(c); if (!x.established || x.closed || x.openRefused || x.failed) continue;
                bool const serverUp = x.serverSide >= 0 && !sides[(std::size_t)x.serverSide].closed;
                x.up.check((x.tag + " up").c_str(), serverUp || (!x.served && !x.up.packets.empty())); if (serverUp) { x.down.check((x.tag + " down").c_str(), true); sim::probe("complete"); }
            }
            // both ends of every connection notice its end
            for (auto& c : clients) end(c, sim::flip());
            for (int i = 0; i < 20; ++i) { pump(5); sim::sleep_ns(10 * sim::sec); }
            for (auto& e : sides) { SIM_CHECK(e.closed, "not-noticed", "the other side closed a connection long ago and the server's stream still says it is open"); SIM_CHECK(e.removed, "not-removed", "the server keeps a stream that was closed"); }
            for (auto& x : sessions) { x.up.check((x.tag + " up").c_str(), false); x.down.check((x.tag + " down").c_str(), false); }
            sim::state(sessions.size() * 100 + sides.size());
            for (auto& c : clients) { c.sink.reset(); c.s.reset(); } serverSink.clear(); for (auto& e : sides) e.sink.reset(); srv.reset();
            pump(2); SIM_CHECK(sim::net::open_sockets() == 0, "socket-leak", "%d sockets are still open", sim::net::open_sockets());
        }
    };
}
SIM_SCENARIO(packet_pipes) { begin_world(); if (sim::flip()) { auto w = std::make_unique<pipes<neolib::string_packet>>(); w->run(); } else { auto w = std::make_unique<pipes<neolib::binary_packet>>(); w->run(); } }

// C12: the ends of streams and servers: whatever is closed, opened again or destroyed, from whatever callback
namespace
{
    struct lifecycle
    {
        using P = neolib::string_packet; using stream = neolib::tcp_string_packet_stream; using server = neolib::tcp_string_packet_stream_server;
        enum state { Idle, Opening, Failed, Up, Broken };
        struct client { int id; std::unique_ptr<stream> s; std::unique_ptr<neolib::sink> sink; bool dying = false; state st = Idle; int sessions = 0; int packets = 0; std::deque<std::string> waiting; unsigned short to = 4000; };
        struct side { int id; stream* s; std::unique_ptr<stream> owned; std::unique_ptr<neolib::sink> sink; bool dead = false, broken = false, taken = false; int greeted = 0; };
        pumped_task task; std::unique_ptr<server> srv; std::unique_ptr<neolib::sink> serverSink; bool serverDying = false; std::deque<client> clients; std::deque<side> sides; int depth = 0, budget = 0; bool passive = false; sim::net::peer raw; std::vector<sim::net::peer> peers; int failedAccepts = 0;

        void in(client& c, char const* what, bool ok) { SIM_CHECK(c.s || c.dying, "called-after-destruction", "client %d: %s after the stream was destroyed", c.id, what); SIM_CHECK(ok, "out-of-turn", "client %d: %s when its session is in state %d", c.id, what, (int)c.st); }
        void make(client& c)
        {
            c.s = std::make_unique<stream>(task); c.st = Idle; c.waiting.clear(); auto* x = &c; c.sink = std::make_unique<neolib::sink>(); auto& k = *c.sink; auto* s = c.s.get();
            k += s->connection_established([this, x]() { in(*x, "connection_established", x->st == Opening); x->st = Up; act(x, nullptr, "established"); });
            k += s->connection_failure([this, x](boost::system::error_code const&) { in(*x, "connection_failure", x->st == Opening); x->st = Failed; act(x, nullptr, "failure"); });
            k += s->packet_sent([this, x](P const& p) { in(*x, "packet_sent", x->st == Up); SIM_CHECK(!x->waiting.empty() && x->waiting.front() == p.contents(), "wrong-packet", "client %d: packet_sent for '%s'", x->id, p.contents().c_str()); x->waiting.pop_front(); act(x, nullptr, "sent"); });
            k += s->packet_arrived([this, x](P const& p) { in(*x, "packet_arrived", x->st == Up); std::string const b = p.contents(); SIM_CHECK(b.substr(0, 5) == "hello" || b == "raw", "wrong-packet", "client %d: '%s' arrived", x->id, b.c_str()); ++x->packets; act(x, nullptr, "arrived"); });
            k += s->transfer_failure([this, x](boost::system::error_code const&) { in(*x, "transfer_failure", x->st == Up); x->st = Broken; act(x, nullptr, "transfer_failure"); });
            k += s->connection_closed([this, x]() { in(*x, "connection_closed", x->st == Up || x->st == Broken); x->st = Idle; x->waiting.clear(); act(x, nullptr, "closed"); });
        }
        void close(client& c)
        {
            if (!c.s) return; bool const will = c.st == Up || c.st == Broken; if (!will) { c.st = Idle; c.waiting.clear(); }
            c.s->close();
        }
        void destroy(client& c) { if (!c.s) return; if (c.st == Opening) c.st = Failed; c.dying = true; { auto s = std::move(c.s); s.reset(); } c.dying = false; SIM_CHECK(c.st != Up && c.st != Broken, "not-closed", "client %d: destroyed while connected, and connection_closed was not triggered", c.id); c.st = Idle; sim::probe(depth ? "destroyed_in_callback" : "destroyed"); }
        void open(client& c)
        {
            if (!c.s || c.dying || c.s->opened()) return; static char const* const hosts[] = { "127.0.0.1", "server", "two", "nowhere" }; c.st = Opening; c.to = passive ? 4000 : (unsigned short)(sim::chance(75) ? 4000 : sim::chance(70) ? 4100 : 4999);
            auto* s = c.s.get(); int const mine = ++c.sessions; bool const ok = s->open(passive ? "server" : hosts[sim::chance(90) ? sim::rnd(3) : 3], c.to); if (!ok && c.sessions == mine && c.st == Opening) c.st = Failed; if (depth) sim::probe("opened_in_callback");
        }
        void send(client& c) { if (!c.s || c.dying || !c.s->opened() || c.st == Failed || c.st == Broken) return; std::string const b = "hi" + std::to_string(budget--) + "." + std::string(sim::chance(80) ? 0 : sim::rnd(3000), 'x') + "\n"; c.waiting.push_back(b); c.s->send_packet(P{ b }); }
        void drop(side& e) { if (e.dead || e.s == nullptr) return; if (e.owned) { sim::probe("owned_destroyed"); auto o = std::move(e.owned); o.reset(); e.dead = true; } else e.s->close(); }
        void destroy_server() { if (!srv || serverDying) return; serverDying = true; { auto s = std::move(srv); s.reset(); } serverDying = false; for (auto& e : sides) if (!e.taken) SIM_CHECK(e.dead, "not-removed", "stream %d of a destroyed server was not removed", e.id); sim::probe(depth ? "server_destroyed_in_callback" : "server_destroyed"); }
        bool create_server()
        {
            if (srv || serverDying) return true; try { bool const named = sim::chance(30); auto s = named ? std::make_unique<server>(task, std::string{ sim::flip() ? "server" : "two" }, (unsigned short)4000) : std::make_unique<server>(task, (unsigned short)4000); srv = std::move(s); if (named) sim::probe("named_server"); }
            catch (server::failed_to_resolve_local_host const&) { sim::probe("local_host_unresolved"); return false; }
            catch (boost::system::system_error const&) { sim::probe("server_refused"); return false; }
            serverSink = std::make_unique<neolib::sink>(); auto* mine = srv.get();
            *serverSink += srv->packet_stream_added([this, mine](stream& s) { SIM_CHECK(srv.get() == mine && !serverDying, "called-after-destruction", "packet_stream_added after the server was destroyed"); serve(s); });
            *serverSink += srv->packet_stream_removed([this](stream& s) { bool found = false; for (auto& e : sides) if (!e.dead && e.s == &s) { SIM_CHECK(!e.taken || serverDying, "removed-owned", "the server removes a stream it no longer owns"); found = true; if (!e.taken) e.dead = true; } SIM_CHECK(found, "removed-unknown", "the server removes a stream that it did not add or has removed"); act(nullptr, nullptr, "removed"); });
            *serverSink += srv->failed_to_accept_packet_stream([this, mine](boost::system::error_code const&) { SIM_CHECK(srv.get() == mine && !serverDying, "called-after-destruction", "failed_to_accept_packet_stream after the server was destroyed"); ++failedAccepts; sim::probe("failed_accept"); act(nullptr, nullptr, "failed_accept"); });
            return true;
        }
        void serve(stream& s)
        {
            sides.emplace_back(); auto* e = &sides.back(); e->id = (int)sides.size(); e->s = &s; e->sink = std::make_unique<neolib::sink>(); auto& k = *e->sink; sim::probe("accepted");
            auto alive = [e](char const* what) { SIM_CHECK(!e->dead, "called-after-destruction", "server stream %d: %s after it was removed or destroyed", e->id, what); SIM_CHECK(!e->broken || !std::strcmp(what, "connection_closed"), "out-of-turn", "server stream %d: %s after transfer_failure", e->id, what); };
            k += s.packet_arrived([this, e, alive](P const& p) { alive("packet_arrived"); if (passive || sim::chance(50)) { ++e->greeted; e->s->send_packet(P{ "hello" + p.contents().substr(0, 10) + "\n" }); } act(nullptr, e, "server arrived"); });
            k += s.packet_sent([this, e, alive](P const&) { alive("packet_sent"); act(nullptr, e, "server sent"); });
            k += s.transfer_failure([this, e, alive](boost::system::error_code const&) { alive("transfer_failure"); e->broken = true; act(nullptr, e, "server transfer_failure"); });
            k += s.connection_closed([this, e]() { if (!e->taken && e->dead) return; act(nullptr, e, "server closed"); });
            if (!passive && sim::chance(20)) { e->taken = true; e->owned = srv->take_ownership(s); SIM_CHECK(e->owned.get() == &s, "wrong-stream", "take_ownership returns another stream"); sim::probe("taken"); }
            act(nullptr, e, "added");
        }
        void act(client* c, side* e, char const* where)
        {
            (void)where; if (passive || depth >= 3 || budget <= 0 || !sim::chance(45)) return; ++depth; --budget;
            auto any = [&]() -> client& { return c && sim::chance(70) ? *c : clients[sim::rnd(clients.size())]; };
            auto anySide = [&]() -> side* { return e && sim::chance(70) ? e : sides.empty() ? nullptr : &sides[sim::rnd(sides.size())]; };
            switch (sim::rnd(9))
            {
            case 0: { auto& x = any(); if (!x.dying) close(x); sim::probe("closed_in_callback"); break; }
            case 1: { auto& x = any(); if (!x.dying) { close(x); open(x); } break; }
            case 2: { auto& x = any(); if (!x.dying) destroy(x); break; }
            case 3: { auto& x = any(); if (!x.dying) { destroy(x); graveyard(x); make(x); open(x); } break; }
            case 4: { for (int i = 1 + (int)sim::rnd(3); i > 0; --i) send(any()); break; }
            case 5: { if (auto* x = anySide()) { sim::probe("side_dropped_in_callback"); drop(*x); } break; }
            case 6: if (sim::chance(40)) destroy_server(); break;
            case 7: { auto& x = any(); open(x); break; }
            default: if (!srv && sim::chance(30)) { if (serverSink) sinks.push_back(std::move(serverSink)); create_server(); } break;
            }
            --depth;
        }
        std::vector<std::unique_ptr<neolib::sink>> sinks; // slots whose callback may be running
        void graveyard(client& c) { if (c.sink) sinks.push_back(std::move(c.sink)); }
        void pump(int n = 1) { for (; n > 0; --n) { task.work(); if (sim::chance(30)) sim::sleep_ns((std::int64_t)(1 + sim::rnd(20)) * 50 * sim::us); } }
        void run()
        {
            sim::net::name("server", { "127.0.0.1" }); sim::net::name("two", { "::1", "127.0.0.1" }); sim::set_time_limit(24 * 3600 * sim::sec);
            sim::net::intensity(sim::chance(25) ? 0 : (unsigned)(10 + sim::rnd(120))); budget = 10 + (int)sim::rnd(60);
            raw = sim::net::peer::listen(4100); create_server(); int const nc = 1 + (int)sim::rnd(3); for (int i = 0; i < nc; ++i) { clients.emplace_back(); clients.back().id = i; } for (auto& c : clients) make(c);
            for (int ops = 6 + (int)sim::rnd(40); ops > 0; --ops)
            {
                auto& c = clients[sim::rnd(clients.size())];
                switch (sim::rnd(12))
                {
                case 0: case 1: if (!c.s) { graveyard(c); make(c); } if (c.st == Failed) close(c); open(c); break;
                case 2: case 3: send(c); break;
                case 4: if (sim::chance(40)) close(c); break;
                case 5: if (sim::chance(40)) destroy(c); break;
                case 6: if (!sides.empty() && sim::chance(50)) drop(sides[sim::rnd(sides.size())]); break;
                case 7: if (!srv) { if (serverSink) sinks.push_back(std::move(serverSink)); create_server(); } else if (sim::chance(10)) destroy_server(); break;
                case 8: // somebody else
                {
                    auto p = raw.accept(); if (p.id >= 0) { peers.push_back(p); sim::probe("raw_accepted"); }
                    if (srv && sim::chance(40)) { auto q = sim::net::peer::connect(4000); if (q.id >= 0) { peers.push_back(q); sim::probe("raw_connected"); } }
                    if (!peers.empty()) { auto& q = peers[sim::rnd(peers.size())]; switch (sim::rnd(4)) { case 0: q.reset(); break; case 1: q.close(); break; default: q.send("raw\n"); break; } }
                    break;
                }
                default: pump(1 + (int)sim::rnd(5)); break;
                }
            }
            // faults stop, callbacks only look: a server that is there takes new clients, and they talk
            passive = true; sim::net::intensity(0); sim::set_faults(false); for (auto& p : peers) p.close();
            while (!create_server()) pump(); 
            for (auto& c : clients) { destroy(c); graveyard(c); make(c); c.packets = 0; open(c); std::string const b = "hi0\n"; c.waiting.push_back(b); c.s->send_packet(P{ b }); }
            auto done = [&] { for (auto& c : clients) if (c.packets == 0) return false; return true; };
            std::int64_t const t0 = sim::now(); while (!done() && sim::now() - t0 < 3600 * sim::sec) { pump(); sim::sleep_ns(sim::now() - t0 < 500 * sim::ms ? 5 * sim::ms : 10 * sim::sec); }
            for (auto& c : clients) SIM_CHECK(c.packets == 1, "no-service", "client %d connects to a server that is there and gets no answer in an hour (state %d, accept failures so far %d)", c.id, (int)c.st, failedAccepts);
            sim::probe("served_in_the_end"); for (auto& c : clients) destroy(c);
            for (int i = 0; i < 20; ++i) { pump(5); sim::sleep_ns(10 * sim::sec); }
            for (auto& e : sides) { if (e.owned) { drop(e); } SIM_CHECK(e.dead, "not-noticed", "server stream %d: the other side closed long ago and it was not removed", e.id); }
            sim::state(sides.size() * 16 + sinks.size()); destroy_server(); pump(3);
            for (auto& c : clients) c.sink.reset(); for (auto& e : sides) e.sink.reset(); serverSink.reset(); sinks.clear();
            SIM_CHECK(sim::net::open_sockets() == 0, "socket-leak", "%d sockets are still open", sim::net::open_sockets());
        }
    };
}
SIM_SCENARIO(stream_lifecycle) { begin_world(); auto w = std::make_unique<lifecycle>(); w->run(); }

// C12: name resolution: one outcome for each request, none for a requester that was removed or after the resolver is destroyed
namespace
{
    struct resolving
    {
        using resolver = neolib::tcp_resolver;
        struct asker : resolver::requester
        {
            resolving& w; int id; bool removed = false; std::map<std::string, int> pending; explicit asker(resolving& aW, int aId) : w{ aW }, id{ aId } {}
            void outcome(std::string const& h, bool good, resolver::iterator const* i)
            {
                SIM_CHECK(w.r != nullptr, "called-after-destruction", "requester %d: an outcome for %s after the resolver was destroyed", id, h.c_str());
                SIM_CHECK(!removed, "called-after-removal", "requester %d: an outcome for %s after it was removed", id, h.c_str()); SIM_CHECK(pending[h] > 0, "outcome-twice", "requester %d: more outcomes for %s than requests", id, h.c_str()); --pending[h];
                if (good) { SIM_CHECK(h != "nowhere", "wrong-outcome", "'nowhere' was resolved"); auto const a = i->operator->()->endpoint().address().to_string(); bool known = false; for (auto& n : w.names[h]) known = known || n == a; SIM_CHECK(known, "wrong-address", "%s is resolved to %s", h.c_str(), a.c_str()); sim::probe("resolved"); } else { SIM_CHECK(h == "nowhere" || w.faulty, "wrong-outcome", "%s was not resolved", h.c_str()); sim::probe("not_resolved"); }
                w.act(*this);
            }
            void host_resolved(std::string const& h, resolver::iterator i) override { outcome(h, true, &i); }
            void host_not_resolved(std::string const& h, boost::system::error_code const&) override { outcome(h, false, nullptr); }
        };
        pumped_task task; std::unique_ptr<resolver> r; std::deque<std::unique_ptr<asker>> askers; int made = 0, budget = 0; bool faulty = false, passive = false; std::map<std::string, std::vector<std::string>> names{ { "a", { "10.0.0.1" } }, { "b", { "::5", "10.0.0.2" } }, { "c", { "10.0.0.3", "10.0.0.4" } } };
        void ask(asker& a) { static char const* const h[] = { "a", "b", "c", "nowhere" }; std::string const n = h[sim::rnd(4)]; if (!r || a.removed) return; ++a.pending[n]; r->resolve(a, n, sim::flip() ? neolib::IPv4 : neolib::IPv4orIPv6); }
        void remove(asker& a) { if (a.removed) return; if (r) r->remove_requester(a); a.removed = true; sim::probe("removed"); }
        void act(asker& a)
        {
            if (passive || budget-- <= 0 || !sim::chance(40)) return;
            switch (sim::rnd(5))
            {
            case 0: case 1: ask(*askers[sim::rnd(askers.size())]); break;
            case 2: remove(sim::flip() ? a : *askers[sim::rnd(askers.size())]); break;
            case 3: if (sim::chance(50)) { r.reset(); sim::probe("destroyed_in_callback"); } break;
            default: { auto& b = askers[sim::rnd(askers.size())]; if (b.get() != &a) { remove(*b); b = std::make_unique<asker>(*this, made++); sim::probe("requester_destroyed"); } break; }
            }
        }
        void pump(int n) { for (; n > 0; --n) { task.work(); if (sim::flip()) sim::sleep_ns((std::int64_t)(1 + sim::rnd(50)) * sim::ms); } }
        void run()
        {
            for (auto& n : names) sim::net::name(n.first, n.second); sim::set_time_limit(24 * 3600 * sim::sec);
            faulty = sim::chance(60); sim::net::intensity(faulty ? (unsigned)(20 + sim::rnd(300)) : 0); budget = 30; r = std::make_unique<resolver>(task); for (int i = 1 + (int)sim::rnd(3); i > 0; --i) askers.push_back(std::make_unique<asker>(*this, made++));
            for (int ops = 4 + (int)sim::rnd(20); ops > 0; --ops)
                switch (sim::rnd(8))
                {
                case 0: case 1: case 2: ask(*askers[sim::rnd(askers.size())]); break;
                case 3: if (sim::chance(30)) remove(*askers[sim::rnd(askers.size())]); break;
                case 4: if (sim::chance(10)) { r.reset(); sim::probe("destroyed"); } break;
                case 5: { auto& b = askers[sim::rnd(askers.size())]; if (b->removed || sim::chance(20)) { remove(*b); b = std::make_unique<asker>(*this, made++); } if (!r && sim::chance(50)) { for (auto& a : askers) a = std::make_unique<asker>(*this, made++); r = std::make_unique<resolver>(task); } break; }
                default: pump(1 + (int)sim::rnd(3)); break;
                }
            passive = true; sim::net::intensity(0); sim::set_faults(false); for (int i = 0; i < 40; ++i) { pump(2); sim::sleep_ns(2 * sim::sec); }
            if (r) for (auto& a : askers) if (!a->removed) for (auto& p : a->pending) SIM_CHECK(p.second == 0, "no-outcome", "requester %d: %d requests for %s have no outcome after a minute", a->id, p.second, p.first.c_str());
            sim::state((std::uint64_t)made); r.reset(); askers.clear(); pump(2);
        }
    };
}
SIM_SCENARIO(resolver_requests) { begin_world(); auto w = std::make_unique<resolving>(); w->run(); }

// C13: packets of a byte stream do not depend on how it is cut up on its way
namespace
{
    template <typename P> struct framing
    {
        using stream = neolib::packet_stream<P, neolib::tcp_protocol>; using server = neolib::tcp_packet_stream_server<P>;
        pumped_task task; unsigned rate = 0;
        struct line // one direction of one connection, from a raw peer to a stream
        {
            std::string fed; std::vector<std::string> got; std::string gotBytes; bool closed = false;
            static std::vector<std::string> packets(std::string const& s) { std::vector<std::string> r; std::string cur; for (char ch : s) if (ch == '\r' || ch == '\n') { if (!cur.empty()) r.push_back(cur); cur.clear(); } else cur += ch; return r; }
            void arrived(P const& p, char const* who)
            {
                SIM_CHECK(!closed, "arrived-after-close", "%s: a packet arrives after the session ended", who); SIM_CHECK(!p.empty(), "empty", "%s: an empty packet arrives", who); got.push_back({ p.begin(), p.end() }); gotBytes += got.back();
                if constexpr (is_string((P*)nullptr)) { auto const e = packets(fed); std::size_t const i = got.size() - 1; SIM_CHECK(i < e.size() && e[i] == got[i], "wrong-packet", "%s: packet %zu is '%s' and should be '%s'", who, i, brief(got[i]).c_str(), i < e.size() ? brief(e[i]).c_str() : "(none)"); }
                else { SIM_CHECK(fed.compare(gotBytes.size() - got.back().size(), got.back().size(), got.back()) == 0, "wrong-bytes", "%s: wrong bytes arrive after %zu", who, gotBytes.size() - got.back().size()); }
            }
            bool all() const { if constexpr (is_string((P*)nullptr)) return got.size() == packets(fed).size(); else return gotBytes.size() == fed.size(); }
        };
        std::string bytes()
        {
            std::string r; for (int n = 1 + (int)sim::rnd(12); n > 0; --n)
                if constexpr (is_string((P*)nullptr)) switch (sim::rnd(8)) { case 0: r += "\r"; break; case 1: r += "\n"; break; case 2: r += "\r\n"; break; case 3: r += "\n\r"; break; case 4: r += std::string(500 + sim::rnd(1000), (char)('a' + sim::rnd(26))); break; default: r += std::string(1 + sim::rnd(5), (char)('a' + sim::rnd(26))); }
                else for (std::size_t k = sim::chance(20) ? 500 + sim::rnd(1000) : sim::rnd(6); k > 0; --k) r += (char)sim::rnd(256);
            return r;
        }
        void pump(int n) { for (; n > 0; --n) { task.work(); if (sim::flip()) sim::sleep_ns((std::int64_t)(1 + sim::rnd(30)) * 50 * sim::us); } }
        template <typename F> bool within(F f) { std::int64_t const t0 = sim::now(); while (!f() && sim::now() - t0 < 3600 * sim::sec) { pump(2); if (sim::now() - t0 > 200 * sim::ms) sim::net::intensity(0); sim::sleep_ns(sim::now() - t0 < 500 * sim::ms ? 5 * sim::ms : 10 * sim::sec); } sim::net::intensity(rate); return f(); }
        void run()
        {
            sim::net::name("peer", { "127.0.0.1" }); sim::set_time_limit(240 * 3600 * sim::sec);
            rate = sim::chance(15) ? 0 : (unsigned)(50 + sim::rnd(400)); sim::net::intensity(rate); bool const serving = sim::flip();
            std::unique_ptr<server> srv; sim::net::peer listener; stream* s = nullptr; std::unique_ptr<stream> mine; neolib::sink sink, serverSink; line* cur = nullptr; bool up = false; std::string sent; int unsent = 0;
            auto subscribe = [&](stream& x)
            {
                sink += x.connection_established([&]() { up = true; });
                sink += x.packet_arrived([&](P const& p) { SIM_CHECK(cur != nullptr, "wrong-packet", "a packet arrives before any connection"); cur->arrived(p, serving ? "server" : "client"); });
                sink += x.packet_sent([&](P const&) { --unsent; });
                sink += x.connection_closed([&]() { if (cur) cur->closed = true; up = false; s = nullptr; });
            };
            if (serving) { srv = std::make_unique<server>(task, (unsigned short)4000); serverSink += srv->packet_stream_added([&](stream& x) { s = &x; up = true; subscribe(x); }); serverSink += srv->packet_stream_removed([&](stream&) { if (cur) cur->closed = true; up = false; s = nullptr; }); } else { listener = sim::net::peer::listen(4100); mine = std::make_unique<stream>(task); subscribe(*mine); }
            for (int session = 1 + (int)sim::rnd(3); session > 0; --session)
            {
                line l; sim::net::peer peer; sent.clear(); unsent = 0;
                if (serving) { peer = sim::net::peer::connect(4000); SIM_CHECK(within([&] { return up; }), "no-outcome", "a connection is not accepted in an hour"); }
                else { mine->open("peer", 4100); s = mine.get(); SIM_CHECK(within([&] { if (peer.id < 0) peer = listener.accept(); return up && peer.id >= 0; }), "no-outcome", "open() has no outcome in an hour"); }
                cur = &l; std::string back;
                for (int n = 1 + (int)sim::rnd(8); n > 0 && s; --n)
                {
                    switch (sim::rnd(4))
                    {
                    case 0: case 1: { std::string const b = bytes(); l.fed += b; peer.send(b); break; }
                    case 2: { std::string b = bytes(); if (b.empty()) break; sent += b; ++unsent; s->send_packet(P{ b.data(), b.size() }); break; }
                    default: pump(1 + (int)sim::rnd(4)); break;
                    }
                    back += peer.recv(); SIM_CHECK(sent.compare(0, back.size(), back) == 0, "wrong-bytes", "the %zu bytes that the other party received are not those that were sent", back.size());
                }
                bool const tail = sim::flip(); // what a party has sent arrives, whether or not it ends the connection
                if (tail) SIM_CHECK(within([&] { back += peer.recv(); return l.all() && back.size() >= sent.size() && unsent == 0; }), "lost", "of %zu bytes %zu packets (%zu bytes) arrived in an hour, and of %zu sent %zu", l.fed.size(), l.got.size(), l.gotBytes.size(), sent.size(), back.size());
                SIM_CHECK(back == sent.substr(0, back.size()), "wrong-bytes", "the other party received %zu bytes of %zu and they are not those that were sent", back.size(), sent.size());
                peer.fin(); SIM_CHECK(within([&] { back += peer.recv(); return l.closed; }), "not-noticed", "the other party has finished, and the stream says it is connected an hour later");
                SIM_CHECK(l.all(), "lost", "%zu bytes were sent and the connection ended, and %zu packets (%zu bytes) arrived", l.fed.size(), l.got.size(), l.gotBytes.size()); sim::probe(tail ? "complete" : "complete_at_end");
                cur = nullptr; up = false; peer.close(); pump(3); sim::state(l.fed.size() * 64 + l.got.size());
            }
            sink.clear(); serverSink.clear(); mine.reset(); srv.reset(); pump(2); SIM_CHECK(sim::net::open_sockets() == 0, "socket-leak", "%d sockets are still open", sim::net::open_sockets());
        }
    };
}
SIM_SCENARIO(packet_framing)
{
    for (auto k : { "short_send", "short_recv", "net_split", "net_delay" }) sim::enable_fault(k, 60);
    sim::enable_fault("net_stall", 25); sim::net::enable(); neolib::allocate_service_provider(); (void)neolib::async_event_queue::instance();
    if (sim::flip()) { auto w = std::make_unique<framing<neolib::string_packet>>(); w->run(); } else { auto w = std::make_unique<framing<neolib::binary_packet>>(); w->run(); }
}
