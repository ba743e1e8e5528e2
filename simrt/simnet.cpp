// simulated TCP network behind the C library's socket, epoll, eventfd, timerfd and resolver calls (on after sim::net::enable())
#include "internal.h"
#include "simnet.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdarg.h>
#include <stdlib.h>
#include <poll.h>
#include <netdb.h>
#include <time.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <map>
#include <deque>
#include <memory>
#include <string>
#include <vector>
using namespace simi;
namespace
{
    enum { K_TCP, K_EPOLL, K_EVENT, K_TIMER };
    enum { S_NEW, S_LISTEN, S_CONNECTING, S_CONNECTED, S_FAILED };
    struct Seg { std::string b; i64 at; bool fin = false; };
    struct Sock; using SP = std::shared_ptr<Sock>;
    struct Dir { std::deque<Seg> fly; std::string rx; bool fin = false; u64 used() const { u64 n = rx.size(); for (auto& s : fly) n += s.b.size(); return n; } };
    struct Conn { Dir d[2]; i64 rstAt[2] = { -1, -1 }; bool rst[2] = { false, false }, gone[2] = { false, false }, finSent[2] = { false, false }; u64 cap; std::weak_ptr<Sock> s[2]; };
    struct Reg { u32 events; epoll_data_t data; u64 dirty; };
    struct Sock
    {
        int kind, fd, st = S_NEW; bool nb = false, peer = false, wrShut = false; sockaddr_storage local{}, remote{}; unsigned short port = 0; bool bound = false; int family = AF_INET;
        std::shared_ptr<Conn> c; int side = 0; i64 connectAt = -1; int connectErr = 0, soerr = 0; bool closeNow = false; std::deque<SP> backlog;
        u64 count = 0; i64 expiry = -1, interval = 0; std::map<int, Reg> regs; std::map<u64, int> watchers;
    };
    struct Net
    {
        std::map<int, SP> s; int next = 0x50000000, eph = 30000; bool on = false, cut = false; unsigned permille = 0; u64 edge = 0, nresets = 0; std::map<std::string, std::vector<std::string>> names; std::vector<std::shared_ptr<Conn>> conns; int nsock = 0;
        std::vector<SP> connecting, peers;
    };
    Net* g; Net& N() { if (!g) g = new Net; return *g; }
    bool on() { return g && g->on && active(); }
    bool ours(int fd) { return fd >= 0x50000000 && g; }
    template <typename T> void real(T& f, char const* n) { if (!f) f = (T)dlsym(RTLD_NEXT, n); }
    bool boom(char const* k, unsigned mul = 1) { return N().permille && sim::fault(k, N().permille * mul); }
    SP get(int fd) { auto it = N().s.find(fd); return it == N().s.end() ? nullptr : it->second; }
    int err(int e) { errno = e; return -1; }
    void sync(Sock* s) { hb_acquire(s); hb_release(s, true); }
    void edge(Sock* s) { if (!s || s->fd < 0) return; for (auto& e : N().s) if (e.second->kind == K_EPOLL) { auto r = e.second->regs.find(s->fd); if (r != e.second->regs.end()) r->second.dirty = ++N().edge; } wake_obj(B_IO, g, MAXT); }
    unsigned short port_of(sockaddr const* a) { return a->sa_family == AF_INET6 ? ntohs(((sockaddr_in6 const*)a)->sin6_port) : ntohs(((sockaddr_in const*)a)->sin_port); }
    void set_addr(sockaddr_storage& st, int family, unsigned short port, bool loop) { memset(&st, 0, sizeof st); st.ss_family = (sa_family_t)family; if (family == AF_INET6) { auto& a = (sockaddr_in6&)st; a.sin6_port = htons(port); if (loop) a.sin6_addr = in6addr_loopback; } else { auto& a = (sockaddr_in&)st; a.sin_port = htons(port); a.sin_addr.s_addr = loop ? htonl(INADDR_LOOPBACK) : 0; } }
    i64 latency() { i64 t = 20000; if (boom("net_delay", 2)) t += 1000 + (i64)sim::fault_value("net_delay", 20 * sim::ms); if (boom("net_stall")) t += (i64)sim::fault_value("net_stall", 20) * sim::sec; return t; }
    SP listener(unsigned short port) { for (auto& e : N().s) if (e.second->kind == K_TCP && e.second->st == S_LISTEN && e.second->port == port) return e.second; for (auto& p : N().peers) if (p && p->st == S_LISTEN && p->port == port) return p; return nullptr; }
    void reset(Conn& c, int to) { if (c.rstAt[to] < 0 && !c.gone[to]) c.rstAt[to] = now() + latency(); }
    void kill(Conn& c) { ++N().nresets; for (int i = 0; i < 2; ++i) { c.d[i].fly.clear(); if (!c.gone[i] && !c.rst[i]) c.rstAt[i] = now(); } }
    // ---- moves what is due; c.d[i] flows from side i to side 1-i ----
    void deliver()
    {
        Net& n = N(); if (n.cut) return; i64 const t = now();
        for (std::size_t i = 0; i < n.connecting.size();)
        {
            SP s = n.connecting[i]; bool const dead = s->fd < 0 && !s->peer;
            if (!dead && s->connectAt > t) { ++i; continue; }
            n.connecting.erase(n.connecting.begin() + (long)i); if (dead || s->st != S_CONNECTING) continue;
            SP l = s->connectErr ? nullptr : listener(s->port);
            if (!l) { s->st = S_FAILED; s->soerr = s->connectErr ? s->connectErr : ECONNREFUSED; edge(s.get()); continue; }
            auto c = std::make_shared<Conn>(); static u64 const caps[] = { 65536, 65536, 4096, 1024, 100, 17, 1 }; c->cap = caps[n.permille ? sim::fault_value("net_split", 7) : 0];
            SP a = std::make_shared<Sock>(); a->kind = K_TCP; a->fd = -1; a->st = S_CONNECTED; a->c = c; a->side = 1; a->family = s->family; set_addr(a->local, s->family, s->port, true); a->remote = s->local; set_addr(a->remote, s->family, port_of((sockaddr*)&s->local), true);
            s->c = c; s->side = 0; s->st = S_CONNECTED; c->s[0] = s; c->s[1] = a; n.conns.push_back(c); l->backlog.push_back(a); edge(l.get()); edge(s.get());
        }
        for (std::size_t k = 0; k < n.conns.size();)
        {
            Conn& c = *n.conns[k];
            for (int i = 0; i < 2; ++i)
            {
                Dir& d = c.d[i]; SP to = c.s[1 - i].lock();
                while (!d.fly.empty() && d.fly.front().at <= t && !c.rst[1 - i])
                {
                    Seg s = d.fly.front();
                    if (c.gone[1 - i]) { bool const data = !s.fin; d.fly.clear(); if (data) reset(c, i); break; } // data for a closed socket
                    if (!s.fin && boom("net_reset")) { kill(c); break; }
                    d.fly.pop_front(); d.rx += s.b; if (s.fin) d.fin = true; edge(to.get());
                }
            }
            for (int i = 0; i < 2; ++i) if (c.rstAt[i] >= 0 && c.rstAt[i] <= t && !c.rst[i]) { c.rst[i] = true; c.d[i].fly.clear(); if (SP s = c.s[i].lock()) { s->soerr = ECONNRESET; edge(s.get()); } }
            if (c.gone[0] && c.gone[1]) n.conns.erase(n.conns.begin() + (long)k); else ++k;
        }
    }
    i64 next_time()
    {
        Net& n = N(); i64 m = INT64_MAX; auto upd = [&](i64 x) { if (x >= 0 && x < m) m = x; };
        if (!n.cut) { for (auto& s : n.connecting) upd(s->connectAt); for (auto& c : n.conns) for (int i = 0; i < 2; ++i) { if (!c->d[i].fly.empty()) upd(c->d[i].fly.front().at); if (!c->rst[i]) upd(c->rstAt[i]); } }
        for (auto& e : n.s) if (e.second->kind == K_TIMER) upd(e.second->expiry);
        return m;
    }
    u32 ready(Sock& s)
    {
        switch (s.kind)
        {
        case K_EVENT: return (s.count ? EPOLLIN : 0) | EPOLLOUT;
        case K_TIMER: return s.expiry >= 0 && s.expiry <= now() ? EPOLLIN : 0;
        case K_EPOLL: return 0;
        }
        switch (s.st)
        {
        case S_NEW: return EPOLLOUT | EPOLLHUP;
        case S_LISTEN: return s.backlog.empty() ? 0 : EPOLLIN;
        case S_CONNECTING: return 0;
        case S_FAILED: return EPOLLIN | EPOLLOUT | EPOLLHUP | (s.soerr ? EPOLLERR : 0);
        }
        Conn& c = *s.c; Dir& in = c.d[1 - s.side]; Dir& out = c.d[s.side]; u32 r = 0;
        if (!in.rx.empty() || in.fin) r |= EPOLLIN; if (in.fin) r |= EPOLLRDHUP;
        if (c.rst[s.side]) return r | EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLRDHUP | (s.soerr ? EPOLLERR : 0);
        if (in.fin && s.wrShut) r |= EPOLLHUP;
        if (s.wrShut || out.used() < c.cap) r |= EPOLLOUT;
        return r;
    }
    template <typename F> bool wait(i64 deadline, F f) // f() true: done
    {
        for (;;)
        {
            deliver(); if (f()) return true; if (deadline >= 0 && now() >= deadline) return false;
            i64 n = next_time(); i64 dl = deadline < 0 ? n : n < deadline ? n : deadline; if (dl != INT64_MAX && dl <= now()) dl = now() + 1;
            block(B_IO, g, dl == INT64_MAX ? -1 : dl);
        }
    }
    int new_fd(int kind) { Net& n = N(); SP s = std::make_shared<Sock>(); s->kind = kind; s->fd = n.next++; n.s[s->fd] = s; if (kind == K_TCP) ++n.nsock; return s->fd; }
    void shut_write(Sock& s, i64 lat) { if (s.wrShut || !s.c) { s.wrShut = true; return; } s.wrShut = true; Dir& d = s.c->d[s.side]; i64 at = now() + lat; if (!d.fly.empty() && d.fly.back().at > at) at = d.fly.back().at; if (!s.c->rst[s.side]) d.fly.push_back({ "", at, true }); }
    void hang_up(Sock& s)
    {
        if (s.st == S_LISTEN) { for (auto& b : s.backlog) { reset(*b->c, 0); b->c->gone[1] = true; } s.backlog.clear(); }
        if (s.c) { Conn& c = *s.c; if (!c.rst[s.side]) { if (!c.d[1 - s.side].rx.empty()) { c.d[s.side].fly.clear(); reset(c, 1 - s.side); } else shut_write(s, latency()); } c.gone[s.side] = true; c.d[1 - s.side].rx.clear(); }
        s.st = S_FAILED;
    }
    i64 queue(Sock& s, std::string const& b)
    {
        Dir& d = s.c->d[s.side]; std::size_t at = 0;
        while (at < b.size())
        {
            std::size_t k = b.size() - at; if (k > 1 && boom("net_split", 4)) k = 1 + sim::fault_value("net_split", k - 1);
            i64 t = now() + latency(); if (!d.fly.empty() && d.fly.back().at > t) t = d.fly.back().at; d.fly.push_back({ b.substr(at, k), t, false }); at += k;
        }
        return (i64)b.size();
    }
    ssize_t do_send(Sock& s, std::string b)
    {
        deliver(); sync(&s);
        if (s.kind == K_EVENT) { u64 v; if (b.size() != 8) return err(EINVAL); memcpy(&v, b.data(), 8); s.count += v; edge(&s); return 8; }
        if (s.kind != K_TCP || s.st != S_CONNECTED) return err(s.kind == K_TCP ? (s.soerr ? s.soerr : EPIPE) : EINVAL);
        Conn& c = *s.c; if (s.soerr) { int e = s.soerr; s.soerr = 0; return err(e); } if (c.rst[s.side] || s.wrShut) return err(EPIPE);
        if (b.empty()) return 0;
        if (boom("net_reset")) { kill(c); deliver(); s.soerr = 0; return err(ECONNRESET); }
        u64 used = c.d[s.side].used(); if (used >= c.cap) return err(EAGAIN);
        u64 k = b.size(); if (k > c.cap - used) k = c.cap - used; if (k > 1 && boom("short_send", 4)) k = 1 + sim::fault_value("short_send", k - 1);
        return queue(s, b.substr(0, k));
    }
    ssize_t do_recv(Sock& s, char* b, u64 n, bool peek = false)
    {
        deliver(); sync(&s);
        if (s.kind == K_EVENT) { if (!s.count) return err(EAGAIN); if (n < 8) return err(EINVAL); memcpy(b, &s.count, 8); s.count = 0; return 8; }
        if (s.kind == K_TIMER) { if (!(ready(s) & EPOLLIN)) return err(EAGAIN); u64 v = 1; if (s.interval > 0) while (s.expiry <= now()) s.expiry += s.interval; else s.expiry = -1; memcpy(b, &v, 8); return 8; }
        if (s.kind != K_TCP) return err(EINVAL); if (s.st != S_CONNECTED) { if (s.soerr) { int e = s.soerr; s.soerr = 0; return err(e); } return err(ENOTCONN); }
        Conn& c = *s.c; Dir& d = c.d[1 - s.side]; check_heap(b, n, true, 0);
        if (!d.rx.empty())
        {
            u64 k = d.rx.size() < n ? d.rx.size() : n; if (k > 1 && boom("short_recv", 4)) k = 1 + sim::fault_value("short_recv", k - 1);
            memcpy(b, d.rx.data(), k); if (!peek) { bool const full = d.used() >= c.cap; d.rx.erase(0, k); if (full) { SP o = c.s[1 - s.side].lock(); edge(o.get()); } } return (ssize_t)k;
        }
        if (s.soerr) { int e = s.soerr; s.soerr = 0; return err(e); }
        if (d.fin || c.rst[s.side]) return 0;
        return err(EAGAIN);
    }
    std::string gather(iovec const* v, std::size_t c) { std::string s; for (std::size_t i = 0; i < c; ++i) { check_heap(v[i].iov_base, v[i].iov_len, false, 0); s.append((char const*)v[i].iov_base, v[i].iov_len); } return s; }
    ssize_t scatter(Sock& s, iovec const* v, std::size_t c) { ssize_t t = 0; for (std::size_t i = 0; i < c; ++i) if (v[i].iov_len) { ssize_t k = do_recv(s, (char*)v[i].iov_base, v[i].iov_len); if (k < 0) return t ? t : k; t += k; if ((u64)k < v[i].iov_len) break; } return t; }
    template <typename F> ssize_t blocking(Sock& s, u32 ev, F f) { for (;;) { ssize_t r = f(); if (r >= 0 || errno != EAGAIN || s.nb || s.kind == K_EVENT) return r; wait(-1, [&] { return (ready(s) & (ev | EPOLLHUP | EPOLLERR)) != 0; }); } }
    addrinfo* make_ai(std::string const& addr, int port, addrinfo const* h)
    {
        in_addr a4; in6_addr a6; int fam = inet_pton(AF_INET, addr.c_str(), &a4) == 1 ? AF_INET : inet_pton(AF_INET6, addr.c_str(), &a6) == 1 ? AF_INET6 : 0;
        if (!fam || (h && h->ai_family && h->ai_family != fam)) return nullptr;
        std::size_t const sl = fam == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6); auto* p = (addrinfo*)fw_alloc(sizeof(addrinfo) + sizeof(sockaddr_storage)); memset((void*)p, 0, sizeof(addrinfo) + sizeof(sockaddr_storage));
        p->ai_family = fam; p->ai_socktype = h && h->ai_socktype ? h->ai_socktype : SOCK_STREAM; p->ai_protocol = IPPROTO_TCP; p->ai_addrlen = (socklen_t)sl; p->ai_addr = (sockaddr*)(p + 1); p->ai_addr->sa_family = (sa_family_t)fam;
        if (fam == AF_INET) { auto* a = (sockaddr_in*)p->ai_addr; a->sin_addr = a4; a->sin_port = htons((u16)port); } else { auto* a = (sockaddr_in6*)p->ai_addr; a->sin6_addr = a6; a->sin6_port = htons((u16)port); }
        return p;
    }
    void copy_addr(sockaddr_storage const& st, sockaddr* a, socklen_t* l) { if (!a || !l) return; socklen_t n = st.ss_family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in); memcpy(a, &st, *l < n ? *l : n); *l = n; }
}
namespace simi
{
    bool net_owns(int fd) { return ours(fd); }
    int net_close(int fd) { SP s = get(fd); if (!s) return err(EBADF); sync_point(); for (auto& e : N().s) if (e.second->kind == K_EPOLL) e.second->regs.erase(fd); if (s->kind == K_TCP) { hang_up(*s); --N().nsock; } s->fd = -1; N().s.erase(fd); wake_obj(B_IO, g, MAXT); return 0; }
    ssize_t net_read(int fd, void* b, size_t n) { SP s = get(fd); if (!s) return err(EBADF); sync_point(); return blocking(*s, EPOLLIN, [&] { return do_recv(*s, (char*)b, n); }); }
    ssize_t net_write(int fd, void const* b, size_t n) { SP s = get(fd); if (!s) return err(EBADF); sync_point(); return blocking(*s, EPOLLOUT, [&] { return do_send(*s, std::string((char const*)b, n)); }); }
    ssize_t net_writev(int fd, iovec const* v, int c) { SP s = get(fd); if (!s) return err(EBADF); sync_point(); return blocking(*s, EPOLLOUT, [&] { return do_send(*s, gather(v, (std::size_t)c)); }); }
}
#define REAL(ret, name, args) static ret (*r) args; real(r, #name)
extern "C" {
int epoll_create1(int f) { if (on()) { Fw fw; sync_point(); return new_fd(K_EPOLL); } REAL(int, epoll_create1, (int)); return r(f); }
int epoll_create(int f) { if (on()) { Fw fw; return new_fd(K_EPOLL); } REAL(int, epoll_create, (int)); return r(f); }
int eventfd(unsigned c, int f) { if (on()) { Fw fw; int fd = new_fd(K_EVENT); get(fd)->count = c; get(fd)->nb = f & EFD_NONBLOCK; return fd; } REAL(int, eventfd, (unsigned, int)); return r(c, f); }
int timerfd_create(int c, int f) { if (on()) { Fw fw; int fd = new_fd(K_TIMER); get(fd)->nb = true; return fd; } REAL(int, timerfd_create, (int, int)); return r(c, f); }
int timerfd_settime(int fd, int fl, itimerspec const* n, itimerspec* o)
{
    if (!ours(fd)) { REAL(int, timerfd_settime, (int, int, itimerspec const*, itimerspec*)); return r(fd, fl, n, o); }
    Fw fw; SP s = get(fd); if (!s) return err(EBADF); sync_point(); if (o) memset(o, 0, sizeof *o); i64 v = n->it_value.tv_sec * 1000000000ll + n->it_value.tv_nsec;
    s->interval = n->it_interval.tv_sec * 1000000000ll + n->it_interval.tv_nsec; s->expiry = v == 0 ? -1 : (fl & TFD_TIMER_ABSTIME) ? v : now() + v; edge(s.get()); return 0;
}
int epoll_ctl(int ep, int op, int fd, epoll_event* ev)
{
    if (!ours(ep)) { REAL(int, epoll_ctl, (int, int, int, epoll_event*)); return r(ep, op, fd, ev); }
    Fw fw; SP e = get(ep); if (!e || e->kind != K_EPOLL) return err(EBADF); sync_point(); SP s = get(fd); if (!s) return err(EBADF); deliver(); auto it = e->regs.find(fd);
    if (op == EPOLL_CTL_DEL) { if (it == e->regs.end()) return err(ENOENT); e->regs.erase(it); return 0; }
    if (op == EPOLL_CTL_ADD ? it != e->regs.end() : it == e->regs.end()) return err(op == EPOLL_CTL_ADD ? EEXIST : ENOENT);
    e->regs[fd] = Reg{ ev->events, ev->data, ++N().edge }; sync(e.get()); wake_obj(B_IO, g, MAXT); return 0;
}
int epoll_wait(int ep, epoll_event* ev, int max, int timeout)
{
    if (!ours(ep)) { REAL(int, epoll_wait, (int, epoll_event*, int, int)); return r(ep, ev, max, timeout); }
    Fw fw; SP e = get(ep); if (!e) return err(EBADF); sync_point(); int n = 0;
    wait(timeout < 0 ? -1 : now() + timeout * 1000000ll, [&]
    {
        std::map<u64, std::pair<int, u32>> q;
        for (auto& x : e->regs) { SP s = get(x.first); if (!s) continue; u32 m = ready(*s) & (x.second.events | EPOLLERR | EPOLLHUP); if (m && (!(x.second.events & EPOLLET) || x.second.dirty)) q[(x.second.dirty ? x.second.dirty : ~0ull - (u64)x.first)] = { x.first, m }; }
        for (auto& x : q) if (n < max) { Reg& g = e->regs[x.second.first]; g.dirty = 0; ev[n].events = x.second.second; ev[n].data = g.data; ++n; }
        return n > 0;
    });
    sync(e.get()); return n;
}
int socket(int f, int t, int p)
{
    if (!on()) { REAL(int, socket, (int, int, int)); return r(f, t, p); }
    Fw fw; sync_point(); if (boom("socket_error")) { static int const e[] = { EMFILE, ENFILE, ENOBUFS, EACCES }; return err(e[sim::fault_value("socket_error", 4)]); }
    int fd = new_fd(K_TCP); SP s = get(fd); s->family = f; s->nb = t & SOCK_NONBLOCK; set_addr(s->local, f, 0, false); return fd;
}
int bind(int fd, sockaddr const* a, socklen_t l)
{
    if (!ours(fd)) { REAL(int, bind, (int, sockaddr const*, socklen_t)); return r(fd, a, l); }
    Fw fw; SP s = get(fd); if (!s) return err(EBADF); sync_point(); unsigned short port = port_of(a);
    if (boom("bind_error") || (port && listener(port))) return err(EADDRINUSE);
    memcpy(&s->local, a, l < sizeof s->local ? l : sizeof s->local); if (!port) { port = (unsigned short)N().eph++; if (a->sa_family == AF_INET6) ((sockaddr_in6&)s->local).sin6_port = htons(port); else ((sockaddr_in&)s->local).sin_port = htons(port); }
    s->bound = true; return 0;
}
int listen(int fd, int b)
{
    if (!ours(fd)) { REAL(int, listen, (int, int)); return r(fd, b); }
    Fw fw; SP s = get(fd); if (!s) return err(EBADF); sync_point(); unsigned short p = port_of((sockaddr*)&s->local); if (listener(p)) return err(EADDRINUSE); s->port = p; s->st = S_LISTEN; return 0;
}
int connect(int fd, sockaddr const* a, socklen_t l)
{
    if (!ours(fd)) { REAL(int, connect, (int, sockaddr const*, socklen_t)); return r(fd, a, l); }
    Fw fw; SP s = get(fd); if (!s) return err(EBADF); sync_point(); sync(s.get());
    if (s->st == S_CONNECTING) return err(EALREADY); if (s->st == S_CONNECTED) return err(EISCONN); if (s->st == S_FAILED && s->soerr) { int e = s->soerr; s->soerr = 0; return err(e); }
    memcpy(&s->remote, a, l < sizeof s->remote ? l : sizeof s->remote); s->port = port_of(a); if (!s->bound) { set_addr(s->local, s->family, (unsigned short)N().eph++, true); s->bound = true; } else if (s->local.ss_family == AF_INET) { ((sockaddr_in&)s->local).sin_addr.s_addr = htonl(INADDR_LOOPBACK); }
    if (boom("connect_error")) { static int const e[] = { ENETUNREACH, ECONNREFUSED, ETIMEDOUT, EHOSTUNREACH }; u64 k = sim::fault_value("connect_error", 4); if (!k) return err(e[0]); s->connectErr = e[k]; }
    s->st = S_CONNECTING; s->connectAt = now() + latency() + (s->connectErr == ETIMEDOUT ? 75 * sim::sec : 0); N().connecting.push_back(s);
    if (s->nb) return err(EINPROGRESS);
    wait(-1, [&] { return s->st != S_CONNECTING; }); if (s->st == S_CONNECTED) return 0; int e = s->soerr; s->soerr = 0; return err(e);
}
static int do_accept(int fd, sockaddr* a, socklen_t* l, int flags)
{
    SP s = get(fd); if (!s) return err(EBADF); sync_point(); deliver(); sync(s.get()); if (s->st != S_LISTEN) return err(EINVAL);
    if (s->backlog.empty() && !s->nb) wait(-1, [&] { return !s->backlog.empty(); });
    if (s->backlog.empty()) return err(EAGAIN);
    if (boom("accept_error", 3)) { static int const e[] = { ECONNABORTED, EMFILE, ENFILE, ENOBUFS }; u64 k = sim::fault_value("accept_error", 4); if (!k) { SP b = s->backlog.front(); s->backlog.pop_front(); kill(*b->c); b->c->gone[1] = true; } edge(s.get()); return err(e[k]); }
    SP b = s->backlog.front(); s->backlog.pop_front(); b->fd = N().next++; b->nb = flags & SOCK_NONBLOCK; N().s[b->fd] = b; ++N().nsock; sync(b.get()); copy_addr(b->remote, a, l); if (!s->backlog.empty()) edge(s.get()); return b->fd;
}
int accept(int fd, sockaddr* a, socklen_t* l) { if (!ours(fd)) { REAL(int, accept, (int, sockaddr*, socklen_t*)); return r(fd, a, l); } Fw fw; return do_accept(fd, a, l, 0); }
int accept4(int fd, sockaddr* a, socklen_t* l, int f) { if (!ours(fd)) { REAL(int, accept4, (int, sockaddr*, socklen_t*, int)); return r(fd, a, l, f); } Fw fw; return do_accept(fd, a, l, f); }
ssize_t send(int fd, void const* b, size_t n, int f) { if (!ours(fd)) { REAL(ssize_t, send, (int, void const*, size_t, int)); return r(fd, b, n, f); } Fw fw; check_heap(b, n, false, 0); return net_write(fd, b, n); }
ssize_t sendmsg(int fd, msghdr const* m, int f) { if (!ours(fd)) { REAL(ssize_t, sendmsg, (int, msghdr const*, int)); return r(fd, m, f); } Fw fw; return net_writev(fd, m->msg_iov, (int)m->msg_iovlen); }
ssize_t recv(int fd, void* b, size_t n, int f) { if (!ours(fd)) { REAL(ssize_t, recv, (int, void*, size_t, int)); return r(fd, b, n, f); } Fw fw; SP s = get(fd); if (!s) return err(EBADF); sync_point(); return blocking(*s, EPOLLIN, [&] { return do_recv(*s, (char*)b, n, f & MSG_PEEK); }); }
ssize_t recvmsg(int fd, msghdr* m, int f) { if (!ours(fd)) { REAL(ssize_t, recvmsg, (int, msghdr*, int)); return r(fd, m, f); } Fw fw; SP s = get(fd); if (!s) return err(EBADF); sync_point(); m->msg_flags = 0; return blocking(*s, EPOLLIN, [&] { return scatter(*s, m->msg_iov, m->msg_iovlen); }); }
ssize_t readv(int fd, iovec const* v, int c) { if (!ours(fd)) { REAL(ssize_t, readv, (int, iovec const*, int)); return r(fd, v, c); } Fw fw; SP s = get(fd); if (!s) return err(EBADF); sync_point(); return blocking(*s, EPOLLIN, [&] { return scatter(*s, v, (std::size_t)c); }); }
int shutdown(int fd, int how) { if (!ours(fd)) { REAL(int, shutdown, (int, int)); return r(fd, how); } Fw fw; SP s = get(fd); if (!s) return err(EBADF); sync_point(); if (s->st != S_CONNECTED) return err(ENOTCONN); if (how != SHUT_RD) shut_write(*s, latency()); if (how != SHUT_WR) s->c->d[1 - s->side].fin = true; edge(s.get()); return 0; }
int getsockopt(int fd, int lv, int o, void* v, socklen_t* l)
{
    if (!ours(fd)) { REAL(int, getsockopt, (int, int, int, void*, socklen_t*)); return r(fd, lv, o, v, l); }
    Fw fw; SP s = get(fd); if (!s) return err(EBADF); deliver(); int x = 0; if (lv == SOL_SOCKET && o == SO_ERROR) { x = s->soerr; s->soerr = 0; } else if (lv == SOL_SOCKET && o == SO_TYPE) x = SOCK_STREAM; memset(v, 0, *l); memcpy(v, &x, *l < 4 ? *l : 4); return 0;
}
int setsockopt(int fd, int lv, int o, void const* v, socklen_t l) { if (!ours(fd)) { REAL(int, setsockopt, (int, int, int, void const*, socklen_t)); return r(fd, lv, o, v, l); } Fw fw; return get(fd) ? 0 : err(EBADF); }
int getsockname(int fd, sockaddr* a, socklen_t* l) { if (!ours(fd)) { REAL(int, getsockname, (int, sockaddr*, socklen_t*)); return r(fd, a, l); } Fw fw; SP s = get(fd); if (!s) return err(EBADF); copy_addr(s->local, a, l); return 0; }
int getpeername(int fd, sockaddr* a, socklen_t* l) { if (!ours(fd)) { REAL(int, getpeername, (int, sockaddr*, socklen_t*)); return r(fd, a, l); } Fw fw; SP s = get(fd); if (!s) return err(EBADF); deliver(); if (s->st != S_CONNECTED || s->c->rst[s->side]) return err(ENOTCONN); copy_addr(s->remote, a, l); return 0; }
int ioctl(int fd, unsigned long q, ...) { va_list a; va_start(a, q); void* p = va_arg(a, void*); va_end(a); if (!ours(fd)) { REAL(int, ioctl, (int, unsigned long, ...)); return r(fd, q, p); } Fw fw; SP s = get(fd); if (!s) return err(EBADF); if (q == FIONBIO) { s->nb = *(int*)p != 0; return 0; } if (q == FIONREAD) { deliver(); *(int*)p = s->c ? (int)s->c->d[1 - s->side].rx.size() : 0; return 0; } return err(EINVAL); }
int fcntl(int fd, int c, ...) { va_list a; va_start(a, c); void* p = va_arg(a, void*); va_end(a); if (!ours(fd)) { REAL(int, fcntl, (int, int, ...)); return r(fd, c, p); } Fw fw; SP s = get(fd); if (!s) return err(EBADF); if (c == F_SETFL) s->nb = (i64)p & O_NONBLOCK; if (c == F_GETFL) return s->nb ? O_NONBLOCK : 0; return 0; }
int poll(pollfd* p, nfds_t n, int timeout)
{
    bool mine = false; for (nfds_t i = 0; i < n; ++i) mine = mine || ours(p[i].fd);
    if (!mine) { REAL(int, poll, (pollfd*, nfds_t, int)); return r(p, n, timeout); }
    Fw fw; sync_point(); int k = 0;
    wait(timeout < 0 ? -1 : now() + timeout * 1000000ll, [&] { k = 0; for (nfds_t i = 0; i < n; ++i) { SP s = get(p[i].fd); u32 m = s ? ready(*s) : 0; p[i].revents = (short)(s ? m & ((u32)(unsigned short)p[i].events | EPOLLERR | EPOLLHUP) : (u32)POLLNVAL); if (p[i].revents) ++k; } return k > 0; });
    return k;
}
int getaddrinfo(char const* host, char const* service, addrinfo const* h, addrinfo** out)
{
    if (!on()) { REAL(int, getaddrinfo, (char const*, char const*, addrinfo const*, addrinfo**)); return r(host, service, h, out); }
    Fw fw; sync_point(); i64 dl = now() + 50000 + (boom("resolve_delay", 3) ? (i64)sim::fault_value("resolve_delay", 20) * 100 * sim::ms : 0); while (now() < dl) block(B_SLEEP, nullptr, dl);
    if (boom("resolve_error", 2)) { static int const e[] = { EAI_AGAIN, EAI_NONAME, EAI_FAIL, EAI_MEMORY }; return e[sim::fault_value("resolve_error", 4)]; }
    std::vector<std::string> a; in6_addr t; if (!host || !*host) a = { "0.0.0.0", "::" }; else if (inet_pton(AF_INET, host, &t) == 1 || inet_pton(AF_INET6, host, &t) == 1) a = { host }; else { auto it = N().names.find(host); if (it == N().names.end()) return EAI_NONAME; a = it->second; }
    addrinfo* first = nullptr; addrinfo** last = &first; for (auto& x : a) if (addrinfo* p = make_ai(x, service ? atoi(service) : 0, h)) { *last = p; last = &p->ai_next; }
    if (!first) return EAI_NONAME; *out = first; return 0;
}
void freeaddrinfo(addrinfo* p) { if (!g || !g->on) { REAL(void, freeaddrinfo, (addrinfo*)); r(p); return; } Fw fw; while (p) { addrinfo* n = p->ai_next; fw_free(p); p = n; } }
}
namespace sim::net
{
    void enable() { Fw fw; N().on = true; }
    void intensity(unsigned p) { Fw fw; N().permille = p; if (!p) for (auto& c : N().conns) { c->cap = 65536; for (auto& w : c->s) { SP s = w.lock(); edge(s.get()); } } }
    void name(std::string const& host, std::vector<std::string> const& a) { Fw fw; std::vector<std::string> c; for (auto& x : a) c.push_back(std::string(x.data(), x.size())); N().names[std::string(host.data(), host.size())] = c; }
    int open_sockets() { Fw fw; return N().nsock; }
    std::uint64_t resets() { Fw fw; return N().nresets; }
    void partition(bool o) { Fw fw; N().cut = o; }
    static SP P(int id) { return N().peers[(std::size_t)id]; }
    static peer add(SP s) { s->peer = true; N().peers.push_back(s); peer p; p.id = (int)N().peers.size() - 1; return p; }
    peer peer::connect(unsigned short port) { Fw fw; SP s = std::make_shared<Sock>(); s->kind = K_TCP; s->fd = -1; s->port = port; set_addr(s->local, AF_INET, (unsigned short)N().eph++, true); s->st = S_CONNECTING; s->connectAt = simi::now() + latency(); N().connecting.push_back(s); return add(s); }
    peer peer::listen(unsigned short port) { Fw fw; SP s = std::make_shared<Sock>(); s->kind = K_TCP; s->fd = -1; s->port = port; s->st = S_LISTEN; return add(s); }
    peer peer::accept() { Fw fw; deliver(); SP s = P(id); if (s->backlog.empty()) return peer{}; SP b = s->backlog.front(); s->backlog.pop_front(); return add(b); }
    bool peer::connected() const { Fw fw; deliver(); SP s = P(id); return s->st == S_CONNECTED && !s->c->rst[s->side]; }
    void peer::send(std::string const& b) { Fw fw; deliver(); SP s = P(id); if (s->st == S_CONNECTED && !s->wrShut && !s->c->rst[s->side]) ::queue(*s, std::string(b.data(), b.size())); wake_obj(B_IO, g, MAXT); }
    std::string peer::recv()
    {
        std::size_t n = 0; char const* d = nullptr; SP s;
        { Fw fw; deliver(); s = P(id); if (s->c) { auto& x = s->c->d[1 - s->side]; n = x.rx.size(); d = x.rx.data(); } }
        std::string out; { sim::quiet q; out.assign(d ? d : "", n); }
        { Fw fw; if (n) { auto& x = s->c->d[1 - s->side]; bool const full = x.used() >= s->c->cap; x.rx.erase(0, n); if (full) { SP o = s->c->s[1 - s->side].lock(); edge(o.get()); } } s.reset(); }
        return out;
    }
    bool peer::eof() const { Fw fw; deliver(); SP s = P(id); if (s->st == S_FAILED) return true; if (s->st != S_CONNECTED) return false; auto& x = s->c->d[1 - s->side]; return x.rx.empty() && (x.fin || s->c->rst[s->side]); }
    bool peer::was_reset() const { Fw fw; deliver(); SP s = P(id); return s->c && s->c->rst[s->side]; }
    void peer::fin() { Fw fw; SP s = P(id); if (s->st == S_CONNECTED) shut_write(*s, latency()); wake_obj(B_IO, g, MAXT); }
    void peer::close() { Fw fw; SP s = P(id); hang_up(*s); wake_obj(B_IO, g, MAXT); }
    void peer::reset() { Fw fw; SP s = P(id); if (s->c) { s->c->d[s->side].fly.clear(); ::reset(*s->c, 1 - s->side); s->c->gone[s->side] = true; } s->st = S_FAILED; wake_obj(B_IO, g, MAXT); }
}
