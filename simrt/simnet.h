// simulated network: TCP sockets, epoll, eventfd, timerfd and name resolution, with injected faults. Public interface for scenarios.
#pragma once
#include <string>
#include <vector>
#include <cstdint>
#include "sim.h"
namespace sim::net
{
    // fault kinds (see enable_fault): short_send short_recv net_split net_delay net_stall net_reset connect_error accept_error socket_error bind_error resolve_error resolve_delay
    void enable();                                             // from now on every new socket, epoll set, ... is simulated
    void intensity(unsigned permille);                         // how often faults fire at each opportunity (0 = none)
    void name(std::string const& host, std::vector<std::string> const& addresses); // what a name resolves to (numeric addresses); unknown names do not resolve
    int open_sockets();                                        // sockets open now (peers not counted)
    std::uint64_t resets();                                    // connections reset by a fault so far
    void partition(bool on);                                   // while on, nothing arrives anywhere
    // the other party of a connection, driven directly by the scenario
    struct peer
    {
        int id = -1;
        static peer connect(unsigned short port);              // to a listening socket; arrives like any other connection
        static peer listen(unsigned short port);
        peer accept();                                         // id < 0: nobody there
        bool connected() const;
        void send(std::string const& bytes);                   // queued without limit; split and delayed like everything else
        std::string recv();                                    // what has arrived
        bool eof() const;                                      // the other side has closed (or reset) and everything was received
        bool was_reset() const;
        void fin();                                            // no more will be sent
        void close();                                          // fin, or reset when there is unread data
        void reset();
    };
}
