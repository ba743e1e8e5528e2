// simulated file system: everything below /sim/ lives in memory, with injected faults. Public interface for scenarios.
#pragma once
#include <string>
#include <vector>
#include "sim.h"
namespace sim::fs
{
    // fault kinds (see enable_fault): open_error read_error short_read write_error short_write disk_full rename_error mkdir_error close_error interrupted
    void put(std::string const& path, std::string const& bytes);
    bool get(std::string const& path, std::string& out);       // false: no such file
    bool exists(std::string const& path);                      // file or directory
    bool is_dir(std::string const& path);
    void remove(std::string const& path);
    std::vector<std::string> list();                           // all files (not directories), sorted
    std::uint64_t mutations();                                 // number of operations so far that change what is stored
    void crash_at(std::uint64_t nth);                          // remember the disk as the nth mutation from now leaves it (or tears it); 0 = off
    bool crashed();
    void restart();                                            // the disk becomes what the crash left
    void relative(bool on);                                    // relative paths are below /sim too
    int open_handles();
    struct faults { explicit faults(unsigned permille = 60); ~faults(); unsigned saved; }; // disk faults may be injected in this scope (any thread)
    void fail_reads_from(std::string const& path, std::uint64_t offset); // a bad sector: reads at or after the offset fail
    std::uint64_t failures();                                  // failures injected so far that the caller can see (not short reads/writes or EINTR)
}
