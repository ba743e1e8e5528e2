// Force-included when compiling i42output/neolib sources and scenarios.
// Boost 1.83 has no boost::lockfree::detail::cacheline_bytes, which neolib/core/mutex.hpp uses as an alignment.
#pragma once
#include <cstddef>
#include <boost/version.hpp>
#if BOOST_VERSION < 108400
namespace boost::lockfree::detail { inline constexpr std::size_t cacheline_bytes = 64; }
#endif
