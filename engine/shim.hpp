// Boost 1.83 (installed here) predates boost::lockfree::detail::cacheline_bytes, which
// core/mutex.hpp names; later Boost versions define it with this value.
#pragma once
#include <cstddef>
#include <boost/version.hpp>
#if BOOST_VERSION < 108400
namespace boost { namespace lockfree { namespace detail { constexpr std::size_t cacheline_bytes = 64; } } }
#endif
