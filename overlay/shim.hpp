#pragma once
// boost 1.83 moved boost::lockfree::detail::cacheline_bytes; neolib's core/mutex.hpp names it.
#include <cstddef>
namespace boost { namespace lockfree { namespace detail { inline constexpr std::size_t cacheline_bytes = 64; } } }
