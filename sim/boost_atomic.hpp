// Makes boost/sync/detail/atomic.hpp choose Boost.Atomic, as for a compiler without <atomic>.
#include <boost/config.hpp>
#undef BOOST_GCC
