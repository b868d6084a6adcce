// Everything the library and the harnesses include from outside, read as the Linux system this is.
#ifndef VERIF_STD_FIRST
#define VERIF_STD_FIRST
#define BOOST_SYNC_NO_LIB
#define BOOST_ALL_NO_LIB
#include <cstddef>
#include <string>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <limits.h>
#include <limits>
#include <cstdlib>
#include <stdlib.h>
#include <stdexcept>
#include <stddef.h>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include <vector>
#include <type_traits>
#include <system_error>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <stack>
#include <ratio>
#include <chrono>
#include <atomic>
#include <map>
#include <set>
#include <deque>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <new>
#include <exception>
#include <string.h>
#include <cmath>
#include <functional>
#include <algorithm>
#include <sstream>
#include <iostream>
#include <boost/config.hpp>
#include <boost/assert.hpp>
#include <boost/cstdint.hpp>
#include <boost/memory_order.hpp>
#include <boost/version.hpp>
#include <boost/throw_exception.hpp>
#include <boost/static_assert.hpp>
#include <boost/atomic/atomic.hpp>
#include <boost/atomic/fences.hpp>
#include <boost/atomic/atomic_flag.hpp>
#include <boost/core/enable_if.hpp>
#include <boost/core/explicit_operator_bool.hpp>
#include <boost/core/scoped_enum.hpp>
#include <boost/assert/source_location.hpp>
#include <boost/move/utility.hpp>
#include <boost/move/core.hpp>
#include <boost/mpl/bool.hpp>
#include <boost/mpl/and.hpp>
#include <boost/system/system_error.hpp>
#include <boost/system/error_code.hpp>
#include <boost/ratio/ratio.hpp>
#include <boost/preprocessor/seq/enum.hpp>
#include <boost/intrusive/options.hpp>
#include <boost/intrusive/list_hook.hpp>
#include <boost/intrusive/list.hpp>
#include <boost/date_time/posix_time/posix_time_types.hpp>
#include <boost/chrono/chrono.hpp>
#include <boost/chrono/time_point.hpp>
#include <boost/chrono/system_clocks.hpp>
#include <boost/chrono/duration.hpp>
#endif
