// From here on the library sees a Darwin system: semaphores of libdispatch, no timed POSIX mutexes, no POSIX semaphores, gettimeofday.
#include "std_first.hpp"
#undef linux
#undef __linux
#undef __linux__
#undef BOOST_HAS_CLOCK_GETTIME
#undef _POSIX_TIMEOUTS
#define __APPLE__ 1
#define SIM_DARWIN
#undef _POSIX_SEMAPHORES
