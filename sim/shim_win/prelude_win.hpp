// From here on the library sees Windows (BOOST_USE_WINAPI_VERSION says which).
#include "../shim_darwin/std_first.hpp"
#define BOOST_WINDOWS
#undef LONG_MAX
#define LONG_MAX 2147483647L
#define SIM_WIN



#define atexit sim_no_atexit
inline int sim_no_atexit(void (*)()) { return 0; }
namespace std { using ::sim_no_atexit; }
