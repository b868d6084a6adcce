#ifndef VERIF_WINAPI_TIME
#define VERIF_WINAPI_TIME
#include <boost/winapi/basic_types.hpp>
namespace boost { namespace winapi { inline void GetSystemTimeAsFileTime(FILETIME_* t) { uint64_t v = ::ws_filetime(); __builtin_memcpy(t, &v, sizeof v); } } }
#endif
