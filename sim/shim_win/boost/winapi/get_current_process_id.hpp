#ifndef VERIF_WINAPI_PID
#define VERIF_WINAPI_PID
#include <boost/winapi/basic_types.hpp>
namespace boost { namespace winapi { inline DWORD_ GetCurrentProcessId() { return 0x12ab; } } }
#endif
