#ifndef VERIF_WINAPI_THREAD
#define VERIF_WINAPI_THREAD
#include <boost/winapi/basic_types.hpp>
namespace boost { namespace winapi { inline BOOL_ SwitchToThread() { ::ws_yield(); return 1; } inline HANDLE_ GetCurrentThread() { return (HANDLE_)-2; } } }
#endif
