#ifndef VERIF_WINAPI_PROC
#define VERIF_WINAPI_PROC
#include <boost/winapi/basic_types.hpp>
namespace boost { namespace winapi { inline HANDLE_ GetCurrentProcess() { return (HANDLE_)-1; } } }
#endif
