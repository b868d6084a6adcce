#ifndef VERIF_WINAPI_ERR
#define VERIF_WINAPI_ERR
#include <boost/winapi/basic_types.hpp>
namespace boost { namespace winapi { inline DWORD_ GetLastError() { return ::ws_error(); } } }
#endif
