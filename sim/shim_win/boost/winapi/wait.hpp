#ifndef VERIF_WINAPI_WAIT
#define VERIF_WINAPI_WAIT
#include <boost/winapi/basic_types.hpp>
namespace boost { namespace winapi {
const DWORD_ infinite = 0xFFFFFFFFu, wait_abandoned = 0x80, wait_object_0 = 0, wait_timeout = 258, wait_failed = 0xFFFFFFFFu, max_non_infinite_wait = 0xFFFFFFFEu;
const DWORD_ INFINITE_ = infinite;
inline DWORD_ WaitForSingleObject(HANDLE_ h, DWORD_ ms) { return ::ws_wait(1, &h, ms); }
inline DWORD_ WaitForMultipleObjects(DWORD_ n, HANDLE_ const* h, BOOL_, DWORD_ ms) { return ::ws_wait(n, h, ms); }
} }
#endif
