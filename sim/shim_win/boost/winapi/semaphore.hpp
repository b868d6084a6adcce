#ifndef VERIF_WINAPI_SEM
#define VERIF_WINAPI_SEM
#include <boost/winapi/basic_types.hpp>
namespace boost { namespace winapi {
const DWORD_ semaphore_all_access = 0x1F0003;
inline HANDLE_ create_anonymous_semaphore(SECURITY_ATTRIBUTES_*, int64_t initial, int64_t maximum) { return ::ws_create_sem((LONG_)initial, (LONG_)maximum); }
inline HANDLE_ CreateSemaphoreW(SECURITY_ATTRIBUTES_*, int64_t initial, int64_t maximum, const wchar_t*) { return ::ws_create_named_sem((LONG_)initial, (LONG_)maximum); }
inline HANDLE_ OpenSemaphoreW(DWORD_, BOOL_, const wchar_t*) { return ::ws_open_named_sem(); }
inline BOOL_ ReleaseSemaphore(HANDLE_ h, int64_t n, LONG_*) { return ::ws_release_sem(h, (LONG_)n); }
} }
#endif
