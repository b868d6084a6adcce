#ifndef VERIF_WINAPI_TIMER
#define VERIF_WINAPI_TIMER
#include <boost/winapi/basic_types.hpp>
namespace boost { namespace winapi {
typedef void (*PTIMERAPCROUTINE_)(LPVOID_, DWORD_, DWORD_);
inline HANDLE_ create_anonymous_waitable_timer(SECURITY_ATTRIBUTES_*, BOOL_ manual) { return ::ws_create_timer(manual); }
inline BOOL_ SetWaitableTimer(HANDLE_ h, const LARGE_INTEGER_* due, LONG_, PTIMERAPCROUTINE_, LPVOID_, BOOL_) { int64_t v; __builtin_memcpy(&v, due, sizeof v); return ::ws_set_timer(h, v); }
} }
#endif
