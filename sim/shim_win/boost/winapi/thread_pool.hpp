#ifndef VERIF_WINAPI_POOL
#define VERIF_WINAPI_POOL
#include <boost/winapi/basic_types.hpp>
namespace boost { namespace winapi {
typedef void (*WAITORTIMERCALLBACKFUNC_)(PVOID_, BOOLEAN_);
const ULONG_ wt_execute_default = 0, wt_execute_in_wait_thread = 4, wt_execute_only_once = 8;
inline BOOL_ RegisterWaitForSingleObject(HANDLE_* out, HANDLE_ h, WAITORTIMERCALLBACKFUNC_ cb, PVOID_ ctx, ULONG_, ULONG_) { void* o = NULL; if (!::ws_register_wait(&o, h, cb, ctx)) return 0; *out = o; return 1; }
inline BOOL_ UnregisterWait(HANDLE_ h) { return ::ws_unregister_wait(h); }
} }
#endif
