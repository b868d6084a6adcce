#ifndef VERIF_WINAPI_DLL
#define VERIF_WINAPI_DLL
#include <boost/winapi/basic_types.hpp>
namespace boost { namespace winapi {
inline HMODULE_ GetModuleHandleW(const wchar_t*) { return (HMODULE_)1; }
inline NTSTATUS_ verif_query(HANDLE_ h, unsigned, void* info, ULONG_, ULONG_*) { uint32_t* v = static_cast< uint32_t* >(info); uint32_t c = 0, m = 0; int r = ::ws_query_sem(h, &c, &m); if (r) return r; v[0] = c; v[1] = m; return 0; }
inline void* get_proc_address(HMODULE_, const char*) { return ::ws_can_query() ? (void*)&verif_query : NULL; }
} }
#endif
