#ifndef VERIF_WINAPI_HANDLES
#define VERIF_WINAPI_HANDLES
#include <boost/winapi/basic_types.hpp>
namespace boost { namespace winapi {
inline BOOL_ CloseHandle(HANDLE_ h) { return ::ws_close(h); }
const DWORD_ duplicate_close_source = 1, duplicate_same_access = 2;
// only the calling thread's own handle is ever duplicated by the library's used code
inline BOOL_ DuplicateHandle(HANDLE_, HANDLE_, HANDLE_, HANDLE_* out, DWORD_, BOOL_, DWORD_) { HANDLE_ h = ::ws_dup_thread(); if (!h) return 0; *out = h; return 1; }
} }
#endif
