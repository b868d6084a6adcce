#ifndef VERIF_WINAPI_TLS
#define VERIF_WINAPI_TLS
#include <boost/winapi/basic_types.hpp>
namespace boost { namespace winapi {
const DWORD_ tls_out_of_indexes = 0xFFFFFFFFu;
inline DWORD_ TlsAlloc() { return ::ws_tls_alloc(); }
inline BOOL_ TlsFree(DWORD_ k) { return ::ws_tls_free(k); }
inline LPVOID_ TlsGetValue(DWORD_ k) { return ::ws_tls_get(k); }
inline BOOL_ TlsSetValue(DWORD_ k, LPVOID_ v) { return ::ws_tls_set(k, v); }
} }
#endif
