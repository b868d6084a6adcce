#ifndef VERIF_WINDOWS_H
#define VERIF_WINDOWS_H
#include "../winapi.h"
#include "winerror.h"
typedef int BOOL; typedef uint32_t DWORD; typedef void* HANDLE; typedef void* HINSTANCE; typedef void* LPVOID; typedef void* PVOID;
#define WINAPI
#define CALLBACK
#define TRUE 1
#define FALSE 0
#define TLS_OUT_OF_INDEXES 0xFFFFFFFFu
struct INIT_ONCE { void* Ptr; };
#define INIT_ONCE_STATIC_INIT { 0 }
typedef BOOL (*PINIT_ONCE_FN)(void*, void*, void**);
inline BOOL InitOnceExecuteOnce(INIT_ONCE* o, PINIT_ONCE_FN f, void*, void**) { return ws_once(o, f); }
inline DWORD TlsAlloc() { return ws_tls_alloc(); }
inline BOOL TlsFree(DWORD k) { return ws_tls_free(k); }
inline void* TlsGetValue(DWORD k) { return ws_tls_get(k); }
inline BOOL TlsSetValue(DWORD k, void* v) { return ws_tls_set(k, v); }
inline DWORD GetLastError() { return ws_error(); }
inline BOOL SwitchToThread() { ws_yield(); return 1; }
#endif
