// Boost.WinAPI on top of the simulator's model of Windows kernel objects.
#ifndef VERIF_WINAPI_BASIC
#define VERIF_WINAPI_BASIC
#include <stdint.h>
#include <stddef.h>
#include <boost/winapi/config.hpp>
#include "../../../winapi.h"
namespace boost { namespace winapi {
typedef void* HANDLE_; typedef void* HMODULE_; typedef void* PVOID_; typedef void* LPVOID_; typedef uint32_t DWORD_; typedef int BOOL_; typedef uint8_t BOOLEAN_; typedef int32_t LONG_; typedef uint32_t ULONG_; typedef int32_t NTSTATUS_; typedef wchar_t WCHAR_; typedef uint32_t UINT_; typedef uintptr_t ULONG_PTR_;
struct FILETIME_ { DWORD_ dwLowDateTime, dwHighDateTime; };
union LARGE_INTEGER_ { struct { DWORD_ LowPart; LONG_ HighPart; } u; int64_t QuadPart; };
struct SECURITY_ATTRIBUTES_;
const HANDLE_ invalid_handle_value = (HANDLE_)-1;
const HANDLE_ INVALID_HANDLE_VALUE_ = (HANDLE_)-1;
} }
#endif
