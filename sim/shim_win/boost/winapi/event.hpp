#ifndef VERIF_WINAPI_EVENT
#define VERIF_WINAPI_EVENT
#include <boost/winapi/basic_types.hpp>
namespace boost { namespace winapi {
inline HANDLE_ create_anonymous_event(SECURITY_ATTRIBUTES_*, BOOL_ manual, BOOL_ initial) { return ::ws_create_event(manual, initial); }
inline BOOL_ SetEvent(HANDLE_ h) { return ::ws_set_event(h); }
inline BOOL_ ResetEvent(HANDLE_ h) { return ::ws_reset_event(h); }
} }
#endif
