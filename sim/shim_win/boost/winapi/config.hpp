#ifndef VERIF_WINAPI_CONFIG
#define VERIF_WINAPI_CONFIG
#define BOOST_WINAPI_VERSION_WINXP 0x0501
#define BOOST_WINAPI_VERSION_WIN6 0x0600
#ifndef BOOST_USE_WINAPI_VERSION
#define BOOST_USE_WINAPI_VERSION BOOST_WINAPI_VERSION_WIN6
#endif
#define BOOST_WINAPI_NTAPI_CC
#define BOOST_WINAPI_WINAPI_CC
#endif
