/* Kernel objects of Windows and libdispatch as the simulator models them (engine.cpp, foreign.inc). */
#ifndef VERIF_WINAPI_H
#define VERIF_WINAPI_H
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void* ws_create_event(int manual, int initial);
void* ws_create_sem(int64_t initial, int64_t maximum);
void* ws_create_named_sem(int64_t initial, int64_t maximum);
void* ws_open_named_sem(void);
int ws_query_sem(void* h, uint32_t* count, uint32_t* maximum);
int ws_can_query(void);
void* ws_create_timer(int manual);
int ws_set_timer(void* h, int64_t due);
int ws_close(void* h);
int ws_set_event(void* h);
int ws_reset_event(void* h);
int ws_release_sem(void* h, int64_t n);
uint32_t ws_wait(uint32_t n, void* const* h, uint32_t ms);
uint32_t ws_error(void);
uint32_t ws_tls_alloc(void);
int ws_tls_free(uint32_t);
void* ws_tls_get(uint32_t);
int ws_tls_set(uint32_t, void*);
void* ws_dup_thread(void);
int ws_register_wait(void** out, void* thread, void (*cb)(void*, uint8_t), void* ctx);
int ws_unregister_wait(void*);
void ws_yield(void);
uint64_t ws_filetime(void);
int ws_once(void* flag, int (*fn)(void*, void*, void**));
/* libdispatch */
void* disp_create(long value);
void disp_release(void*);
long disp_signal(void*);
long disp_wait(void*, uint64_t timeout);
uint64_t disp_time(uint64_t when, int64_t delta);
uint64_t disp_walltime(const void* ts, int64_t delta);
#ifdef __cplusplus
}
#endif
#endif
