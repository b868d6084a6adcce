#ifndef VERIF_DISPATCH
#define VERIF_DISPATCH
#include <time.h>
#include "../../winapi.h"
typedef uint64_t dispatch_time_t; typedef void* dispatch_semaphore_t;
#define DISPATCH_TIME_NOW 0ull
#define DISPATCH_TIME_FOREVER (~0ull)
inline dispatch_semaphore_t dispatch_semaphore_create(long v) { return disp_create(v); }
inline void dispatch_release(void* s) { disp_release(s); }
inline long dispatch_semaphore_signal(dispatch_semaphore_t s) { return disp_signal(s); }
inline long dispatch_semaphore_wait(dispatch_semaphore_t s, dispatch_time_t t) { return disp_wait(s, t); }
inline dispatch_time_t dispatch_time(dispatch_time_t w, int64_t d) { return disp_time(w, d); }
inline dispatch_time_t dispatch_walltime(const struct timespec* t, int64_t d) { return disp_walltime(t, d); }
#endif
