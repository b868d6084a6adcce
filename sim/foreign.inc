// Models of Windows kernel objects and of libdispatch semaphores (part of engine.cpp).
namespace sim {
enum WType { W_AUTO, W_MANUAL, W_SEM, W_TIMER, W_THREAD };
struct WinObj { WType type; int handles; long count, max; bool on; bool armed; i64 due; VC vc; int fid; std::vector<std::pair<void (*)(void*, uint8_t), void*>> waits; };
struct WinHandle { int obj; bool open; };
static std::vector<WinObj> wobj; static std::vector<WinHandle> whandle; static int named_sem = -1;
static std::map<std::pair<int, u32>, void*> wtls; static std::set<u32> wtls_keys; static u32 wtls_next = 1; static u32 werr[MAXF];
static void win_reset() { wobj.clear(); whandle.clear(); named_sem = -1; wtls.clear(); wtls_keys.clear(); wtls_next = 1; memset(werr, 0, sizeof werr); }
static inline void* wh(int i) { return (void*)(uintptr_t)(0x1000 + 4 * i); }
static int wopen(int obj) { whandle.push_back(WinHandle{ obj, true }); wobj[obj].handles++; return (int)whandle.size() - 1; }
static int wnew(WType t, long count, long max, bool on) { WinObj o; o.type = t; o.handles = 0; o.count = count; o.max = max; o.on = on; o.armed = false; o.due = 0; o.fid = -1; wobj.push_back(o); return (int)wobj.size() - 1; }
static int wfind(void* h, const char* fn) {
    uintptr_t v = (uintptr_t)h; if (v < 0x1000 || (v & 3)) return -1;
    size_t i = (v - 0x1000) / 4; if (i >= whandle.size()) return -1;
    if (!whandle[i].open) fail(fmt("%s on a handle that was closed", fn));
    return whandle[i].obj;
}
static inline int werror(u32 e) { werr[cur->id] = e; return 0; }
static bool wready(const WinObj& o) {
    switch (o.type) { case W_AUTO: case W_MANUAL: case W_THREAD: return o.on; case W_SEM: return o.count > 0; case W_TIMER: return o.armed && vt >= o.due && o.due < FAR; }
    return false;
}
static void wtake(WinObj& o) {
    cur->vc.join(o.vc);
    switch (o.type) { case W_AUTO: o.on = false; break; case W_SEM: o.count--; break; case W_TIMER: o.armed = false; break; default: break; }
    modified();
}
static const std::vector<int>& wset(const Fiber& f) { return *(const std::vector<int>*)f.obj; }
const char* win_kind(const Fiber& f) { for (int o : wset(f)) { if (wobj[o].type == W_SEM) return "cond"; if (wobj[o].type == W_AUTO) return "event"; } return "win"; }
static bool win_enabled(const Fiber& f) { if (f.woken) return true; for (int o : wset(f)) if (wready(wobj[o])) return true; return false; }
// an object was signalled: hand it to threads blocked on it (a thread whose time is up is not waiting any more)
static bool whand(int obj) {
    std::vector<int> c;
    for (int i = 0; i < nf; ++i) if (F[i].st == S_BLK && F[i].kind == K_WIN && !F[i].woken && !dl_due(F[i]) && !intr_due(F[i])) { auto& s = wset(F[i]); if (std::find(s.begin(), s.end(), obj) != s.end()) c.push_back(i); }
    if (c.empty()) return false;
    Fiber& f = F[c[sdraw_u((u32)c.size())]]; auto& s = wset(f);
    wake_fiber(f.id); f.wake_bits = (u64)(std::find(s.begin(), s.end(), obj) - s.begin());
    return true;
}
static void wrel(WinObj& o) { o.vc.join(cur->vc); tick_release(cur); modified(); }
static void wsignal(int obj) {
    wrel(wobj[obj]);
    if (wobj[obj].type == W_AUTO) { if (wobj[obj].on || !whand(obj)) wobj[obj].on = true; }
    else { wobj[obj].on = true; while (whand(obj)) {} }
}
enum { WR_TIMEOUT = -1 };
// index of the object the wait was satisfied by
static int wwait(std::vector<int>& set, bool has_dl, i64 dl) {
    for (;;) {
        for (size_t k = 0; k < set.size(); ++k) if (wready(wobj[set[k]])) { wtake(wobj[set[k]]); return (int)k; }
        if (has_dl && vt >= dl) { spin_nomod(); return WR_TIMEOUT; }
        i64 d = has_dl ? dl : FAR; bool any = has_dl;
        for (int o : set) if (wobj[o].type == W_TIMER && wobj[o].armed) { any = true; if (wobj[o].due < d) d = wobj[o].due; }
        os_sleep(K_WIN, &set, any, d, false);
        if (cur->woken) { cur->woken = false; WinObj& o = wobj[set[cur->wake_bits]]; cur->vc.join(o.vc); modified(); return (int)cur->wake_bits; }
        // not handed anything: a wait that is over does not look again
        if (has_dl && vt >= dl) return WR_TIMEOUT;
        for (size_t k = 0; k < set.size(); ++k) if (wobj[set[k]].type == W_TIMER && wready(wobj[set[k]])) { wtake(wobj[set[k]]); return (int)k; }
    }
}
static i64 filetime_to_v(i64 due) {
    __int128 v;
    if (due < 0) v = (__int128)vt - (__int128)due * 100;
    else v = ((__int128)due - 116444736000000000ll) * 100 - ((__int128)now_rt() - vt);
    return v > FAR ? FAR : v < -FAR ? -FAR : (i64)v;
}
static void win_thread_exit() {   // the thread object becomes signalled: registered waits run
    for (size_t i = 0; i < wobj.size(); ++i) if (wobj[i].type == W_THREAD && wobj[i].fid == cur->id) {
        { Eng e; wsignal((int)i); }
        while (!wobj[i].waits.empty()) { auto w = wobj[i].waits.back(); wobj[i].waits.pop_back(); SutScope s; w.first(w.second, 0); }
    }
    for (auto it = wtls.begin(); it != wtls.end();) if (it->first.first == cur->id) it = wtls.erase(it); else ++it;
}
size_t open_handles() { size_t n = 0; for (auto& h : whandle) n += h.open; return n; }
} // namespace sim

extern "C" {
#define WEARLY(fn, bad) { int inj_ = os_enter(fn); if (inj_) { werror((u32)inj_); return bad; } }
void* ws_create_event(int manual, int initial) { Eng e; WEARLY("CreateEvent", nullptr); werror(0); return wh(wopen(wnew(manual ? W_MANUAL : W_AUTO, 0, 0, initial))); }
void* ws_create_sem(int64_t initial, int64_t maximum) { Eng e; WEARLY("CreateSemaphore", nullptr); if (initial < 0 || maximum <= 0 || initial > maximum) { werror(87); return nullptr; } werror(0); return wh(wopen(wnew(W_SEM, initial, maximum, false))); }
static void foreign_module() { if (named_sem < 0) { u32 k = wtls_next++; wtls_keys.insert(k); named_sem = wnew(W_SEM, k, 0x7fffffff, false); wopen(named_sem); } }   // another module of the process made it
void* ws_create_named_sem(int64_t initial, int64_t maximum) {
    Eng e; WEARLY("CreateSemaphore", nullptr);
    if (cfg.win_tls == 2) { werror(5); return nullptr; }
    if (cfg.win_tls == 3) foreign_module();
    if (named_sem >= 0) { werror(183); return wh(wopen(named_sem)); }
    named_sem = wnew(W_SEM, initial, maximum, false); werror(0); return wh(wopen(named_sem));
}
void* ws_open_named_sem(void) { Eng e; point(); oscalls["OpenSemaphore"]++; if (cfg.win_tls == 1) foreign_module(); if (named_sem < 0) { werror(2); return nullptr; } return wh(wopen(named_sem)); }
int ws_can_query(void) { return cfg.win_query != 1; }
int ws_query_sem(void* h, uint32_t* c, uint32_t* m) { Eng e; point(); int o = wfind(h, "NtQuerySemaphore"); if (o < 0 || cfg.win_query == 2) return -1; *c = (uint32_t)wobj[o].count; *m = (uint32_t)wobj[o].max; return 0; }
void* ws_create_timer(int manual) { Eng e; WEARLY("CreateWaitableTimer", nullptr); if (manual) fail("harness: manual-reset timers are not modelled"); werror(0); return wh(wopen(wnew(W_TIMER, 0, 0, false))); }
int ws_set_timer(void* h, int64_t due) {
    Eng e; WEARLY("SetWaitableTimer", 0); int o = wfind(h, "SetWaitableTimer"); if (o < 0 || wobj[o].type != W_TIMER) return werror(6);
    for (int i = 0; i < nf; ++i) if (i != cur->id && F[i].st == S_BLK && F[i].kind == K_WIN) { auto& s = wset(F[i]); if (std::find(s.begin(), s.end(), o) != s.end()) fail("a timer another thread waits for is set"); }
    wobj[o].armed = true; wobj[o].due = filetime_to_v(due); modified(); if (trace_on) note(fmt("SetWaitableTimer %lld (t=%lld)", (long long)due, (long long)wobj[o].due)); return 1;
}
int ws_close(void* h) {
    Eng e; point(); int o = wfind(h, "CloseHandle"); if (o < 0) return werror(6);
    if (wobj[o].handles == 1) for (int i = 0; i < nf; ++i) if (F[i].st == S_BLK && F[i].kind == K_WIN) { auto& s = wset(F[i]); if (std::find(s.begin(), s.end(), o) != s.end()) fail("a handle is closed while a thread is blocked on it"); }
    whandle[((uintptr_t)h - 0x1000) / 4].open = false; wobj[o].handles--; return 1;
}
int ws_set_event(void* h) { Eng e; WEARLY("SetEvent", 0); int o = wfind(h, "SetEvent"); if (o < 0 || wobj[o].type > W_MANUAL) return werror(6); if (trace_on) note("SetEvent"); wsignal(o); return 1; }
int ws_reset_event(void* h) { Eng e; WEARLY("ResetEvent", 0); int o = wfind(h, "ResetEvent"); if (o < 0 || wobj[o].type > W_MANUAL) return werror(6); if (trace_on) note("ResetEvent"); wrel(wobj[o]); wobj[o].on = false; return 1; }
int ws_release_sem(void* h, int64_t n) {
    Eng e; WEARLY("ReleaseSemaphore", 0); int o = wfind(h, "ReleaseSemaphore"); if (o < 0 || wobj[o].type != W_SEM) return werror(6);
    if (n <= 0) return werror(87);
    if (wobj[o].count + n > wobj[o].max) return werror(298);
    wrel(wobj[o]); if (trace_on) note(fmt("ReleaseSemaphore %lld", (long long)n));
    for (; n > 0; --n) { if (wobj[o].count > 0 || !whand(o)) { wobj[o].count += n; break; } }
    return 1;
}
uint32_t ws_wait(uint32_t n, void* const* h, uint32_t ms) {
    Eng e; WEARLY(n > 1 ? "WaitForMultipleObjects" : "WaitForSingleObject", 0xFFFFFFFFu);
    std::vector<int> set; for (u32 i = 0; i < n; ++i) { int o = wfind(h[i], "wait"); if (o < 0) { werror(6); return 0xFFFFFFFFu; } set.push_back(o); }
    bool has = ms != 0xFFFFFFFFu; i64 dl = has ? vt + (i64)ms * 1000000 : 0;
    int r = wwait(set, has, dl);
    if (trace_on) note(fmt("wait on %u object(s), %s -> %s", n, has ? fmt("%u ms", ms).c_str() : "infinite", r == WR_TIMEOUT ? "timeout" : fmt("object %d", r).c_str()));
    return r == WR_TIMEOUT ? 258u : (u32)r;
}
uint32_t ws_error(void) { return cur ? werr[cur->id] : 0; }
uint32_t ws_tls_alloc(void) { Eng e; WEARLY("TlsAlloc", 0xFFFFFFFFu); u32 k = wtls_next++; wtls_keys.insert(k); return k; }
int ws_tls_free(uint32_t k) { if (!cur) return 1; Eng e; if (!wtls_keys.erase(k)) return werror(87); return 1; }
void* ws_tls_get(uint32_t k) { Eng e; werror(0); auto it = wtls.find({ cur->id, k }); return it == wtls.end() ? nullptr : it->second; }
int ws_tls_set(uint32_t k, void* v) { Eng e; if (v) WEARLY("TlsSetValue", 0); if (!wtls_keys.count(k)) return werror(87); if (cur->set_fails && v && !wtls.count({ cur->id, k })) { cur->set_failed = true; if (trace_on) note("INJECT TlsSetValue fails"); return werror(8); } if (v) wtls[{ cur->id, k }] = v; else wtls.erase({ cur->id, k }); return 1; }
void* ws_dup_thread(void) { Eng e; WEARLY("DuplicateHandle", nullptr); int o = wnew(W_THREAD, 0, 0, false); wobj[o].fid = cur->id; return wh(wopen(o)); }
int ws_register_wait(void** out, void* h, void (*cb)(void*, uint8_t), void* ctx) { Eng e; WEARLY("RegisterWaitForSingleObject", 0); int o = wfind(h, "RegisterWaitForSingleObject"); if (o < 0 || wobj[o].type != W_THREAD) return werror(6); wobj[o].waits.push_back({ cb, ctx }); *out = wh(wopen(o)); return 1; }
int ws_unregister_wait(void* h) { Eng e; point(); int o = wfind(h, "UnregisterWait"); if (o < 0) return werror(6); whandle[((uintptr_t)h - 0x1000) / 4].open = false; wobj[o].handles--; wobj[o].waits.clear(); return 1; }
void ws_yield(void) { yield_now(); }
static void clock_tick();
uint64_t ws_filetime(void) { clock_tick(); return (uint64_t)(now_rt() / 100 + 116444736000000000ll); }
int ws_once(void* o, int (*f)(void*, void*, void**)) {
    Eng e; point();
    OnceM& x = onces[o];
    if (x.st == 0) { x.st = 1; { SutScope s; f(nullptr, nullptr, nullptr); } OnceM& y = onces[o]; y.st = 2; y.vc = cur->vc; tick_release(cur); modified(); return 1; }
    while (onces[o].st != 2) os_sleep(K_ONCE, o, false, 0, false);
    cur->vc.join(onces[o].vc); return 1;
}

// ---- libdispatch
void* disp_create(long value) { Eng e; int i = os_enter("dispatch_semaphore_create"); if (i || value < 0) return nullptr; int o = wnew(W_SEM, value, LONG_MAX, false); wobj[o].due = value; return wh(wopen(o)); }
void disp_release(void* h) { { Eng e; int o = wfind(h, "dispatch_release"); if (o < 0) fail("dispatch_release on something else"); if (wobj[o].count < wobj[o].due) fail("dispatch_release of a semaphore whose value is below its initial value (libdispatch crashes)"); } ws_close(h); }
long disp_signal(void* h) { Eng e; os_enter("dispatch_semaphore_signal"); int o = wfind(h, "dispatch_semaphore_signal"); wrel(wobj[o]); if (trace_on) note("dispatch_semaphore_signal"); if (wobj[o].count > 0 || !whand(o)) { wobj[o].count++; return 0; } return 1; }
// a time is 0 (now), ~0 (forever), positive: nanoseconds of the monotonic clock, negative: nanoseconds of the wall clock, negated
uint64_t disp_time(uint64_t when, int64_t delta) {
    if (when == ~0ull) return when;
    if ((int64_t)when < 0) { __int128 ns = (__int128)(-(int64_t)when) + delta; if (ns > INT64_MAX) return ~0ull; return ns <= 1 ? (delta >= 0 ? ~0ull : (uint64_t)-2ll) : (uint64_t)-(int64_t)ns; }
    i64 base; { clock_tick(); base = when ? (i64)when : now_mono(); }
    __int128 ns = (__int128)base + delta; if (ns > INT64_MAX) return ~0ull; return ns < 1 ? 1 : (uint64_t)ns;
}
uint64_t disp_walltime(const void* p, int64_t delta) {
    const struct timespec* t = (const struct timespec*)p; __int128 ns;
    if (t) ns = (__int128)t->tv_sec * 1000000000 + t->tv_nsec; else { clock_tick(); ns = now_rt(); }
    ns += delta; if (ns > INT64_MAX) return ~0ull;
    return ns <= 1 ? (delta >= 0 ? ~0ull : (uint64_t)-2ll) : (uint64_t)-(int64_t)ns;   // as libdispatch does it
}
long disp_wait(void* h, uint64_t timeout) {
    Eng e; os_enter("dispatch_semaphore_wait"); int o = wfind(h, "dispatch_semaphore_wait"); std::vector<int> set(1, o);
    bool has = timeout != ~0ull; i64 dl = vt;
    if (has && timeout) { i64 t = (i64)timeout; __int128 v = t < 0 ? -(__int128)t - ((__int128)now_rt() - vt) : (__int128)t - ((__int128)now_mono() - vt); dl = v > FAR ? FAR : v < -FAR ? -FAR : (i64)v; }
    int r = wwait(set, has, dl);
    if (trace_on) note(fmt("dispatch_semaphore_wait -> %s", r >= 0 ? "taken" : "timeout"));
    return r >= 0 ? 0 : 49;
}
} // extern "C"
