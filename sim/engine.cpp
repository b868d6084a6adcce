// See engine.hpp and DESIGN.md. Compiled WITHOUT -fsanitize=thread.
#include "engine.hpp"
#include "winapi.h"
#include <boost/context/detail/fcontext.hpp>
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <limits.h>
#include <time.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <mutex>
#include <linux/futex.h>
#include <link.h>
#include <cxxabi.h>
#include <chrono>
#include <map>
#include <set>
#include <unordered_map>
#include <deque>
#include <algorithm>
#include <new>
#include <exception>
#include <stdexcept>

namespace ctx = boost::context::detail;

// ------------------------------------------------------------------ real functions (linker --wrap)
extern "C" {
#define REAL(ret, name, args) ret __real_##name args
REAL(int, pthread_mutex_init, (pthread_mutex_t*, const pthread_mutexattr_t*));
REAL(int, pthread_mutex_destroy, (pthread_mutex_t*));
REAL(int, pthread_mutex_lock, (pthread_mutex_t*));
REAL(int, pthread_mutex_trylock, (pthread_mutex_t*));
REAL(int, pthread_mutex_timedlock, (pthread_mutex_t*, const struct timespec*));
REAL(int, pthread_mutex_clocklock, (pthread_mutex_t*, clockid_t, const struct timespec*));
REAL(int, pthread_mutex_unlock, (pthread_mutex_t*));
REAL(int, pthread_cond_init, (pthread_cond_t*, const pthread_condattr_t*));
REAL(int, pthread_cond_destroy, (pthread_cond_t*));
REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*));
REAL(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const struct timespec*));
REAL(int, pthread_cond_clockwait, (pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*));
REAL(int, pthread_cond_signal, (pthread_cond_t*));
REAL(int, pthread_cond_broadcast, (pthread_cond_t*));
REAL(int, pthread_once, (pthread_once_t*, void (*)(void)));
REAL(int, pthread_key_create, (pthread_key_t*, void (*)(void*)));
REAL(int, pthread_key_delete, (pthread_key_t));
REAL(void*, pthread_getspecific, (pthread_key_t));
REAL(int, pthread_setspecific, (pthread_key_t, const void*));
REAL(pthread_t, pthread_self, (void));
REAL(int, sem_init, (sem_t*, int, unsigned));
REAL(int, sem_destroy, (sem_t*));
REAL(int, sem_post, (sem_t*));
REAL(int, sem_wait, (sem_t*));
REAL(int, sem_trywait, (sem_t*));
REAL(int, sem_timedwait, (sem_t*, const struct timespec*));
REAL(int, sem_clockwait, (sem_t*, clockid_t, const struct timespec*));
REAL(int, sem_getvalue, (sem_t*, int*));
REAL(long, syscall, (long, ...));
REAL(int, clock_gettime, (clockid_t, struct timespec*));
REAL(int, gettimeofday, (struct timeval*, void*));
REAL(time_t, time, (time_t*));
REAL(int, sched_yield, (void));
REAL(int, nanosleep, (const struct timespec*, struct timespec*));
REAL(int, clock_nanosleep, (clockid_t, int, const struct timespec*, struct timespec*));
REAL(int, usleep, (useconds_t));
REAL(void, abort, (void)) __attribute__((noreturn));
REAL(void*, memcpy, (void*, const void*, size_t));
REAL(void*, memmove, (void*, const void*, size_t));
REAL(void*, memset, (void*, int, size_t));
}

// compiler TLS of the code under test is the TLS block of this executable (the engine has none): saved and restored with the fibers
static uintptr_t once_tls[2]; static char* tls_beg = nullptr; static char* tls_end = nullptr; static std::vector<char> tls_init;
static int find_tls(struct dl_phdr_info* i, size_t, void*) {
    for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) {
        const char* b = (const char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
        tls_beg = (char*)i->dlpi_tls_data; tls_end = tls_beg + i->dlpi_phdr[k].p_memsz;
        tls_init.assign(b, b + i->dlpi_phdr[k].p_filesz); tls_init.resize(i->dlpi_phdr[k].p_memsz, 0);
    }
    return 1; // only the executable, which comes first
}
// static data of the code under test (objcopy'd sections), restored before every case
extern "C" { extern char __start_sut_data[] __attribute__((weak)); extern char __stop_sut_data[] __attribute__((weak));
             extern char __start_sut_bss[] __attribute__((weak)); extern char __stop_sut_bss[] __attribute__((weak)); }

namespace sim {

Cfg cfg;
static const int MAXF = 320;
static const size_t STACK = 256 * 1024;   // of address space; touched pages are kept across cases
static const i64 FAR = (i64)4e18;

// entries beyond n are zero; small clocks are stored in place
struct VC {
    u32 n, cap; u32* p; u32 in[12];
    VC() : n(0), cap(12), p(in) {}
    VC(const VC& o) : n(0), cap(12), p(in) { *this = o; }
    ~VC() { if (p != in) free(p); }
    void grow(u32 k) { if (k <= cap) return; u32* q = (u32*)malloc(MAXF * sizeof(u32)); __real_memcpy(q, p, n * sizeof(u32)); if (p != in) free(p); p = q; cap = MAXF; }
    VC& operator=(const VC& o) { if (this != &o) { n = 0; grow(o.n); __real_memcpy(p, o.p, o.n * sizeof(u32)); n = o.n; } return *this; }
    u32 get(u32 i) const { return i < n ? p[i] : 0; }
    u32& at(u32 i) { if (i >= n) { grow(i + 1); __real_memset(p + n, 0, (i + 1 - n) * sizeof(u32)); n = i + 1; } return p[i]; }
    void join(const VC& o) { if (o.n > n) at(o.n - 1); for (u32 i = 0; i < o.n; ++i) if (o.p[i] > p[i]) p[i] = o.p[i]; }
    void clear() { n = 0; }
};

enum St { S_NONE, S_RUN, S_BLK, S_QUI, S_DONE };
enum Kind { K_NONE, K_MUTEX, K_COND, K_SEM, K_FUTEX, K_ONCE, K_SLEEP, K_WIN };
static const char* kind_name[] = { "", "mutex", "cond", "sem", "futex", "once", "sleep", "win" };

struct OpState { bool active, timed; i64 deadline; i64 slack; OpInfo info; };

struct SbEnt { uintptr_t a; u32 n; u64 v; VC vc; };
struct Fiber {
    int id; St st; std::string name; std::function<void()> fn;
    ctx::fcontext_t c; int err; char eh[16]; std::vector<char> tls; char* stk;
    bool in_sut; int sutd;   // sutd: depth of SUT scopes
    // blocking
    Kind kind; const void* obj; bool has_dl; i64 dl; bool dl_rt = false;   // dl_rt: an instant of the realtime clock
    i64 intr_at; bool woken; i64 wake_v; i64 slept_at; u64 wake_bits;
    bool expired() const { return has_dl; }
    // spin detection
    u64 spin_seq; int nomod; bool spin; u64 extra_seq, extra_seq2;
    // clocks
    VC vc, fence_rel, acq_pend;
    OpState op;
    OsWait osw;
    std::vector<struct SbEnt> sb; int sb_left = 0;   // stores not yet visible to other threads
    std::map<unsigned, void*> spec; bool set_fails = false, set_failed = false;
    u32 prio; u32 cas_fail_run;
    std::exception_ptr ep;
};

struct MutexM { int owner = -1; VC vc; };
struct CondM { std::deque<int> q; int clock = CLOCK_REALTIME; };
struct SemM { long value = 0; VC vc; };
struct FutexM { std::deque<int> q; std::deque<unsigned> bits; void del(size_t k) { q.erase(q.begin() + k); bits.erase(bits.begin() + k); } };
struct OnceM { int st = 0; VC vc; };
struct KeyM { void (*dtor)(void*); };
struct LocM { VC vc; };

struct Acc { u32 clk; uint16_t fid; uint8_t mask, write, atomic; };
struct Shadow { std::vector<Acc> a; };

struct AllocInfo { size_t n; u64 seq; };

// ------------------------------------------------------------------ global case state
static Fiber F[MAXF]; static int nf = 0;
static Fiber* cur = nullptr;
static ctx::fcontext_t sched_ctx;
static char* stacks = nullptr;
static i64 vt = 0; static u64 stepc = 0; static u64 mod_seq = 1; static u64 steps = 0;
static bool fair = false; static bool case_failed = false; static std::string fail_msg;
static bool case_nontrivial = false; static u64 chash = 0;
static bool trace_on = false; static std::vector<std::string> trace;
static std::map<std::string, u64> labels_case;
static std::unordered_map<const void*, MutexM> mutexes;
static std::unordered_map<const void*, CondM> conds;
static std::unordered_map<const void*, SemM> sems;
static std::unordered_map<const void*, FutexM> futexes;
static std::unordered_map<const void*, OnceM> onces;
static std::map<unsigned, KeyM> keys; static unsigned next_key = 1;
static std::unordered_map<uintptr_t, LocM> locs;
static std::unordered_map<uintptr_t, Shadow> shadow;
static std::unordered_map<void*, AllocInfo> allocs; static std::map<uintptr_t, size_t> freed; static std::vector<void*> quarantine;
static u64 alloc_seq = 0; static u32 alloc_fail = 0; static int alloc_fail_fid = -1; static bool alloc_busy = false;
static std::vector<Inject> injects; static bool inj_fired = false; static const char* inj_fn = "";
static std::map<std::string, u64> oscalls;
static u64 oswaits = 0;

// ------------------------------------------------------------------ tape
struct Rng { u64 s; u64 next() { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); } u32 below(u32 n) { return (u32)(next() % n); } };
static Rng rng_p, rng_s;
struct Tape { std::vector<u32> p, s; };
static Tape tape; static size_t tp = 0, ts = 0; static bool replaying = false;
// scheduling strategy of the case
static int strat_kind = 0; static u32 strat_p = 4; static std::vector<u64> pct_points; static size_t pct_i = 0; static u32 pct_low = 0;

static inline void mixh(u64 v) { chash ^= v + 0x9E3779B97F4A7C15ull + (chash << 6) + (chash >> 2); chash *= 0xD6E8FEB86659FD93ull; }
void hash_in(u64 v) { mixh(v); }

u32 draw(u32 n) {
    if (n <= 1) return 0;
    u32 v;
    if (replaying) { v = tp < tape.p.size() ? tape.p[tp] % n : 0; ++tp; }
    else { v = rng_p.below(n); bool old = cur && cur->in_sut; if (old) cur->in_sut = false; tape.p.push_back(v); ++tp; if (old) cur->in_sut = true; }
    mixh(v + 17);
    return v;
}
u32 draw_w(const u32* w, u32 n) {
    u32 t = 0; for (u32 i = 0; i < n; ++i) t += w[i];
    u32 v = draw(t);
    for (u32 i = 0; i < n; ++i) { if (v < w[i]) return i; v -= w[i]; }
    return 0;
}
i64 draw_range(i64 lo, i64 hi) {
    u64 span = (u64)(hi - lo) + 1;
    if (span == 0 || span > 0xFFFFFFFFull) {
        u64 a = draw(0x10000), b = draw(0x10000), c = draw(0x10000), d = draw(0x10000);
        u64 v = (((a << 16 | b) << 16 | c) << 16) | d;
        return lo + (i64)(span ? v % span : v);
    }
    return lo + (i64)draw((u32)span);
}
static void s_record(u32 v) { tape.s.push_back(v); ++ts; }
// schedule/fault choice: zero unless a fault is due
static u32 sdraw(u32 n, u32 pct) {
    if (n <= 1 || pct == 0) return 0;
    u32 v;
    if (replaying) { v = ts < tape.s.size() ? tape.s[ts] % n : 0; ++ts; }
    else { v = rng_s.below(100) < pct ? 1 + rng_s.below(n - 1) : 0; s_record(v); }
    return v;
}
static u32 sdraw_u(u32 n) {
    if (n <= 1) return 0;
    u32 v;
    if (replaying) { v = ts < tape.s.size() ? tape.s[ts] % n : 0; ++ts; }
    else { v = rng_s.below(n); s_record(v); }
    return v;
}

std::string fmt(const char* f, ...) { char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
bool tracing() { return trace_on; }
void note(const std::string& s) { if (trace_on) { bool old = false; if (cur) { old = cur->in_sut; cur->in_sut = false; } trace.push_back(fmt("[%6llu t=%lld %s] ", (unsigned long long)steps, (long long)vt, cur ? cur->name.c_str() : "-") + s); if (cur) cur->in_sut = old; } }
void nontrivial() { case_nontrivial = true; }
void label(const char* n) { bool old = false; if (cur) { old = cur->in_sut; cur->in_sut = false; } labels_case[n]++; if (cur) cur->in_sut = old; }

struct Eng { bool old; Eng() { old = cur->in_sut; cur->in_sut = false; } ~Eng() { cur->in_sut = old; } };
#define SIMULATED (cur != nullptr)

// ------------------------------------------------------------------ switching
static void to_sched() {
    Fiber* f = cur;
    f->err = errno;
    __real_memcpy(f->eh, __cxxabiv1::__cxa_get_globals(), 16); void* oc = std::__once_callable; void (*ol)() = std::__once_call;
    if (tls_beg) f->tls.assign(tls_beg, tls_end);
    ctx::transfer_t t = ctx::jump_fcontext(sched_ctx, nullptr);
    sched_ctx = t.fctx;
    __real_memcpy(__cxxabiv1::__cxa_get_globals(), f->eh, 16); std::__once_callable = oc; std::__once_call = ol;
    errno = f->err;
}
void fail(const std::string& msg) {
    if (cur) cur->in_sut = false;
    if (!case_failed) { case_failed = true; fail_msg = msg; if (trace_on) note("VIOLATION: " + msg); }
    if (!cur) throw std::runtime_error("fail outside case: " + msg);
    cur->st = S_DONE;
    for (;;) to_sched();
}
void require(bool c, const std::string& msg) { if (!c) fail(msg); }

static void add_time(i64 d);
// deadlines at or beyond FAR (126 years of virtual time) never come
static inline bool dl_due(const Fiber& f) { return f.has_dl && vt >= f.dl && f.dl < FAR; }
static inline bool intr_due(const Fiber& f) { return f.intr_at >= 0 && vt >= f.intr_at; }
static bool win_enabled(const Fiber& f); const char* win_kind(const Fiber& f); static void win_thread_exit(); static void win_reset();
static bool enabled(const Fiber& f) {
    switch (f.st) {
    case S_RUN: return !(f.spin && f.spin_seq == mod_seq);
    case S_BLK:
        if (dl_due(f) || intr_due(f)) return true;
        switch (f.kind) {
        case K_MUTEX: { auto it = mutexes.find(f.obj); return it == mutexes.end() || it->second.owner < 0; }
        case K_COND: return f.woken;
        case K_SEM: { auto it = sems.find(f.obj); return it == sems.end() || it->second.value > 0; }
        case K_FUTEX: return f.woken;
        case K_ONCE: return onces[f.obj].st != 1;
        case K_WIN: return win_enabled(f);
        default: return false;
        }
    default: return false;
    }
}
// waiting for a mutex held by (or a semaphore to be posted by) a thread that is running inside another call of the library: not a sleep the call is to blame for
static bool held_up(const Fiber& f) {
    const Fiber* p = &f;
    for (int k = 0; k < nf; ++k) {
        if (p->st != S_BLK || p->has_dl) return false;
        if (p->kind == K_SEM || p->kind == K_WIN) {   // about to be posted by a call under way
            for (int i = 0; i < nf; ++i) if (&F[i] != p && (F[i].op.active || F[i].sutd > 0) && (F[i].st == S_RUN || (F[i].st == S_BLK && enabled(F[i])))) return true;
            return false;
        }
        if (p->kind != K_MUTEX) return false;
        auto it = mutexes.find(p->obj); if (it == mutexes.end() || it->second.owner < 0) return false;
        p = &F[it->second.owner];
        if (!(p->op.active || p->sutd > 0)) return false;
        if (p->st != S_BLK || enabled(*p)) return true;
    }
    return false;
}
static void add_time(i64 d) {
    if (d <= 0) return;
    for (int i = 0; i < nf; ++i) if (F[i].op.active && (F[i].st != S_BLK || enabled(F[i]) || held_up(F[i]))) F[i].op.slack += d;
    if (d > FAR || vt + d > FAR) fail("harness: virtual time exhausted");
    vt += d;
    ++mod_seq;
}
void advance(i64 ns) { if (cur) { Eng e; add_time(ns); } else add_time(ns); }
// earliest pending timer after now; -1 if none
static i64 next_timer() {
    i64 best = -1;
    for (int i = 0; i < nf; ++i) if (F[i].st == S_BLK) {
        if (F[i].has_dl && F[i].dl > vt && F[i].dl < FAR && (best < 0 || F[i].dl < best)) best = F[i].dl;
        if (F[i].intr_at > vt && (best < 0 || F[i].intr_at < best)) best = F[i].intr_at;
    }
    return best;
}
static Fiber* pick_next() {
    // candidates: current first
    int cand[MAXF]; int n = 0; bool curin = false;
    if (cur && enabled(*cur)) { cand[n++] = cur->id; curin = true; }
    for (int i = 0; i < nf; ++i) if (!(cur && i == cur->id) && enabled(F[i])) cand[n++] = i;
    if (n == 0) return nullptr;
    if (n == 1) return &F[cand[0]];
    u32 v;
    if (replaying) {
        if (ts < tape.s.size()) v = tape.s[ts] % n; else v = fair ? (u32)((steps * 0x9E3779B97F4A7C15ull) >> 40) % n : 0;
        ++ts;
    } else {
        if (fair) v = rng_s.below(n);
        else if (strat_kind == 0) v = (!curin || rng_s.below(strat_p) == 0) ? rng_s.below(n) : 0;
        else {
            // PCT: highest priority runs; at change points the running fiber drops to the bottom
            if (pct_i < pct_points.size() && steps >= pct_points[pct_i]) { ++pct_i; if (cur) cur->prio = pct_low--; }
            v = 0; for (int i = 1; i < n; ++i) if (F[cand[i]].prio > F[cand[v]].prio) v = i;
        }
        s_record(v);
    }
    return &F[cand[v]];
}
static Fiber* next_fiber = nullptr; static int hold_fid = -1;
void hold(bool on) { hold_fid = on && cur ? cur->id : -1; }
static u32 idles = 0; static bool abandoned = false;   // times the whole system was idle until a timer; the case ends without a verdict
static void budget() {
    if (hold_fid >= 0 && cur && hold_fid == cur->id) return;
    if (cur && cur->nomod < -48) return;   // the last chance of a spinning thread
    ++steps;
    if (steps == 20000) { fair = true; }
    if (steps > 80000) {
        // waits made in very many pieces, with time passing in between, are no livelock (C21 judges them) unless one goes on past its deadline
        bool late = idles < 400 || cfg.must_sleep; for (int i = 0; i < nf; ++i) if (F[i].op.active && F[i].op.timed && vt > F[i].op.deadline && vt - F[i].op.deadline > F[i].op.slack) late = true;
        if (!late && cur) { abandoned = case_failed = true; fail_msg = "abandoned"; cur->st = S_DONE; for (;;) to_sched(); }
        fail("livelock: operations do not complete under fair scheduling without faults");
    }
}
// block the current fiber until enabled and chosen
static void reschedule() {
    Fiber* me = cur;
    if (hold_fid == me->id && enabled(*me)) return;
    Fiber* n = pick_next();
    if (n == me) return;
    next_fiber = n; // may be null: scheduler handles idling
    to_sched();
}
static void sb_step();
static void point() {
    budget(); if (cur->sb_left) sb_step();
    if (cfg.delay_pct && !fair && hold_fid != cur->id) {
        u32 v = sdraw(4, cfg.delay_pct);
        if (v == 1) { i64 t = next_timer(); if (t > 0) add_time(t - vt); }
        else if (v == 2) add_time(1 + sdraw_u(200));
        else if (v == 3) add_time((i64)1 << sdraw_u(24));
    }
    reschedule();
}
static void sb_flush(); static bool sb_has(uintptr_t a, size_t n);
void sched_point() { Eng e; point(); }
void yield_now() {
    Eng e; budget();
    Fiber* me = cur;
    if (me->nomod < 0 && me->spin_seq == mod_seq) { ++me->nomod; reschedule(); return; }
    me->spin = true; me->spin_seq = mod_seq; me->nomod = 0;
    reschedule();
    me->spin = false;
}
u64 step() { return ++stepc; }
i64 vnow() { return vt; }
static i64 rt_off = 0;   // by how much the realtime clock was set in this case
i64 now_rt() { return (cfg.rt_base_s * 1000000000ll + cfg.rt_base_ns) + vt + rt_off; }
void rt_step(i64 d) { Eng e; rt_off += d; if (trace_on) note(fmt("the realtime clock is set %s by %lld ns", d < 0 ? "back" : "forward", (long long)(d < 0 ? -d : d))); for (int i = 0; i < nf; ++i) if (F[i].st == S_BLK && F[i].has_dl && F[i].dl_rt && F[i].dl < FAR) F[i].dl -= d; }
i64 now_mono() { return 5000000000000ll + vt; }
int self() { return cur ? cur->id : -1; }
int nfibers() { return nf; }
bool finished(int f) { return F[f].st == S_DONE; }
bool is_blocked(int f) { return F[f].st == S_BLK || (F[f].st == S_RUN && F[f].spin); }
const char* block_kind(int f) { if (F[f].st == S_BLK) return F[f].kind == K_WIN ? win_kind(F[f]) : kind_name[F[f].kind]; if (F[f].st == S_RUN && F[f].spin) return "spin"; return ""; }

static inline void tick_release(Fiber* f) { f->vc.at(f->id)++; }

// sleep in the OS. Returns: 0 woken/resource available, 1 deadline, 2 interrupted
static int os_sleep(Kind k, const void* obj, bool has_dl, i64 dl, bool can_intr) {
    Fiber* f = cur; sb_flush();
    f->st = S_BLK; f->kind = k; f->obj = obj; f->has_dl = has_dl; f->dl = dl; f->woken = false; f->wake_v = -1; f->intr_at = -1;
    f->slept_at = vt;
    if (can_intr && cfg.eintr_pct && !fair) {
        u32 v = sdraw(6, cfg.eintr_pct);
        if (v == 1) f->intr_at = vt;
        else if (v >= 2) {
            i64 rem = has_dl ? dl - vt : (i64)10000000;
            if (rem < 2) rem = 2; if (rem > (i64)4e9) rem = (i64)4e9;
            u32 frac = sdraw_u(1000);
            f->intr_at = vt + 1 + (i64)((__int128)rem * frac / 1000);
        }
    }
    bool counts = k == K_COND || k == K_SEM || k == K_FUTEX || k == K_SLEEP || ((k == K_MUTEX || (k == K_WIN && f->op.timed && !strcmp(win_kind(*f), "event"))) && has_dl) || (k == K_WIN && !(f->op.timed && !strcmp(win_kind(*f), "event")));
    if (counts && f->op.active) { f->op.info.slept = true; f->op.info.sleeps++; if (!f->op.info.first_sleep) f->op.info.first_sleep = step(); }
    if (counts) ++oswaits;
    reschedule();
    // we are chosen: work out why
    int r;
    if (f->woken) r = 0;
    else if (k == K_MUTEX) { auto it = mutexes.find(obj); r = (it == mutexes.end() || it->second.owner < 0) ? 0 : dl_due(*f) ? 1 : 2; }
    else if (k == K_SEM) { auto it = sems.find(obj); r = (it == sems.end() || it->second.value > 0) ? 0 : dl_due(*f) ? 1 : 2; }
    else if (k == K_ONCE) r = 0;
    else r = dl_due(*f) ? 1 : 2;
    i64 end = vt;
    if (f->wake_v >= 0 && f->wake_v < end) end = f->wake_v;
    if (has_dl && f->dl < end) end = f->dl;
    if (f->intr_at >= 0 && f->intr_at < end) end = f->intr_at;
    if (counts && f->op.active && f->op.timed) {
        i64 over = (i64)((__int128)end - f->op.deadline - f->op.slack - 1000 < 0 ? 0 : (__int128)end - f->op.deadline - f->op.slack - 1000);
        if (end > f->slept_at && over > f->op.info.over) f->op.info.over = over;
    }
    if (r == 2) { f->op.info.intrs++; }
    f->st = S_RUN; f->kind = K_NONE; f->has_dl = false; f->intr_at = -1;
    return r;
}

void op_begin(bool timed, i64 deadline) {
    Fiber* f = cur; f->op = OpState(); f->op.active = true; f->op.timed = timed;
    f->op.deadline = deadline < vt ? vt : deadline; f->op.slack = 0;
    f->op.info = OpInfo{ false, 0, 0, 0, 0, 0 };
}
OpInfo op_end() { OpInfo i = cur->op.info; cur->op.active = false; return i; }
OpInfo op_peek(int fid) { return F[fid].op.info; }
i64 op_deadline(int fid) { return F[fid].op.deadline; }

// a new call is not part of the spinning of an earlier one
SutScope::SutScope() { old = cur ? cur->in_sut : false; if (cur) { if (!old) { cur->nomod = 0; cur->spin = false; cur->extra_seq = cur->extra_seq2 = 0; } cur->in_sut = true; cur->sutd++; } }
SutScope::~SutScope() { if (cur) { if (!old && !cur->sb.empty()) { Eng e; point(); sb_flush(); } cur->in_sut = old; cur->sutd--; } }
HarnessScope::HarnessScope() { old = cur ? cur->in_sut : false; if (cur && !cur->sb.empty()) sb_flush(); if (cur) cur->in_sut = false; }
HarnessScope::~HarnessScope() { if (cur) cur->in_sut = old; }

// ------------------------------------------------------------------ fibers
static void run_key_dtors() {
    Fiber* f = cur;
    for (int it = 0; it < 4; ++it) {
        bool any = false;
        std::vector<unsigned> ks; for (auto& k : keys) ks.push_back(k.first);
        for (unsigned k : ks) {
            auto ki = keys.find(k); if (ki == keys.end()) continue;
            void* v = f->spec.count(k) ? f->spec[k] : nullptr;
            if (v && ki->second.dtor) {
                f->spec[k] = nullptr; any = true;
                void (*d)(void*) = ki->second.dtor;
                SutScope s; d(v);
            } else if (v) f->spec[k] = nullptr;
        }
        if (!any) break;
    }
}
extern "C" void sim_thread_exit() __attribute__((weak)); extern "C" void sim_case_reset() __attribute__((weak));
static void fiber_entry(ctx::transfer_t t) {
    sched_ctx = t.fctx;
    Fiber* f = cur;
    memset(__cxxabiv1::__cxa_get_globals(), 0, 16);
    errno = 0;
    try {
        f->fn();
        f->in_sut = false;
        if (f->id != 0) { if (sim_thread_exit) { SutScope s; sim_thread_exit(); } run_key_dtors(); win_thread_exit(); }
    } catch (std::exception& e) {
        f->in_sut = false; fail(std::string("unexpected exception: ") + e.what());
    } catch (...) {
        f->in_sut = false; fail("unexpected exception of unknown type");
    }
    f->in_sut = false;
    tick_release(f);
    sb_flush(); f->st = S_DONE; ++mod_seq; f->op.active = false;
    for (;;) to_sched();
}
static Fiber* make_fiber(const char* name, std::function<void()> fn) {
    if (nf >= MAXF) { fprintf(stderr, "too many fibers\n"); _exit(3); }
    Fiber& f = F[nf];
    f.id = nf; f.st = S_RUN; f.name = name; f.fn = std::move(fn);
    f.stk = stacks + (size_t)nf * STACK;
    f.c = ctx::make_fcontext(f.stk + STACK - 64, STACK - 64, fiber_entry);
    f.err = 0; memset(f.eh, 0, 16); f.in_sut = false; f.sutd = 0; f.kind = K_NONE; f.obj = nullptr; f.has_dl = false; f.intr_at = -1; f.woken = false;
    f.spin_seq = 0; f.nomod = 0; f.spin = false; f.extra_seq = f.extra_seq2 = 0; f.cas_fail_run = 0;
    f.vc.clear(); f.fence_rel.clear(); f.acq_pend.clear(); f.vc.at(nf) = 1;
    f.op = OpState(); f.spec.clear(); f.osw = OsWait(); f.sb.clear(); f.sb_left = 0;
    if (tls_beg) f.tls = tls_init;
    f.prio = 1000 + (replaying ? (u32)nf : rng_s.below(1000));
    ++nf;
    return &f;
}
int spawn(const char* name, std::function<void()> fn) {
    Eng e;
    Fiber* f = make_fiber(name, std::move(fn));
    if (cur) { f->vc.join(cur->vc); tick_release(cur); }
    ++mod_seq;
    return f->id;
}
bool run_all() {
    Eng e;
    Fiber* me = cur;
    me->st = S_QUI;
    next_fiber = pick_next();
    if (next_fiber != me) to_sched();
    me->st = S_RUN;
    bool all = true;
    for (int i = 0; i < nf; ++i) if (i != me->id) { me->vc.join(F[i].vc); if (F[i].st != S_DONE) all = false; }
    ++mod_seq;
    return all;
}
static void run_fiber(Fiber* f) {
    cur = f;
    if (tls_beg) __real_memcpy(tls_beg, f->tls.data(), f->tls.size());
    ctx::transfer_t t = ctx::jump_fcontext(f->c, nullptr);
    f->c = t.fctx;
    cur = nullptr;
}
static void scheduler() {
    next_fiber = nullptr;
    Fiber* last = nullptr;
    for (;;) {
        if (case_failed) return;
        Fiber* n = next_fiber; next_fiber = nullptr;
        if (n && !enabled(*n)) n = nullptr;
        if (!n) { (void)last; n = pick_next(); }
        if (!n) {
            // idle: give spinners a last chance, then let time pass to the next timer, then quiescence
            bool again = false;
            for (int i = 0; i < nf; ++i) if (F[i].st == S_RUN && F[i].spin && F[i].extra_seq != mod_seq) { F[i].spin = false; F[i].nomod = -48; F[i].extra_seq = mod_seq; F[i].spin_seq = mod_seq; again = true; }
            if (again) continue;
            i64 t = next_timer();
            // before a spinning thread counts as stuck it may try for long (it may go to sleep after a while)
            if (t <= 0 || cfg.must_sleep) {
                for (int i = 0; i < nf; ++i) if (F[i].st == S_RUN && F[i].spin && F[i].extra_seq2 != mod_seq) { F[i].spin = false; F[i].nomod = -4000; F[i].extra_seq2 = mod_seq; F[i].spin_seq = mod_seq; again = true; }
                if (again) continue;
                if (cfg.must_sleep) for (int i = 0; i < nf; ++i) if (F[i].op.active && F[i].st == S_RUN && F[i].spin) {
                    case_failed = true; fail_msg = fmt("thread '%s' keeps spinning in a waiting call while nothing else can run, instead of sleeping", F[i].name.c_str()); if (trace_on) note("VIOLATION: " + fail_msg); return;
                }
            }
            if (t > 0) { u64 now = step(); for (int i = 0; i < nf; ++i) if (F[i].op.active && F[i].st == S_BLK) F[i].op.info.last_idle = now; ++idles; add_time(t - vt); continue; }
            Fiber* q = nullptr;
            for (int i = 0; i < nf; ++i) if (F[i].st == S_QUI) q = &F[i];
            if (!q) return; // finished (or main blocked: reported by caller)
            q->st = S_RUN; n = q;
        }
        last = n;
        run_fiber(n);
    }
}

// ------------------------------------------------------------------ happens-before shadow
static inline bool on_stack(uintptr_t a) { return a >= (uintptr_t)stacks && a < (uintptr_t)stacks + STACK * MAXF; }
static void access_granule(uintptr_t g, uint8_t mask, bool write, bool atomic, const char* what) {
    Shadow& s = shadow[g];
    Fiber* f = cur; u32 now = f->vc.get(f->id);
    for (Acc& a : s.a) {
        if (!(a.mask & mask)) continue;
        if (a.fid == f->id) continue;
        if (!(a.write || write)) continue;
        if (a.atomic && atomic) continue;
        if (a.clk > f->vc.get(a.fid)) {
            std::string m = fmt("data race on %s: %s%s by thread '%s' and %s%s by thread '%s' are not ordered by happens-before", what,
                a.atomic ? "atomic " : "", a.write ? "write" : "read", F[a.fid].name.c_str(), atomic ? "atomic " : "", write ? "write" : "read", f->name.c_str());
            fail(m);
        }
    }
    for (Acc& a : s.a) if (a.fid == f->id && a.mask == mask && a.write == (uint8_t)write && a.atomic == (uint8_t)atomic) { a.clk = now; return; }
    s.a.push_back(Acc{ now, (uint16_t)f->id, mask, (uint8_t)write, (uint8_t)atomic });
}
static void access(uintptr_t a, size_t n, bool write, bool atomic, const char* what) {
    if (on_stack(a) || (tls_beg && a >= (uintptr_t)tls_beg && a < (uintptr_t)tls_end) || a == once_tls[0] || a == once_tls[1]) return;
    if (!freed.empty()) {
        auto it = freed.upper_bound(a + n - 1);
        if (it != freed.begin()) { --it; if (a < it->first + it->second && it->first < a + n) fail(fmt("use after free by thread '%s' (%s of memory already deleted)", cur->name.c_str(), write ? "write" : "read")); }
    }
    while (n) {
        uintptr_t g = a & ~(uintptr_t)7; u32 off = (u32)(a - g); u32 len = (u32)std::min<size_t>(8 - off, n);
        access_granule(g, (uint8_t)(((1u << len) - 1) << off), write, atomic, what);
        a += len; n -= len;
    }
}
void forget(const void* p, size_t n) { if (shadow.empty()) return; uintptr_t a = (uintptr_t)p & ~(uintptr_t)7; for (; a < (uintptr_t)p + n; a += 8) shadow.erase(a); }
static std::map<const void*, VC> user_hb;
void hb_release(const void* k) { Eng e; user_hb[k].join(cur->vc); cur->vc.at(cur->id)++; }
void hb_acquire(const void* k) { Eng e; auto it = user_hb.find(k); if (it != user_hb.end()) cur->vc.join(it->second); }
void cell_write(const void* p, const char* what) { Eng e; access_granule((uintptr_t)p & ~(uintptr_t)7, 0xff, true, false, what); }
void cell_read(const void* p, const char* what) { Eng e; access_granule((uintptr_t)p & ~(uintptr_t)7, 0xff, false, false, what); }
static void plain(const void* p, size_t n, bool w) {
    if (!cur || !cur->in_sut) return;
    if (!cur->sb.empty() && sb_has((uintptr_t)p, n)) { Eng e; sb_flush(); }
    if (!cfg.race_check) return;
    Eng e;
    access((uintptr_t)p, n, w, false, "library-internal memory");
}

// ------------------------------------------------------------------ atomics
static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void a_load_hb(LocM& l, int mo) { if (is_acq(mo)) cur->vc.join(l.vc); cur->acq_pend.join(l.vc); }
static void a_store_hb(LocM& l, int mo) { if (is_rel(mo)) { l.vc = cur->vc; tick_release(cur); } else l.vc = cur->fence_rel; }
static void a_rmw_hb(LocM& l, int mo) { a_load_hb(l, mo); if (is_rel(mo)) { l.vc.join(cur->vc); tick_release(cur); } else l.vc.join(cur->fence_rel); }
static void spin_nomod() {
    Fiber* f = cur;
    if (f->spin_seq == mod_seq) f->nomod++; else { f->spin_seq = mod_seq; f->nomod = 1; f->spin = false; }
    if (f->nomod > (fair ? 16 : cfg.spin_limit)) f->spin = true;
}
static inline void a_mod(bool changed) { if (changed) { ++mod_seq; cur->spin = false; cur->nomod = 0; } else spin_nomod(); }
// Store buffer (as on x86 and weaker): a store that is not sequentially consistent may become visible to other threads only after
// later loads of its thread, up to the end of the call. Read-modify-writes, fences and OS calls wait for it.
static void sb_flush() {
    Fiber* f = cur; if (!f || f->sb.empty()) return;
    for (SbEnt& e : f->sb) { locs[e.a].vc = e.vc; __real_memcpy((void*)e.a, &e.v, e.n); ++mod_seq; if (trace_on) note(fmt("(the store of %llx becomes visible)", (unsigned long long)e.v)); }
    f->sb.clear(); f->sb_left = 0; f->spin = false; f->nomod = 0;
}
static void sb_step() { if (--cur->sb_left == 0) sb_flush(); }
static bool sb_has(uintptr_t a, size_t n) { for (SbEnt& e : cur->sb) if (a < e.a + e.n && e.a < a + n) return true; return false; }
static void a_pre(const void* p, size_t n, bool w, u32 kind) {
    if (!cur->sb.empty() && (kind > 2 || sb_has((uintptr_t)p, n))) sb_flush();
    point();
    mixh((u64)cur->id * 31 + kind);
    if (cfg.race_check && cur) access((uintptr_t)p, n, w, true, "library-internal memory");
}

template<typename T> static T at_load(const volatile T* p, int mo) {
    if (!cur || !cur->in_sut) return __atomic_load_n(p, __ATOMIC_SEQ_CST);
    Eng e; a_pre((void*)p, sizeof(T), false, 1);
    a_load_hb(locs[(uintptr_t)p], mo); T v = *p; a_mod(false);
    if (trace_on) note(fmt("load%zu -> %llx (mo %d)", sizeof(T), (unsigned long long)v, mo));
    return v;
}
template<typename T> static void at_store(volatile T* p, T v, int mo) {
    if (!cur || !cur->in_sut) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; }
    Eng e; a_pre((void*)p, sizeof(T), true, 2);
    if (mo == __ATOMIC_SEQ_CST) sb_flush();
    else if (cfg.sb_pct && !fair && !on_stack((uintptr_t)p) && (!cur->sb.empty() || sdraw(2, cfg.sb_pct))) {
        SbEnt b; b.a = (uintptr_t)p; b.n = sizeof(T); b.v = 0; __real_memcpy(&b.v, &v, sizeof(T)); if (is_rel(mo)) { b.vc = cur->vc; tick_release(cur); } else b.vc = cur->fence_rel;
        if (cur->sb.empty()) cur->sb_left = 2 + (int)sdraw_u(6);
        cur->sb.push_back(b); if (trace_on) note(fmt("store%zu <- %llx (mo %d), not visible yet", sizeof(T), (unsigned long long)v, mo)); return;
    }
    a_store_hb(locs[(uintptr_t)p], mo); bool ch = *p != v; *p = v; a_mod(ch); if (!ch) ++mod_seq;
    if (trace_on) note(fmt("store%zu <- %llx (mo %d)", sizeof(T), (unsigned long long)v, mo));
}
template<typename T, typename Op> static T at_rmw(volatile T* p, Op op, int mo, const char* nm) {
    if (!cur || !cur->in_sut) { T o = *p; *p = op(o); return o; }
    Eng e; a_pre((void*)p, sizeof(T), true, 3);
    a_rmw_hb(locs[(uintptr_t)p], mo); T o = *p; T n = op(o); *p = n; a_mod(n != o);
    if (trace_on) note(fmt("%s%zu %llx -> %llx (mo %d)", nm, sizeof(T), (unsigned long long)o, (unsigned long long)n, mo));
    return o;
}
template<typename T> static bool at_cas(volatile T* p, T* exp, T des, int mo, int fmo, bool weak) {
    if (!cur || !cur->in_sut) { if (*p == *exp) { *p = des; return true; } *exp = *p; return false; }
    Eng e; a_pre((void*)p, sizeof(T), true, 4);
    LocM& l = locs[(uintptr_t)p];
    T o = *p; bool ok = o == *exp;
    if (ok && weak && cfg.weakcas_pct && !fair && cur->cas_fail_run < 3 && sdraw(2, cfg.weakcas_pct)) { ok = false; cur->cas_fail_run++; }
    if (ok) { cur->cas_fail_run = 0; a_rmw_hb(l, mo); *p = des; a_mod(des != o); }
    else { a_load_hb(l, fmo); *exp = o; a_mod(false); }
    if (trace_on) note(fmt("cas%zu %s%llx -> %llx %s (mo %d)", sizeof(T), "", (unsigned long long)o, (unsigned long long)des, ok ? "ok" : "FAIL", mo));
    return ok;
}

// ------------------------------------------------------------------ OS model
static int injected(const char* fn) {
    if (!cur->in_sut && true) { /* Eng scope already cleared in_sut; callers pass through os_enter */ }
    for (Inject& i : injects) if (!i.fired && !strcmp(i.fn, fn)) { if (--i.nth == 0) { i.fired = true; inj_fired = true; inj_fn = i.fn; if (trace_on) note(fmt("INJECT %s -> %d", fn, i.err)); return i.err; } }
    return 0;
}
// every OS call from code under test passes here
static int os_enter(const char* fn) { sb_flush(); oscalls[fn]++; point(); mixh((u64)cur->id * 131 + (u64)fn[8] * 7 + (u64)fn[strlen(fn) - 1] + strlen(fn)); return injected(fn); }
// OS objects must not be used after their memory was released
static void live(const void* p, const char* fn) {
    if (freed.empty()) return;
    auto it = freed.upper_bound((uintptr_t)p);
    if (it != freed.begin()) { --it; if ((uintptr_t)p < it->first + it->second) fail(fmt("use after free by thread '%s' (%s on an object already destroyed)", cur->name.c_str(), fn)); }
}
static inline void modified() { ++mod_seq; cur->spin = false; cur->nomod = 0; }

static bool valid_ts(const struct timespec* t) { return t->tv_nsec >= 0 && t->tv_nsec < 1000000000; }
// absolute time on clock -> virtual
static i64 abs_to_v(clockid_t c, const struct timespec* t) {
    __int128 ns = (__int128)t->tv_sec * 1000000000 + t->tv_nsec;
    cur->dl_rt = c != CLOCK_MONOTONIC;
    __int128 base = c == CLOCK_MONOTONIC ? (__int128)now_mono() - vt : (__int128)now_rt() - vt;
    __int128 v = ns - base;
    if (v > FAR) v = FAR; if (v < -FAR) v = -FAR;
    return (i64)v;
}
static void record_wait(const char* fn, bool rel, const struct timespec* t, int clk) { cur->osw.any = true; cur->osw.fn = fn; cur->osw.relative = rel; cur->osw.sec = t->tv_sec; cur->osw.nsec = t->tv_nsec; cur->osw.clock = clk; }
OsWait last_os_wait() { return cur->osw; }
void clear_os_wait() { cur->osw = OsWait(); }
u64 os_waits_total() { return oswaits; }

static MutexM& mtx(const void* m) { return mutexes[m]; }
static int mutex_acquire(const void* m, bool has_dl, i64 dl, bool can_intr) {
    for (;;) {
        MutexM& x = mtx(m);
        if (x.owner < 0) { x.owner = cur->id; cur->vc.join(x.vc); modified(); return 0; }
        if (has_dl && vt >= dl) return ETIMEDOUT;
        int r = os_sleep(K_MUTEX, m, has_dl, dl, can_intr && cfg.pthread_eintr); dl = cur->dl;
        if (r == 1 && mtx(m).owner >= 0) return ETIMEDOUT;
        if (r == 2) return EINTR;
    }
}
static void mutex_release(const void* m) {
    MutexM& x = mtx(m);
    x.owner = -1; x.vc = cur->vc; tick_release(cur); modified();
    for (int i = 0; i < nf; ++i) if (F[i].st == S_BLK && F[i].kind == K_MUTEX && F[i].obj == m && F[i].wake_v < 0) F[i].wake_v = vt;
}
bool mutex_model_locked(const void* m) { auto it = mutexes.find(m); return it != mutexes.end() && it->second.owner >= 0; }
int mutex_model_owner(const void* m) { auto it = mutexes.find(m); return it == mutexes.end() ? -1 : it->second.owner; }
void inject(const char* fn, u32 nth, int err) { Eng e; injects.push_back(Inject{ fn, nth, err, false }); }
bool inject_fired() { return inj_fired; }
const char* inject_fn() { return inj_fn; }
void inject_clear() { injects.clear(); inj_fired = false; inj_fn = ""; }
u64 os_calls(const char* fn) { Eng e; return oscalls[fn]; }

static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool has_dl, i64 dl) {
    MutexM& x = mtx(m);
    if (x.owner != cur->id) fail("condition wait entered while the calling thread does not own the mutex");
    conds[c].q.push_back(cur->id);
    mutex_release(m);
    int r;
    if (has_dl && vt >= dl) r = 1; // already expired: still releases and re-acquires the mutex
    else r = os_sleep(K_COND, c, has_dl, dl, cfg.spurious_cond);
    if (r != 0) { auto& q = conds[c].q; q.erase(std::remove(q.begin(), q.end(), cur->id), q.end()); }
    modified();
    mutex_acquire(m, false, 0, false);
    if (trace_on) note(fmt("cond wait returns %s", r == 0 ? "woken" : r == 1 ? "timeout" : "spuriously"));
    return r == 1 ? ETIMEDOUT : 0;
}
static void wake_fiber(int id) { Fiber& f = F[id]; f.woken = true; f.wake_v = vt; }

} // namespace sim

using namespace sim;
#define EARLY(fn) int inj_ = os_enter(fn); if (inj_) return inj_

extern "C" {
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { if (!SIMULATED) return __real_pthread_mutex_init(m, a); Eng e; EARLY("pthread_mutex_init"); mutexes.erase(m); memset((void*)m, 0, sizeof *m); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) { if (!SIMULATED) return __real_pthread_mutex_destroy(m); Eng e; EARLY("pthread_mutex_destroy"); live(m, "pthread_mutex_destroy"); auto it = mutexes.find(m); if (it != mutexes.end()) { if (it->second.owner >= 0) return EBUSY; mutexes.erase(it); } return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (!SIMULATED) return __real_pthread_mutex_lock(m);
    Eng e; EARLY("pthread_mutex_lock"); live(m, "pthread_mutex_lock");
    if (cfg.pthread_eintr && cfg.eintr_pct && !fair && sdraw(2, cfg.eintr_pct)) { cur->op.info.intrs++; return EINTR; }
    int r = mutex_acquire(m, false, 0, true); if (trace_on) note(fmt("pthread_mutex_lock -> %d", r)); return r;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!SIMULATED) return __real_pthread_mutex_trylock(m);
    Eng e; EARLY("pthread_mutex_trylock"); live(m, "pthread_mutex_trylock");
    if (cfg.pthread_eintr && cfg.eintr_pct && !fair && sdraw(2, cfg.eintr_pct)) { cur->op.info.intrs++; return EINTR; }
    MutexM& x = mtx(m); if (x.owner >= 0) { spin_nomod(); if (trace_on) note("pthread_mutex_trylock -> EBUSY"); return EBUSY; }
    x.owner = cur->id; cur->vc.join(x.vc); modified(); if (trace_on) note("pthread_mutex_trylock -> 0"); return 0;
}
static int mutex_timed(pthread_mutex_t* m, clockid_t c, const struct timespec* t, const char* fn) {
    EARLY(fn); live(m, fn);
    const bool bug = cfg.pthread_eintr && !strstr(fn, "clock");   // (systems with that bug had no such functions)
    if (bug && cfg.eintr_pct && !fair && sdraw(2, cfg.eintr_pct)) { cur->op.info.intrs++; return EINTR; }
    record_wait(fn, false, t, c);
    MutexM& x = mtx(m); if (x.owner < 0) { x.owner = cur->id; cur->vc.join(x.vc); modified(); return 0; }
    if (!valid_ts(t)) return EINVAL;
    int r = mutex_acquire(m, true, abs_to_v(c, t), bug); if (trace_on) note(fmt("%s -> %d", fn, r)); return r;
}
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) { if (!SIMULATED) return __real_pthread_mutex_timedlock(m, t); Eng e; return mutex_timed(m, CLOCK_REALTIME, t, "pthread_mutex_timedlock"); }
int __wrap_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t) { if (!SIMULATED) return __real_pthread_mutex_clocklock(m, c, t); Eng e; return mutex_timed(m, c, t, "pthread_mutex_clocklock"); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!SIMULATED) return __real_pthread_mutex_unlock(m);
    Eng e; EARLY("pthread_mutex_unlock"); live(m, "pthread_mutex_unlock");
    if (cfg.pthread_eintr && cfg.eintr_pct && !fair && sdraw(2, cfg.eintr_pct)) { cur->op.info.intrs++; return EINTR; }
    MutexM& x = mtx(m); if (x.owner != cur->id) fail("a mutex is unlocked by a thread that does not own it");
    mutex_release(m); if (trace_on) note("pthread_mutex_unlock"); return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { if (!SIMULATED) return __real_pthread_cond_init(c, a); Eng e; EARLY("pthread_cond_init"); conds.erase(c); memset((void*)c, 0, sizeof *c); CondM& k = conds[c]; if (a) { clockid_t id = CLOCK_REALTIME; pthread_condattr_getclock(a, &id); k.clock = id; } return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t* c) { if (!SIMULATED) return __real_pthread_cond_destroy(c); Eng e; EARLY("pthread_cond_destroy"); live(c, "pthread_cond_destroy"); if (cfg.pthread_eintr && cfg.eintr_pct && !fair && sdraw(2, cfg.eintr_pct)) { cur->op.info.intrs++; return EINTR; } auto it = conds.find(c); if (it != conds.end()) { if (!it->second.q.empty()) return EBUSY; conds.erase(it); } return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!SIMULATED) return __real_pthread_cond_wait(c, m); Eng e; EARLY("pthread_cond_wait"); live(c, "pthread_cond_wait"); live(m, "pthread_cond_wait"); if (cfg.pthread_eintr && cfg.eintr_pct && !fair && sdraw(2, cfg.eintr_pct)) { cur->op.info.intrs++; return EINTR; } return cond_wait(c, m, false, 0); }
static int cond_timed(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t, const char* fn) {
    EARLY(fn); live(c, fn); live(m, fn); if (cfg.pthread_eintr && !strstr(fn, "clock") && cfg.eintr_pct && !fair && sdraw(2, cfg.eintr_pct)) { cur->op.info.intrs++; return EINTR; } record_wait(fn, false, t, k); if (!valid_ts(t)) return EINVAL; return cond_wait(c, m, true, abs_to_v(k, t));
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { if (!SIMULATED) return __real_pthread_cond_timedwait(c, m, t); Eng e; return cond_timed(c, m, conds[c].clock, t, "pthread_cond_timedwait"); }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { if (!SIMULATED) return __real_pthread_cond_clockwait(c, m, k, t); Eng e; return cond_timed(c, m, k, t, "pthread_cond_clockwait"); }
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
    if (!SIMULATED) return __real_pthread_cond_signal(c);
    Eng e; EARLY("pthread_cond_signal"); live(c, "pthread_cond_signal"); auto& q = conds[c].q; if (trace_on) note(fmt("pthread_cond_signal (%zu waiting)", q.size()));
    if (!q.empty()) { u32 i = sdraw_u((u32)q.size()); int id = q[i]; q.erase(q.begin() + i); wake_fiber(id); modified(); } return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
    if (!SIMULATED) return __real_pthread_cond_broadcast(c);
    Eng e; EARLY("pthread_cond_broadcast"); live(c, "pthread_cond_broadcast"); auto& q = conds[c].q; if (trace_on) note(fmt("pthread_cond_broadcast (%zu waiting)", q.size()));
    for (int id : q) wake_fiber(id); if (!q.empty()) { q.clear(); modified(); } return 0;
}
// initialization of function-local statics of the code under test (byte 0 of the guard: done; the rest of its state is kept in "onces")
int __real___cxa_guard_acquire(char*); void __real___cxa_guard_release(char*); void __real___cxa_guard_abort(char*);
void __tsan_atomic8_store(volatile unsigned char*, unsigned char, int);
int __wrap___cxa_guard_acquire(char* g) {
    if (!SIMULATED || !cur->in_sut) return __real___cxa_guard_acquire(g);
    Eng e; oscalls["guard"]++; point();
    for (;;) {
        OnceM& x = onces[g];
        if (*g || x.st == 2) { cur->vc.join(x.vc); return 0; }
        if (x.st == 0) { x.st = 1; return 1; }
        os_sleep(K_ONCE, g, false, 0, false);
    }
}
void __wrap___cxa_guard_release(char* g) {
    auto it = onces.find(g); if (!SIMULATED || it == onces.end()) return __real___cxa_guard_release(g);
    { Eng e; it->second.st = 2; it->second.vc = cur->vc; tick_release(cur); modified(); }
    __tsan_atomic8_store((volatile unsigned char*)g, 1, __ATOMIC_RELEASE);
}
void __wrap___cxa_guard_abort(char* g) {
    auto it = onces.find(g); if (!SIMULATED || it == onces.end()) return __real___cxa_guard_abort(g);
    Eng e; it->second.st = 0; modified();
}
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void)) {
    if (!SIMULATED) return __real_pthread_once(o, f);
    Eng e; EARLY("pthread_once");
    OnceM& x = onces[o];
    if (x.st == 0) { x.st = 1; { SutScope s; f(); } OnceM& y = onces[o]; y.st = 2; y.vc = cur->vc; tick_release(cur); modified(); return 0; }
    while (onces[o].st != 2) os_sleep(K_ONCE, o, false, 0, false);
    cur->vc.join(onces[o].vc); return 0;
}
int __wrap_pthread_key_create(pthread_key_t* k, void (*d)(void*)) { if (!SIMULATED) return __real_pthread_key_create(k, d); Eng e; EARLY("pthread_key_create"); *k = next_key++; keys[*k] = KeyM{ d }; return 0; }
int __wrap_pthread_key_delete(pthread_key_t k) { if (!SIMULATED) return __real_pthread_key_delete(k); Eng e; EARLY("pthread_key_delete"); keys.erase(k); return 0; }
void* __wrap_pthread_getspecific(pthread_key_t k) { if (!SIMULATED) return __real_pthread_getspecific(k); Eng e; auto it = cur->spec.find(k); return it == cur->spec.end() ? nullptr : it->second; }
int __wrap_pthread_setspecific(pthread_key_t k, const void* v) { if (!SIMULATED) return __real_pthread_setspecific(k, v); Eng e; oscalls["pthread_setspecific"]++; int r = injected("pthread_setspecific"); if (r) return r; if (!keys.count(k)) return EINVAL; if (cur->set_fails && v && !cur->spec.count(k)) { cur->set_failed = true; if (trace_on) note("INJECT pthread_setspecific -> ENOMEM"); return ENOMEM; } cur->spec[k] = (void*)v; return 0; }
pthread_t __wrap_pthread_self(void) { if (!SIMULATED) return __real_pthread_self(); return (pthread_t)(0x1000 + cur->id); }

int __wrap_sem_init(sem_t* s, int sh, unsigned v) { if (!SIMULATED) return __real_sem_init(s, sh, v); Eng e; int i = os_enter("sem_init"); if (i) { errno = i; return -1; } if (v > (unsigned)INT_MAX) { errno = EINVAL; return -1; } sems.erase(s); sems[s].value = v; return 0; }
int __wrap_sem_destroy(sem_t* s) { if (!SIMULATED) return __real_sem_destroy(s); Eng e; int i = os_enter("sem_destroy"); if (i) { errno = i; return -1; } live(s, "sem_destroy"); for (int k = 0; k < nf; ++k) if (F[k].st == S_BLK && F[k].kind == K_SEM && F[k].obj == s) fail("semaphore destroyed while a thread is blocked on it"); sems.erase(s); return 0; }
int __wrap_sem_post(sem_t* s) {
    if (!SIMULATED) return __real_sem_post(s);
    Eng e; int i = os_enter("sem_post"); if (i) { errno = i; return -1; } live(s, "sem_post");
    if (!sems.count(s)) { errno = EINVAL; return -1; }
    SemM& x = sems[s]; if (x.value == INT_MAX) { errno = EOVERFLOW; return -1; }
    x.value++; x.vc.join(cur->vc); tick_release(cur); modified();
    for (int k = 0; k < nf; ++k) if (F[k].st == S_BLK && F[k].kind == K_SEM && F[k].obj == s && F[k].wake_v < 0) F[k].wake_v = vt;
    if (trace_on) note(fmt("sem_post -> value %ld", x.value)); return 0;
}
static int sem_take(sem_t* s, bool has_dl, i64 dl, bool valid) {
    if (!sems.count(s) || !valid) { errno = EINVAL; return -1; }   // glibc looks at the time first
    for (;;) {
        SemM& x = sems[s];
        if (x.value > 0) { x.value--; cur->vc.join(x.vc); modified(); if (trace_on) note(fmt("sem wait ok -> value %ld", x.value)); return 0; }
        if (has_dl && vt >= dl) { errno = ETIMEDOUT; if (trace_on) note("sem wait -> ETIMEDOUT"); return -1; }
        int r = os_sleep(K_SEM, s, has_dl, dl, true); dl = cur->dl;
        if (r == 1) { errno = ETIMEDOUT; if (trace_on) note("sem wait -> ETIMEDOUT"); return -1; }
        if (r == 2) { errno = EINTR; if (trace_on) note("sem wait -> EINTR"); return -1; }
    }
}
int __wrap_sem_wait(sem_t* s) { if (!SIMULATED) return __real_sem_wait(s); Eng e; int i = os_enter("sem_wait"); if (i) { errno = i; return -1; } live(s, "sem_wait"); return sem_take(s, false, 0, true); }
int __wrap_sem_trywait(sem_t* s) {
    if (!SIMULATED) return __real_sem_trywait(s);
    Eng e; int i = os_enter("sem_trywait"); if (i) { errno = i; return -1; } live(s, "sem_trywait");
    if (cfg.eintr_pct && !fair && sdraw(2, cfg.eintr_pct)) { cur->op.info.intrs++; errno = EINTR; if (trace_on) note("sem_trywait -> EINTR"); return -1; }
    if (!sems.count(s)) { errno = EINVAL; return -1; }
    SemM& x = sems[s]; if (x.value > 0) { x.value--; cur->vc.join(x.vc); modified(); if (trace_on) note(fmt("sem_trywait ok -> value %ld", x.value)); return 0; }
    spin_nomod(); errno = EAGAIN; if (trace_on) note("sem_trywait -> EAGAIN"); return -1;
}
static int sem_timed(sem_t* s, clockid_t c, const struct timespec* t, const char* fn) { int i = os_enter(fn); if (i) { errno = i; return -1; } live(s, fn); record_wait(fn, false, t, c); return sem_take(s, true, abs_to_v(c, t), valid_ts(t)); }
int __wrap_sem_timedwait(sem_t* s, const struct timespec* t) { if (!SIMULATED) return __real_sem_timedwait(s, t); Eng e; return sem_timed(s, CLOCK_REALTIME, t, "sem_timedwait"); }
int __wrap_sem_clockwait(sem_t* s, clockid_t c, const struct timespec* t) { if (!SIMULATED) return __real_sem_clockwait(s, c, t); Eng e; return sem_timed(s, c, t, "sem_clockwait"); }
int __wrap_sem_getvalue(sem_t* s, int* v) { if (!SIMULATED) return __real_sem_getvalue(s, v); Eng e; point(); *v = (int)sems[s].value; return 0; }

static long futex_call(int* addr, int op, int val, const struct timespec* to, int, unsigned bits) {
    int cmd = op & FUTEX_CMD_MASK; bool rt = op & FUTEX_CLOCK_REALTIME;
    if ((cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) && to && (to->tv_sec < 0 || !valid_ts(to))) { errno = EINVAL; return -1; }
    if (rt && cmd != FUTEX_WAIT_BITSET) { errno = ENOSYS; return -1; }
    if ((uintptr_t)addr % sizeof(int)) { errno = EINVAL; return -1; }
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAKE) bits = FUTEX_BITSET_MATCH_ANY; else if (!bits) { errno = EINVAL; return -1; }
    // private and shared futexes on one address are different queues
    FutexM& fq = futexes[(const char*)addr + (op & FUTEX_PRIVATE_FLAG ? 1 : 0)];
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        int i = os_enter("futex_wait"); if (i) { errno = i; return -1; } live(addr, "futex wait");
        bool has = to != nullptr; i64 dl = 0;
        if (has) {
            bool rel = cmd == FUTEX_WAIT;
            record_wait("futex_wait", rel, to, rt ? CLOCK_REALTIME : CLOCK_MONOTONIC);
            if (rel) { cur->dl_rt = false; __int128 v = (__int128)to->tv_sec * 1000000000 + to->tv_nsec + vt; dl = v > FAR ? FAR : (i64)v; }
            else dl = abs_to_v(rt ? CLOCK_REALTIME : CLOCK_MONOTONIC, to);
        }
        if (*(volatile int*)addr != val) { errno = EAGAIN; spin_nomod(); if (trace_on) note("futex wait -> EAGAIN"); return -1; }
        if (has && vt >= dl) { errno = ETIMEDOUT; return -1; }
        fq.q.push_back(cur->id); fq.bits.push_back(bits);
        if (trace_on) note("futex wait: sleeping");
        int r = os_sleep(K_FUTEX, addr, has, dl, true);
        if (r != 0) for (size_t k = 0; k < fq.q.size(); ++k) if (fq.q[k] == cur->id) { fq.del(k); break; }
        modified();
        if (r == 0) { if (trace_on) note("futex wait -> woken"); return 0; }
        if (r == 1) { errno = ETIMEDOUT; if (trace_on) note("futex wait -> ETIMEDOUT"); return -1; }
        // interruption: EINTR or a spurious 0
        if (sdraw_u(2)) { if (trace_on) note("futex wait -> spurious 0"); return 0; }
        errno = EINTR; if (trace_on) note("futex wait -> EINTR"); return -1;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        int i = os_enter("futex_wake"); if (i) { errno = i; return -1; }
        auto& q = fq.q; long n = 0;
        if (trace_on) note(fmt("futex wake %d (%zu waiting)", val, q.size()));
        for (;;) {
            std::vector<u32> c; for (u32 k = 0; k < q.size(); ++k) if (fq.bits[k] & bits) c.push_back(k);
            if (c.empty() || (n && n >= val)) break;   // Linux wakes one even if asked for none
            u32 k = c[val == 1 ? sdraw_u((u32)c.size()) : 0]; int id = q[k]; fq.del(k); wake_fiber(id); ++n;
        }
        if (n) modified();
        return n;
    }
    errno = ENOSYS; return -1;
}
long __wrap_syscall(long nr, ...) {
    va_list ap; va_start(ap, nr); long a[6]; for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long); va_end(ap);
    if (!SIMULATED) return __real_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (nr == SYS_futex) { Eng e; return futex_call((int*)a[0], (int)a[1], (int)a[2], (const struct timespec*)a[3], 0, (unsigned)a[5]); }
    return __real_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
static void clock_tick() { if (cur->in_sut) { Eng e; oscalls["clock"]++; point(); add_time(fair && cfg.tick_ns < 1000 ? 1000 : cfg.tick_ns); } }
int __wrap_clock_gettime(clockid_t c, struct timespec* t) {
    if (!SIMULATED) return __real_clock_gettime(c, t);
    clock_tick();
    i64 v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? now_rt() : (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME) ? now_mono() : vt;
    if (c == CLOCK_REALTIME_COARSE || c == CLOCK_MONOTONIC_COARSE) v -= ((v % 4000000) + 4000000) % 4000000;   // advances with the timer tick
    t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; if (t->tv_nsec < 0) { t->tv_nsec += 1000000000; t->tv_sec--; } return 0;
}
int __wrap_gettimeofday(struct timeval* tv, void* z) { if (!SIMULATED) return __real_gettimeofday(tv, z); clock_tick(); tv->tv_sec = now_rt() / 1000000000; tv->tv_usec = now_rt() % 1000000000 / 1000; return 0; }
time_t __wrap_time(time_t* t) { if (!SIMULATED) return __real_time(t); clock_tick(); time_t v = now_rt() / 1000000000; if (t) *t = v; return v; }
int __wrap_sched_yield(void) { if (!SIMULATED) return __real_sched_yield(); yield_now(); return 0; }
static int do_sleep(i64 dl) { Eng e; point(); cur->dl_rt = false; while (vt < dl) if (os_sleep(K_SLEEP, nullptr, true, dl, false) == 1) break; modified(); return 0; }
int __wrap_nanosleep(const struct timespec* t, struct timespec* r) { if (!SIMULATED) return __real_nanosleep(t, r); return do_sleep(vt + (i64)t->tv_sec * 1000000000 + t->tv_nsec); }
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec* t, struct timespec* r) { if (!SIMULATED) return __real_clock_nanosleep(c, fl, t, r); return do_sleep(fl & TIMER_ABSTIME ? abs_to_v(c, t) : vt + (i64)t->tv_sec * 1000000000 + t->tv_nsec); }
int __wrap_usleep(useconds_t u) { if (!SIMULATED) return __real_usleep(u); return do_sleep(vt + (i64)u * 1000); }
void __wrap_abort(void) { if (SIMULATED) { cur->in_sut = false; fail("the library called abort()"); } __real_abort(); }
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (SIMULATED && cur->in_sut && n) { plain(s, n, false); plain(d, n, true); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (SIMULATED && cur->in_sut && n) { plain(s, n, false); plain(d, n, true); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (SIMULATED && cur->in_sut && n) plain(d, n, true); return __real_memset(d, c, n); }

} // extern "C"
#include "foreign.inc"
extern "C" {
// ------------------------------------------------------------------ __tsan_* entry points
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
// only builds for Windows tell volatile accesses apart: there they are acquire loads, as with the native compiler
} template<int N> static void volatile_read(void* p) { if (N == 4) at_load<uint32_t>((const volatile uint32_t*)p, 2); else if (N == 8) at_load<uint64_t>((const volatile uint64_t*)p, 2); else plain(p, N, false); } extern "C" {
#define RW(n) \
 void __tsan_read##n(void* p) { plain(p, n, false); } void __tsan_write##n(void* p) { plain(p, n, true); } \
 void __tsan_unaligned_read##n(void* p) { plain(p, n, false); } void __tsan_unaligned_write##n(void* p) { plain(p, n, true); } \
 void __tsan_volatile_read##n(void* p) { volatile_read<n>(p); } void __tsan_volatile_write##n(void* p) { plain(p, n, true); } \
 void __tsan_unaligned_volatile_read##n(void* p) { plain(p, n, false); } void __tsan_unaligned_volatile_write##n(void* p) { plain(p, n, true); } \
 void __tsan_read##n##_pc(void* p, void*) { plain(p, n, false); } void __tsan_write##n##_pc(void* p, void*) { plain(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) plain(p, 8, true); }
void __tsan_vptr_read(void** p) { plain(p, 8, false); }
void __tsan_read_range(void* p, unsigned long n) { plain(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { plain(p, n, true); }
#define ATOM(bits, T) \
 T __tsan_atomic##bits##_load(const volatile T* p, int mo) { return at_load<T>(p, mo); } \
 void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { at_store<T>(p, v, mo); } \
 T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { return at_rmw<T>(p, [v](T) { return v; }, mo, "xchg"); } \
 T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { return at_rmw<T>(p, [v](T o) { return (T)(o + v); }, mo, "add"); } \
 T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { return at_rmw<T>(p, [v](T o) { return (T)(o - v); }, mo, "sub"); } \
 T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { return at_rmw<T>(p, [v](T o) { return (T)(o & v); }, mo, "and"); } \
 T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { return at_rmw<T>(p, [v](T o) { return (T)(o | v); }, mo, "or"); } \
 T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { return at_rmw<T>(p, [v](T o) { return (T)(o ^ v); }, mo, "xor"); } \
 T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { return at_rmw<T>(p, [v](T o) { return (T)~(o & v); }, mo, "nand"); } \
 int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int fmo) { return at_cas<T>(p, e, d, mo, fmo, false); } \
 int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int fmo) { return at_cas<T>(p, e, d, mo, fmo, true); } \
 T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T d, int mo, int fmo) { at_cas<T>(p, &e, d, mo, fmo, false); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
    if (!cur || !cur->in_sut) return;
    Eng e; if (mo == __ATOMIC_SEQ_CST) sb_flush(); point();
    if (is_acq(mo)) cur->vc.join(cur->acq_pend);
    if (is_rel(mo)) { cur->fence_rel = cur->vc; tick_release(cur); }
}
void __tsan_atomic_signal_fence(int) {}
} // extern "C"

// ------------------------------------------------------------------ clocks of libstdc++ (also used by code under test)
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { struct timespec t; __wrap_clock_gettime(CLOCK_REALTIME, &t); return time_point(duration(chrono::seconds(t.tv_sec) + chrono::nanoseconds(t.tv_nsec))); }
steady_clock::time_point steady_clock::now() noexcept { struct timespec t; __wrap_clock_gettime(CLOCK_MONOTONIC, &t); return time_point(duration(chrono::seconds(t.tv_sec) + chrono::nanoseconds(t.tv_nsec))); }
}}}

// ------------------------------------------------------------------ allocations of code under test
static void* vnew(size_t n) {
    if (n == 0) n = 1;
    if (cur && cur->in_sut) {
        Eng e;
        if (alloc_fail && alloc_fail_fid == cur->id && --alloc_fail == 0) { inj_fired = true; inj_fn = "operator new"; if (trace_on) note("INJECT operator new -> bad_alloc"); return nullptr; }
        void* p = malloc(n);
        alloc_busy = true; allocs[p] = AllocInfo{ n, ++alloc_seq }; alloc_busy = false; forget(p, n);   // (the table frees memory while it grows)
        return p;
    }
    return malloc(n);
}
static void vdelete(void* p) {
    if (!p) return;
    if (cur && !alloc_busy && (!allocs.empty() || !freed.empty())) {
        bool old = cur->in_sut; cur->in_sut = false;
        auto it = allocs.find(p);
        if (it != allocs.end()) {
            if (cfg.race_check && old) access((uintptr_t)p, it->second.n, true, false, "library-internal memory (deallocation)");
            freed[(uintptr_t)p] = it->second.n; forget(p, it->second.n); allocs.erase(it); quarantine.push_back(p);
            cur->in_sut = old; return;
        }
        if (freed.count((uintptr_t)p)) fail("double delete of library memory");
        cur->in_sut = old;
    }
    free(p);
}
extern "C" void* __real___cxa_allocate_exception(size_t n) noexcept;
extern "C" void* __wrap___cxa_allocate_exception(size_t n) noexcept { void* p = __real___cxa_allocate_exception(n); if (cur) { bool old = cur->in_sut; cur->in_sut = false; forget(p, n); cur->in_sut = old; } return p; }
void* operator new(size_t n) { void* p = vnew(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = vnew(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vnew(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return vnew(n); }
void operator delete(void* p) noexcept { vdelete(p); }
void operator delete[](void* p) noexcept { vdelete(p); }
void operator delete(void* p, size_t) noexcept { vdelete(p); }
void operator delete[](void* p, size_t) noexcept { vdelete(p); }

namespace sim {
bool setspecific_fails(bool on) { if (!cur) return false; cur->set_fails = on; bool r = cur->set_failed; if (on) cur->set_failed = false; return r; }
u32 alloc_fail_after(u32 n) { if (!cur) return 0; u32 o = alloc_fail_fid == cur->id ? alloc_fail : 0; if (n || alloc_fail_fid == cur->id) { alloc_fail = n; alloc_fail_fid = cur->id; } return o; }
size_t live_allocs() { return allocs.size(); }
u64 alloc_mark() { return alloc_seq; }
size_t live_allocs_since(u64 m) { size_t n = 0; for (auto& a : allocs) if (a.second.seq > m) ++n; return n; }

// ------------------------------------------------------------------ running one case
static std::vector<char> pristine_data, pristine_bss;
static void snapshot_statics() {
    dl_iterate_phdr(find_tls, nullptr); once_tls[0] = (uintptr_t)&std::__once_callable; once_tls[1] = (uintptr_t)&std::__once_call;
    if (__start_sut_data) pristine_data.assign(__start_sut_data, __stop_sut_data);
    if (__start_sut_bss) pristine_bss.assign(__start_sut_bss, __stop_sut_bss);
}
static void reset_case() {
    for (int i = 0; i < nf; ++i) { F[i].fn = nullptr; }
    idles = 0; abandoned = false; nf = 0; cur = nullptr; hold_fid = -1; vt = 0; rt_off = 0; stepc = 0; mod_seq = 1; steps = 0; fair = false; case_failed = false; fail_msg.clear(); case_nontrivial = false; chash = 0;
    trace.clear(); labels_case.clear(); mutexes.clear(); conds.clear(); sems.clear(); futexes.clear(); onces.clear(); keys.clear(); next_key = 1; locs.clear(); shadow.clear(); user_hb.clear();
    for (auto& a : allocs) free(a.first);
    allocs.clear(); freed.clear(); for (void* p : quarantine) free(p); quarantine.clear(); alloc_seq = 0; alloc_fail = 0;
    injects.clear(); inj_fired = false; inj_fn = ""; oscalls.clear(); oswaits = 0;
    cfg = Cfg(); tp = ts = 0; win_reset(); if (sim_case_reset) sim_case_reset();
    if (__start_sut_data && !pristine_data.empty()) __real_memcpy(__start_sut_data, pristine_data.data(), pristine_data.size());
    if (__start_sut_bss && !pristine_bss.empty()) __real_memcpy(__start_sut_bss, pristine_bss.data(), pristine_bss.size());
    memset(__cxxabiv1::__cxa_get_globals(), 0, 16);
}
static void exec_case(const Prop& p) {
    make_fiber("main", [&p] { p.body(); });
    if (!replaying) {
        u32 k = rng_s.below(10);
        if (k < 6) { strat_kind = 0; static const u32 ps[] = { 2, 3, 4, 8, 16, 32 }; strat_p = ps[k]; }
        else { strat_kind = 1; u32 d = k - 6; pct_points.clear(); u32 span = 20u << rng_s.below(5); for (u32 i = 0; i < d; ++i) pct_points.push_back(rng_s.below(span)); std::sort(pct_points.begin(), pct_points.end()); pct_i = 0; pct_low = 999; }
    }
    scheduler();
    if (abandoned) { case_failed = false; fail_msg.clear(); label("abandoned: a wait made of very many short ones"); cur = nullptr; return; }
    if (!case_failed && F[0].st != S_DONE) { case_failed = true; fail_msg = fmt("the controlling thread is blocked forever (%s)", block_kind(0)); }
    cur = nullptr;
}
struct Outcome { bool failed; std::string msg; bool nontriv; u64 hash; };
static Outcome run_gen(const Prop& p, u64 seed) {
    reset_case(); replaying = false; tape.p.clear(); tape.s.clear();
    rng_p.s = seed; rng_s.s = seed ^ 0xA5A5A5A5DEADBEEFull; rng_s.next();
    exec_case(p);
    return Outcome{ case_failed, fail_msg, case_nontrivial, chash };
}
static Outcome run_tape(const Prop& p, const Tape& t, bool tr) {
    reset_case(); replaying = true; tape = t; trace_on = tr;
    exec_case(p);
    trace_on = false;
    return Outcome{ case_failed, fail_msg, case_nontrivial, chash };
}
// keep the kind of the failure while shrinking (first words)
static std::string sig(const std::string& m) { std::string r; for (char c : m) { if (c == ':' || c == '(' || (c >= '0' && c <= '9')) break; r += c; } return r; }
static Tape shrink(const Prop& p, Tape best, const std::string& msg, u32& runs) {
    std::string want = sig(msg); runs = 0;
    auto still = [&](const Tape& t) { ++runs; Outcome o = run_tape(p, t, false); return o.failed && sig(o.msg) == want; };
    auto trim = [](std::vector<u32>& v) { while (!v.empty() && v.back() == 0) v.pop_back(); };
    trim(best.p); trim(best.s);
    struct timespec t0, t1; __real_clock_gettime(CLOCK_MONOTONIC, &t0);
    auto out_of_time = [&] { __real_clock_gettime(CLOCK_MONOTONIC, &t1); return runs > 6000 || t1.tv_sec - t0.tv_sec > 20; };
    { Tape t = best; t.s.clear(); if (still(t)) best = t; }
    bool progress = true;
    while (progress && !out_of_time()) {
        progress = false;
        for (int which = 0; which < 2; ++which) {
            auto vec = [&](Tape& t) -> std::vector<u32>& { return which ? t.s : t.p; };
            // delete chunks
            for (size_t len = std::max<size_t>(1, vec(best).size() / 2); len >= 1; len /= 2) {
                for (size_t i = 0; i + len <= vec(best).size() && !out_of_time();) {
                    Tape t = best; vec(t).erase(vec(t).begin() + i, vec(t).begin() + i + len); trim(vec(t));
                    if (still(t)) { best = t; progress = true; } else i += len;
                }
                if (len == 1) break;
            }
            // zero chunks
            for (size_t len = std::max<size_t>(1, vec(best).size() / 2); len >= 1; len /= 2) {
                for (size_t i = 0; i + len <= vec(best).size() && !out_of_time(); i += len) {
                    bool nz = false; for (size_t k = i; k < i + len; ++k) nz |= vec(best)[k] != 0;
                    if (!nz) continue;
                    Tape t = best; for (size_t k = i; k < i + len; ++k) vec(t)[k] = 0; trim(vec(t));
                    if (still(t)) { best = t; progress = true; if (i + len > vec(best).size()) break; }
                }
                if (len == 1) break;
            }
            // lower values
            for (size_t i = 0; i < vec(best).size() && !out_of_time(); ++i) {
                u32 v = vec(best)[i];
                for (u32 d : { v / 2, v - 1 }) if (v > 0 && d < v) { Tape t = best; vec(t)[i] = d; trim(vec(t)); if (still(t)) { best = t; progress = true; break; } }
                if (i >= vec(best).size()) break;
            }
        }
    }
    return best;
}

// ------------------------------------------------------------------ driver
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += fmt("\\u%04x", c); else r += c; } return r; }
static std::string jvec(const std::vector<u32>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += std::to_string(v[i]); } return r + "]"; }
static u64 hstr(const char* s) { u64 h = 1469598103934665603ull; for (; *s; ++s) { h ^= (unsigned char)*s; h *= 1099511628211ull; } return h; }
static u64 mix2(u64 a, u64 b) { Rng r; r.s = a * 0x9E3779B97F4A7C15ull ^ b; r.next(); return r.next(); }

static const char* g_crash_path = nullptr; static const char* g_prop = "";
static u64 cur_index = 0, cur_seed = 0;
static void wr(int fd, const char* s) { ssize_t r = write(fd, s, strlen(s)); (void)r; }
static void wnum(int fd, u64 v) { char b[32]; int i = 31; b[i] = 0; do { b[--i] = '0' + v % 10; v /= 10; } while (v); wr(fd, b + i); }
static void wvec(int fd, const std::vector<u32>& v) { wr(fd, "["); for (size_t i = 0; i < v.size(); ++i) { if (i) wr(fd, ","); wnum(fd, v[i]); } wr(fd, "]"); }
static void on_crash(int sig) {
    // dump the tape so that the crash can be replayed
    const char* what = sig == SIGVTALRM ? "hang: a call made no progress for 12 s of CPU time" : sig == SIGSEGV ? "crash: SIGSEGV" : sig == SIGABRT ? "crash: SIGABRT" : sig == SIGFPE ? "crash: SIGFPE" : sig == SIGILL ? "crash: SIGILL" : "crash: SIGBUS";
    if (g_crash_path) {
        int fd = open(g_crash_path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
        wr(fd, "{\"property\":\""); wr(fd, g_prop); wr(fd, "\",\"message\":\""); wr(fd, what); wr(fd, "\",\"p\":"); wvec(fd, tape.p); wr(fd, ",\"s\":"); wvec(fd, tape.s); wr(fd, ",\"index\":"); wnum(fd, cur_index); wr(fd, ",\"trace\":[]}\n");
        close(fd);
    }
    wr(1, "CRASH "); wr(1, what); wr(1, "\n");
    _exit(sig == SIGVTALRM ? 97 : 96);
}
static bool parse_vec(const std::string& s, const char* key, std::vector<u32>& out) {
    std::string k = std::string("\"") + key + "\":"; size_t i = s.find(k); if (i == std::string::npos) return false;
    i = s.find('[', i); if (i == std::string::npos) return false; ++i; out.clear();
    while (i < s.size() && s[i] != ']') { if (s[i] >= '0' && s[i] <= '9') { u64 v = 0; while (i < s.size() && s[i] >= '0' && s[i] <= '9') v = v * 10 + (s[i++] - '0'); out.push_back((u32)v); } else ++i; }
    return true;
}
enum { HANG_S = 12 };   // 64 cases take some ten milliseconds; CPU time, so other load does not matter
static void arm(unsigned s) { struct itimerval it = {}; it.it_value.tv_sec = s; setitimer(ITIMER_VIRTUAL, &it, nullptr); }

int driver_main(int argc, char** argv, const Prop* props, int n) {
    if (argc > 1 && std::string(argv[1]) == "--distinct") {   // number of distinct hashes in the files named
        std::vector<u64> v;
        for (int i = 2; i < argc; ++i) { FILE* f = fopen(argv[i], "rb"); if (!f) continue; fseek(f, 0, SEEK_END); long n = ftell(f) / 8; rewind(f); size_t o = v.size(); v.resize(o + n); if (fread(v.data() + o, 8, n, f) != (size_t)n) return 2; fclose(f); }
        std::sort(v.begin(), v.end()); printf("%zu\n", (size_t)(std::unique(v.begin(), v.end()) - v.begin())); return 0;
    }
    std::string prop, replay, replay_out, hashes; u64 seed = 1, from = 0, to = 1000; double wall = 600; int samples = 3; bool list = false; std::string flavor = "default"; bool noshrink = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") prop = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--from") from = strtoull(nx().c_str(), 0, 10); else if (a == "--to") to = strtoull(nx().c_str(), 0, 10);
        else if (a == "--replay") replay = nx(); else if (a == "--replay-out") replay_out = nx(); else if (a == "--hashes") hashes = nx(); else if (a == "--wall") wall = atof(nx().c_str()); else if (a == "--samples") samples = atoi(nx().c_str()); else if (a == "--flavor") flavor = nx();
        else if (a == "--list") list = true; else if (a == "--no-shrink") noshrink = true; else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; }
    }
    if (list) { for (int i = 0; i < n; ++i) printf("%s\t%s\n", props[i].id, props[i].rule); return 0; }
    const Prop* P = nullptr; for (int i = 0; i < n; ++i) if (prop == props[i].id) P = &props[i];
    if (!P) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
    stacks = (char*)mmap(nullptr, STACK * MAXF, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    // guard page at the low end of every stack
    for (int i = 0; i < MAXF; ++i) mprotect(stacks + (size_t)i * STACK, 4096, PROT_NONE);
    snapshot_statics();
    std::set_terminate([] { if (cur) { cur->in_sut = false; std::string m = "std::terminate called"; try { if (auto e = std::current_exception()) std::rethrow_exception(e); } catch (std::exception& e) { m += std::string(" (exception escaped: ") + e.what() + ")"; } catch (...) {} fail(m); } __real_abort(); });
    static char alt[65536]; stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa = {}; sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK; for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM }) sigaction(s, &sa, nullptr);
    std::string crash_path = replay_out; g_crash_path = replay_out.empty() ? nullptr : crash_path.c_str(); std::string pid = P->id; g_prop = pid.c_str();

    if (!replay.empty()) {
        FILE* f = fopen(replay.c_str(), "r"); if (!f) { fprintf(stderr, "cannot open %s\n", replay.c_str()); return 2; }
        std::string s; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f);
        Tape t; parse_vec(s, "p", t.p); parse_vec(s, "s", t.s);
        arm(HANG_S);
        Outcome o = run_tape(*P, t, true);
        for (auto& l : trace) printf("%s\n", l.c_str());
        printf("%s %s\n", o.failed ? "FAIL" : "PASS", o.msg.c_str());
        fflush(stdout); _exit(o.failed ? 1 : 0);
    }
    u64 base = mix2(mix2(seed, hstr(P->id)), hstr(flavor.c_str()));
    std::map<std::string, u64> labels; u64 evals = 0, nontriv = 0, stepsum = 0, maxfair = 0; std::vector<u64> hs; std::vector<std::string> samp;
    struct timespec t0, t1; __real_clock_gettime(CLOCK_MONOTONIC, &t0); bool cut = false;
    std::string viol, vfile; 
    arm(HANG_S);
    for (u64 i = from; i < to; ++i) {
        if ((i & 63) == 0) { __real_clock_gettime(CLOCK_MONOTONIC, &t1); if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9 > wall) { cut = true; break; } arm(HANG_S); }
        cur_index = i; cur_seed = mix2(base, i);
        Outcome o = run_gen(*P, cur_seed);
        ++evals; stepsum += steps; if (fair) ++maxfair;
        for (auto& l : labels_case) labels[l.first] += 1;
        if (o.nontriv) { ++nontriv; hs.push_back(o.hash); }
        if (o.failed) {
            Tape t = tape; std::string msg = o.msg;
            // must reproduce from the tape alone, three times
            bool ok = true; for (int k = 0; k < 3 && ok; ++k) { arm(HANG_S); Outcome r = run_tape(*P, t, false); ok = r.failed && sig(r.msg) == sig(msg); }
            u32 runs = 0;
            if (ok && !noshrink) { arm(60); t = shrink(*P, t, msg, runs); }
            arm(HANG_S);
            Outcome r = run_tape(*P, t, true);
            viol = r.failed ? r.msg : msg;
            if (!replay_out.empty()) {
                FILE* f = fopen(replay_out.c_str(), "w");
                fprintf(f, "{\"property\":\"%s\",\"flavor\":\"%s\",\"message\":\"%s\",\"reproduced\":%s,\"shrink_runs\":%u,\"index\":%llu,\n\"p\":%s,\n\"s\":%s,\n\"trace\":[\n", P->id, flavor.c_str(), jesc(viol).c_str(), ok ? "true" : "false", runs, (unsigned long long)i, jvec(t.p).c_str(), jvec(t.s).c_str());
                for (size_t k = 0; k < trace.size() && k < 3000; ++k) fprintf(f, "%s\"%s\"", k ? ",\n" : "", jesc(trace[k]).c_str());
                fprintf(f, "]}\n"); fclose(f);
            }
            if (!ok) { viol = "UNREPRODUCED " + viol; }
            break;
        }
        if (o.nontriv && (int)samp.size() < samples && (nontriv == 1 || nontriv == 50 || nontriv == 500)) {
            Tape t = tape; run_tape(*P, t, true);
            std::string s; int lines = 0; for (auto& l : trace) { if (++lines > 40) break; s += l; s += "\n"; }
            samp.push_back(s);
        }
    }
    arm(0);
    __real_clock_gettime(CLOCK_MONOTONIC, &t1);
    if (!hashes.empty()) { FILE* f = fopen(hashes.c_str(), "wb"); if (f) { fwrite(hs.data(), 8, hs.size(), f); fclose(f); } }
    std::string js = fmt("{\"prop\":\"%s\",\"flavor\":\"%s\",\"evaluations\":%llu,\"nontrivial\":%llu,\"avg_steps\":%.1f,\"fair_mode\":%llu,\"cut\":%s,\"wall\":%.2f,", P->id, flavor.c_str(), (unsigned long long)evals, (unsigned long long)nontriv, evals ? (double)stepsum / evals : 0.0, (unsigned long long)maxfair, cut ? "true" : "false", (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9);
    js += "\"violation\":\"" + jesc(viol) + "\",\"labels\":{"; bool first = true; for (auto& l : labels) { if (!first) js += ","; first = false; js += "\"" + jesc(l.first) + "\":" + std::to_string(l.second); }
    js += "},\"samples\":["; for (size_t i = 0; i < samp.size(); ++i) { if (i) js += ","; js += "\"" + jesc(samp[i]) + "\""; } js += "]}";
    printf("%s\n", js.c_str()); fflush(stdout);
    _exit(viol.empty() ? 0 : 1);
}
} // namespace sim

// Boost assertions of the code under test are violations
namespace boost {
void assertion_failed(char const* expr, char const* function, char const* file, long line);
void assertion_failed_msg(char const* expr, char const* msg, char const* function, char const* file, long line);
void assertion_failed(char const* expr, char const* function, char const* file, long line) { if (cur) cur->in_sut = false; const char* b = strrchr(file, '/'); sim::fail(sim::fmt("library assertion failed: %s in %s (%s:%ld)", expr, function, b ? b + 1 : file, line)); }
void assertion_failed_msg(char const* expr, char const* msg, char const* function, char const* file, long line) { (void)msg; assertion_failed(expr, function, file, line); }
}
