// Deterministic concurrency simulator: fibers + virtual time + modelled OS primitives + vector clocks.
// See DESIGN.md. The code under test is compiled with -fsanitize=thread instrumentation and linked against
// the __tsan_* entry points of engine.cpp.
#ifndef VERIF_ENGINE_HPP
#define VERIF_ENGINE_HPP
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>
#include <utility>

namespace sim {

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32;

// ---------------------------------------------------------------- choices
// Program choices (what the case does). 0 is the simplest value.
u32 draw(u32 n);                       // uniform in [0,n)
u32 draw_w(const u32* w, u32 n);       // weighted index
inline bool flip(u32 num, u32 den) { return draw(den) >= den - num; }   // true with probability num/den, 0 -> false
i64 draw_range(i64 lo, i64 hi);        // lo is simplest

// ---------------------------------------------------------------- fault configuration of a case
struct Cfg {
    u32 eintr_pct = 0;        // chance (percent) that a blocking OS wait gets an interruption/spurious wakeup armed
    u32 delay_pct = 0;        // chance that virtual time passes at a schedule point
    bool must_sleep = false;  // a thread that spins in an operation while the whole system is idle fails the case
    u32 sb_pct = 0;           // chance that a store stays in the store buffer for a while
    u32 weakcas_pct = 0;      // chance that a weak CAS fails spuriously
    bool spurious_cond = true; // condition waits may wake spuriously (else only futex/sem EINTR)
    bool pthread_eintr = false; // pthread_* calls return EINTR (for the EINTR workaround build)
    int spin_limit = 16;      // fruitless iterations of a spinning thread before it is parked until something changes
    bool race_check = true;   // check plain accesses of the code under test
    int win_tls = 0;          // Windows: 1 another module has made the named semaphore, 2 it cannot be made, 3 another module makes it first
    int win_query = 0;        // Windows: 1 NtQuerySemaphore does not exist, 2 it fails
    i64 tick_ns = 1;          // time a clock reading takes
    i64 rt_base_s = 1700000000; i64 rt_base_ns = 0;
};
extern Cfg cfg;

// ---------------------------------------------------------------- virtual time (ns)
i64 now_rt();                 // CLOCK_REALTIME, ns since epoch, without advancing it
void rt_step(i64 d);          // somebody sets CLOCK_REALTIME
i64 now_mono();
i64 vnow();                   // ns since the start of the case
void advance(i64 ns);         // let virtual time pass (harness)
u64 step();                   // global order stamp (fresh on every call)

// ---------------------------------------------------------------- fibers
int spawn(const char* name, std::function<void()> f);
// Main fiber only: run the others until none can make progress; returns true if all of them finished.
bool run_all();
int self();
bool finished(int fid);
bool is_blocked(int fid);     // asleep in the OS (cond/sem/futex/mutex) or spinning forever
const char* block_kind(int fid); // "", "mutex", "cond", "sem", "futex", "spin", "once", "sleep"
void sched_point();           // harness-made schedule point
void yield_now();             // prefer another fiber
void hold(bool on);           // while on, the current fiber runs on as long as it can (a burst of calls)
int nfibers();

// ---------------------------------------------------------------- per-operation monitoring
// Deadline monitor for timed operations of the current fiber. deadline in virtual ns (as vnow()).
void op_begin(bool timed, i64 deadline_v);
struct OpInfo {
    bool slept;          // the fiber was asleep in cond/sem/futex/timedlock at least once
    u64 first_sleep;     // step stamp of the first sleep (0: none)
    i64 over;            // ns asleep beyond the deadline, net of slack
    u32 intrs;           // interruptions/spurious wakeups delivered
    u32 sleeps;
    u64 last_idle;       // stamp of the last moment the whole system was idle while this operation was blocked (0: none)
};
OpInfo op_end();
OpInfo op_peek(int fid);
i64 op_deadline(int fid);   // deadline given to op_begin by the operation under way

// ---------------------------------------------------------------- scopes
struct SutScope { bool old; SutScope(); ~SutScope(); };
struct HarnessScope { bool old; HarnessScope(); ~HarnessScope(); };

// ---------------------------------------------------------------- happens-before data
void cell_write(const void* p, const char* what);
void cell_read(const void* p, const char* what);
// a user datum: accesses are checked for happens-before against each other
struct Cell { i64 v = 0; void write(i64 x, const char* what = "cell") { cell_write(this, what); v = x; } i64 read(const char* what = "cell") { cell_read(this, what); return v; } };
// harness-made ordering between threads, standing for synchronisation of the user's own program (no schedule point)
void hb_release(const void* key); void hb_acquire(const void* key);
void forget(const void* p, size_t n);  // drop access history of a memory range

// ---------------------------------------------------------------- OS model queries / fault injection
// Inject: the nth (1-based) call from now on of OS function `fn` by code under test returns error `err`.
struct Inject { const char* fn; u32 nth; int err; bool fired; };
void inject(const char* fn, u32 nth, int err);
bool inject_fired();
const char* inject_fn();
void inject_clear();
u64 os_calls(const char* fn);       // number of calls so far (all fibers)
bool mutex_model_locked(const void* pthread_mutex);   // model state
int mutex_model_owner(const void* pthread_mutex);
u32 alloc_fail_after(u32 n);        // nth allocation of the current thread in SUT throws bad_alloc (0 disables; one thread at a time)
bool setspecific_fails(bool on);    // the first pthread_setspecific of the current thread fails for lack of memory; returns whether one did
size_t open_handles();              // Windows, Mach: kernel handles not closed
size_t live_allocs();               // live allocations made by code under test
size_t live_allocs_since(u64 mark); // ... made after alloc_mark()
u64 alloc_mark();
// last absolute/relative timeouts given to OS waits by this fiber
struct OsWait { bool any; const char* fn; bool relative; i64 sec; i64 nsec; int clock; };
OsWait last_os_wait();
void clear_os_wait();
u64 os_waits_total();

// ---------------------------------------------------------------- verdicts
[[noreturn]] void fail(const std::string& msg);   // property violated: abandon the case
void require(bool c, const std::string& msg);
#define SIM_CHECK(c, msg) do { if (!(c)) ::sim::fail(std::string(msg)); } while (0)
void nontrivial();                  // mark the case as non-trivial
void label(const char* name);       // classification counter
void note(const std::string& s);    // readable trace line (kept when tracing)
bool tracing();
void hash_in(u64 v);                // mix into the distinctness hash

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- driver
struct Prop { const char* id; const char* rule; void (*body)(); };
int driver_main(int argc, char** argv, const Prop* props, int n);

} // namespace sim

#define SUT(...) ([&]() -> decltype(auto) { ::sim::SutScope sut_scope_; return __VA_ARGS__; }())
#define SUTV(...) do { ::sim::SutScope sut_scope_; __VA_ARGS__; } while (0)
#endif
