// C18: failures of the operating system surface as the documented exceptions and change nothing.
#include <pthread.h>
#ifdef TM_EMU
#include <unistd.h>
#undef _POSIX_TIMEOUTS
#endif
#include "common.hpp"
#include <string.h>
#include <limits.h>
#include <system_error>
#include <exception>
#include <mutex>
#include <condition_variable>
#include <thread>
#ifdef NO_INIT          // platforms without static initialisers
#undef PTHREAD_MUTEX_INITIALIZER
#undef PTHREAD_COND_INITIALIZER
#endif
#ifdef EMU
#include <boost/sync/detail/semaphore/semaphore_emulation.hpp>
#include <boost/sync/detail/events/auto_reset_event_emulation.hpp>
#include <boost/sync/detail/events/manual_reset_event_emulation.hpp>
#else
#include <boost/sync/semaphore.hpp>
#include <boost/sync/events/auto_reset_event.hpp>
#include <boost/sync/events/manual_reset_event.hpp>
#endif
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/mutexes/spin_mutex.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/locks/lock_guard.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
#include <boost/sync/condition_variables/condition_variable_any.hpp>
#include <boost/sync/exceptions/lock_error.hpp>
#include <boost/sync/exceptions/wait_error.hpp>
#include <boost/sync/exceptions/resource_error.hpp>
#include <boost/sync/exceptions/overflow_error.hpp>
namespace bs = boost::sync;
#ifdef BOOST_SYNC_USE_STD_SYSTEM_ERROR
namespace sns = std; typedef std::errc errc_t;
#else
namespace sns = boost::system; typedef boost::system::errc::errc_t errc_t;
#endif
#if defined(BOOST_SYNC_USE_PTHREAD) && !defined(EMU)
static const bool SEM_EVENT = true;
#else
static const bool SEM_EVENT = false;
#endif
#ifdef EMU
static const bool EMULATED = true;
#else
static const bool EMULATED = false;
#endif
#ifdef BOOST_SYNC_HAS_PTHREAD_EINTR_BUG
static const bool P_EINTR = true;
#else
static const bool P_EINTR = false;
#endif
#ifdef NO_INIT
static const bool INIT = true;
#else
static const bool INIT = false;
#endif
#ifdef TM_EMU
static const bool TMEMU = true;
#else
static const bool TMEMU = false;
#endif

namespace {
enum { E_NONE, E_LOCK, E_WAIT, E_RES, E_OVER, E_OTHER };
const char* ename(int e) { static const char* n[] = { "nothing", "lock_error", "wait_error", "resource_error", "overflow_error", "some other exception" }; return n[e]; }
struct Out { int ex = E_NONE; int code = 0; bool val = false; };

void check_exception(const bs::runtime_exception& e, Out& o) {
    const std::exception* se = &e; const std::runtime_error* re = dynamic_cast<const std::runtime_error*>(se); const sns::system_error* sy = dynamic_cast<const sns::system_error*>(se);
    if (!re || !sy) fail("an exception of the library is not a system_error");
    int n = 0;
    if (dynamic_cast<const bs::lock_error*>(se)) { o.ex = E_LOCK; ++n; }
    if (dynamic_cast<const bs::wait_error*>(se)) { o.ex = E_WAIT; ++n; }
    if (dynamic_cast<const bs::resource_error*>(se)) { o.ex = E_RES; ++n; }
    if (dynamic_cast<const bs::overflow_error*>(se)) { o.ex = E_OVER; ++n; }
    if (n != 1) o.ex = E_OTHER;
    o.code = e.code().value();
    if (sy->code() != e.code()) fail("code() differs between the exception and its base");
    if (e.native_error() != o.code) fail("native_error() differs from code().value()");
    if (e.code().category() != sns::system_category()) fail("the error code is not in the system category");
    if (!e.what() || !*e.what()) fail("the exception has no message");
}
// runs f, in a thread of its own if told so
template<class F> Out attempt(F f, bool thread = false) {
    Out o;
    auto go = [&] {
        try { o.val = f(); }
        catch (const bs::runtime_exception& e) { HarnessScope hs; check_exception(e, o); }
        catch (const std::bad_alloc&) { HarnessScope hs; fail("bad_alloc for no reason"); }
        catch (const std::exception&) { o.ex = E_OTHER; }
    };
    if (!thread) go();
    else { int fid = spawn("T", go); run_all(); if (!finished(fid)) fail(fmt("an operation is stuck after a failed or interrupted system call (blocked in %s)", block_kind(fid))); }
    if (tracing()) note(fmt("  -> %s", o.ex ? fmt("%s code %d", ename(o.ex), o.code).c_str() : o.val ? "true" : "false / done"));
    return o;
}
// ---- what fails
struct Fault { int err = 0; int eintr = 0; };   // err: error code to inject; eintr: number of interruptions
const char* const LOCKS[] = { "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_timedlock", "pthread_mutex_clocklock" };
const char* const CONDS[] = { "pthread_cond_wait", "pthread_cond_timedwait", "pthread_cond_clockwait" };
int draw_err(bool cond) {
    static const int l[] = { EINVAL, EAGAIN, EDEADLK, ENOTRECOVERABLE, EPERM, ENOMEM, 12345 }, c[] = { EINVAL, EPERM, ENOTRECOVERABLE, ENOMEM, EAGAIN, 4321 };
    return cond ? c[draw(6)] : l[draw(7)];
}
void arm_locks(u32 nth, int err) { for (const char* f : LOCKS) inject(f, nth, err); }
void arm_conds(u32 nth, int err) { for (const char* f : CONDS) inject(f, nth, err); }
void arm_eintr(u32 n, bool sems, bool pth) {
    for (u32 k = 0; k < n; ++k) {
        if (sems) { inject("sem_wait", 1, EINTR); inject("sem_timedwait", 1, EINTR); inject("sem_clockwait", 1, EINTR); inject("sem_trywait", 1, EINTR); inject("futex_wait", 1, EINTR); }
        if (pth) { for (int i = 0; i < 3; ++i) inject(LOCKS[i], 1, EINTR); for (int i = 0; i < 2; ++i) inject(CONDS[i], 1, EINTR);   /* (systems with that bug had no clock variants) */ inject("pthread_mutex_unlock", 1, EINTR); }
    }
}
void expect(const Out& o, int ex, int code, const char* what) {
    if (o.ex == E_NONE) fail(fmt("%s: the failed system call was reported as %s instead of %s", what, o.val ? "success" : "a normal return", ename(ex)));
    if (o.ex != ex) fail(fmt("%s: %s instead of %s", what, ename(o.ex), ename(ex)));
    if (o.code != code) fail(fmt("%s: the exception carries code %d instead of %d", what, o.code, code));
    nontrivial(); label(ename(ex));
}
void expect_ok(const Out& o, bool val, const char* what) {
    if (o.ex) fail(fmt("%s: %s (code %d) although no system call failed", what, ename(o.ex), o.code));
    if (o.val != val) fail(fmt("%s: reported %s", what, o.val ? "success wrongly" : "failure wrongly"));
}
// ---- three ways to give a timeout
struct T3 { u32 how, entry; i64 ns; };
T3 draw_t3() { static const i64 n[] = { 0, 1, 1000, 5000000, 1500000000, -5, -2000000000 }; T3 t; t.how = draw(3); t.entry = draw(2); t.ns = n[draw(7)]; return t; }
#define TIMED(t, REL_T, REL_F, ABS_T, ABS_U) ( \
    (t).how == 0 ? ((t).entry ? SUT(REL_F(std::chrono::nanoseconds((t).ns))) : SUT(REL_T(std::chrono::nanoseconds((t).ns)))) : \
    (t).how == 1 ? ((t).entry ? SUT(ABS_U(std::chrono::system_clock::time_point(std::chrono::nanoseconds(now_rt() + (t).ns)))) : SUT(ABS_T(std::chrono::system_clock::time_point(std::chrono::nanoseconds(now_rt() + (t).ns))))) : \
    ((t).entry ? SUT(ABS_U(boost::chrono::steady_clock::time_point(boost::chrono::nanoseconds(now_mono() + (t).ns)))) : SUT(ABS_T(boost::chrono::steady_clock::time_point(boost::chrono::nanoseconds(now_mono() + (t).ns))))))

// ------------------------------------------------------------------ mutexes
template<class M> bool is_free(M& m) { bool r = SUT(m.try_lock()); if (r) SUTV(m.unlock()); return r; }
template<class M> struct TimedOf { static bool call(M& m, const T3&) { return SUT(m.try_lock()); } static const bool timed = false; };
template<> struct TimedOf<bs::timed_mutex> { static bool call(bs::timed_mutex& m, const T3& t) { return TIMED(t, m.timed_lock, m.try_lock_for, m.timed_lock, m.try_lock_until); } static const bool timed = true; };
template<class M> void mutex_case(const char* name, bool emu) {
    M* m = nullptr; SUTV(m = new M); u32 n = 1 + draw(4);
    for (u32 k = 0; k < n; ++k) {
        bool held = draw(3) == 2; if (held) SUTV(m->lock());
        u32 op = draw(TimedOf<M>::timed ? 5 : 4); T3 t = draw_t3();
        if (held && (op == 0 || op == 2)) op = 1;                               // an untimed lock would wait for ever
        Fault f; if (draw(4)) f.err = draw_err(emu); else if (P_EINTR) f.eintr = 1 + (int)draw(4);
        if (emu && !(held && op == 4 && f.err)) f.err = 0;                      // the emulation only reports failures of its condition variable
        inject_clear(); if (f.err) { if (emu) arm_conds(1, f.err); else arm_locks(1, f.err); } else if (f.eintr) arm_eintr((u32)f.eintr, false, true);
        if (tracing()) note(fmt("%s op %u %s, error %d, interruptions %d", name, op, held ? "(held)" : "", f.err, f.eintr));
        bool own = false;
        Out o = attempt([&]() -> bool {
            switch (op) {
            case 0: SUTV(m->lock()); own = true; break;
            case 1: own = SUT(m->try_lock()); break;
            case 2: { bs::unique_lock<M> lk(*m, bs::defer_lock); try { SUTV(lk.lock()); } catch (...) { if (lk.owns_lock()) fail("a lock object owns a mutex it failed to lock"); throw; } own = lk.owns_lock(); SUTV(lk.unlock()); own = false; return true; }
            case 3: { bs::unique_lock<M> lk(*m, bs::defer_lock); try { SUT(lk.try_lock()); } catch (...) { if (lk.owns_lock()) fail("a lock object owns a mutex it failed to lock"); throw; } bool r = lk.owns_lock(); if (r) SUTV(lk.unlock()); return r; }
            default: own = TimedOf<M>::call(*m, t);
            }
            if (own) SUTV(m->unlock());
            return own;
        }, held);
        bool fired = inject_fired(); inject_clear();
        if (fired && f.err) expect(o, E_LOCK, f.err, name); else { expect_ok(o, !held, name); if (fired) { nontrivial(); label("interrupted"); } }
        if (is_free(*m) == held) fail(fmt("%s: a failed operation changed the ownership of the mutex", name));
        if (held) SUTV(m->unlock());
    }
    SUTV(delete m);
}
// ------------------------------------------------------------------ semaphore and events
struct Prim { virtual ~Prim() {} virtual void post() = 0; virtual void wait() = 0; virtual bool try_wait() = 0; virtual bool timed(const T3&) = 0; virtual void reset() {} };
template<class X> void signal_it(X& x) { SUTV(x.post()); }
void signal_it(bs::manual_reset_event& x) { SUTV(x.set()); }
template<class X> struct PrimOf : Prim { X x; template<class... A> explicit PrimOf(A... a) : x(a...) {} void post() override { signal_it(x); } void wait() override { SUTV(x.wait()); } bool try_wait() override { return SUT(x.try_wait()); } bool timed(const T3& t) override { return TIMED(t, x.timed_wait, x.wait_for, x.timed_wait, x.wait_until); } };
struct Manual : PrimOf<bs::manual_reset_event> { void reset() override { SUTV(x.reset()); } };
void prim_case(u32 kind) {       // 0 semaphore, 1 auto-reset, 2 manual-reset
    static const char* const names[] = { "semaphore", "auto_reset_event", "manual_reset_event" }; const char* name = names[kind];
    static const u32 inits[] = { 0, 1, 2, INT_MAX, (u32)INT_MAX - 1, UINT_MAX, UINT_MAX - 1 };
    u64 n0 = kind == 0 ? inits[draw(EMULATED ? 7 : 5)] : 0; const u64 top = kind ? 1 : EMULATED ? UINT_MAX : INT_MAX;
    Prim* p = nullptr; SUTV(p = kind == 0 ? (Prim*)new PrimOf<bs::semaphore>((unsigned)n0) : kind == 1 ? (Prim*)new PrimOf<bs::auto_reset_event>() : (Prim*)new Manual);
    u64 count = n0; u32 n = 1 + draw(5);
    for (u32 k = 0; k < n; ++k) {
        u32 op = draw(kind == 2 ? 5 : 4); T3 t = draw_t3();
        if (op == 1 && count == 0) op = 2;
        Fault f; u32 fk = draw(4); bool cond = false;
        if (EMULATED && fk < 2) { cond = fk == 1; f.err = draw_err(cond); } else if (kind == 0 && !EMULATED && op == 0 && fk == 0) f.err = EOVERFLOW; else if (fk < 3) f.eintr = 1 + (int)draw(4);
        inject_clear(); if (f.err == EOVERFLOW) inject("sem_post", 1, EOVERFLOW); else if (f.err) { if (cond) arm_conds(1, f.err); else arm_locks(1, f.err); } else if (f.eintr) arm_eintr((u32)f.eintr, true, P_EINTR);
        if (tracing()) note(fmt("%s (count %llu) op %u, timeout %lld, error %d, interruptions %d", name, (unsigned long long)count, op, (long long)t.ns, f.err, f.eintr));
        Out o = attempt([&]() -> bool { switch (op) { case 0: p->post(); return true; case 1: p->wait(); return true; case 2: return p->try_wait(); case 3: return p->timed(t); default: p->reset(); return true; } });
        bool fired = inject_fired(); inject_clear();
        const bool full = kind == 0 && op == 0 && count == top;
        if (fired && f.err) expect(o, f.err == EOVERFLOW ? E_OVER : cond ? E_WAIT : E_LOCK, f.err, name);
        else if (full) { if (o.ex != E_OVER) fail(fmt("semaphore: a post beyond the greatest count was reported as %s instead of overflow_error", o.ex ? ename(o.ex) : "success")); if (o.code != EOVERFLOW) fail("semaphore: the overflow_error does not carry the code value_too_large"); nontrivial(); label("overflow"); }
        else {
            expect_ok(o, op == 0 || op == 1 || op == 4 ? true : count > 0, name);
            if (fired) { nontrivial(); label("interrupted"); }
            if (op == 0) { if (kind) count = 1; else ++count; } else if (op == 4) count = 0; else if (count && kind != 2) --count;
        }
    }
    // the state is what the model says
    for (u32 k = 0; k < 3; ++k) { Out o = attempt([&] { return p->try_wait(); }); expect_ok(o, count > 0, name); if (count && kind != 2) --count; }
    if (kind == 0 && count + 3 > 10 && count > top - 16) { u64 room = top - count; for (u64 k = 0; k < room; ++k) expect_ok(attempt([&] { p->post(); return true; }), true, name); Out o = attempt([&] { p->post(); return true; }); if (o.ex != E_OVER) fail("semaphore: failed operations changed the number of permits"); }
    SUTV(delete p);
}
// ------------------------------------------------------------------ condition variables
struct UserLock { bool held = true; int locks = 0, unlocks = 0; void lock() { HarnessScope hs; if (held) fail("the user's lock is locked while it is held"); held = true; ++locks; } void unlock() { HarnessScope hs; if (!held) fail("the user's lock is unlocked while it is not held"); held = false; ++unlocks; } };
template<class CV, class L> bool cv_op(CV& c, L& lk, u32 op, const T3& t, bool& flag) {
    auto pred = [&]() -> bool { HarnessScope hs; return flag; };
#define P_(f) [&](auto const& x) { return c.f(lk, x); }
#define PP_(f) [&](auto const& x) { return c.f(lk, x, pred); }
#define PU_(f) [&](auto const& x) { return c.f(lk, x) == bs::cv_status::no_timeout; }
    auto tw = P_(timed_wait); auto wf = PU_(wait_for); auto wu = PU_(wait_until); auto twp = PP_(timed_wait); auto wfp = PP_(wait_for); auto wup = PP_(wait_until);
    switch (op) {
    case 0: SUTV(c.wait(lk)); return true;
    case 1: SUTV(c.wait(lk, pred)); return true;
    case 2: return TIMED(t, tw, wf, tw, wu);
    default: return TIMED(t, twp, wfp, twp, wup);
    }
}
template<class CV, class M> void cv_case(const char* name, bool any) {
    CV* c = nullptr; M* m = nullptr; SUTV(c = new CV; m = new M); u32 n = 1 + draw(3);
    for (u32 k = 0; k < n; ++k) {
        u32 op = draw(4); T3 t = draw_t3(); bool cond = !any || draw(2); u32 nth = 1 + draw(2); bool user = any && draw(2);
        Fault f; if (draw(4) || !P_EINTR) f.err = draw_err(cond); else f.eintr = 1 + (int)draw(4);
        bool flag = false; if (!f.err) op = 2 + (op & 1);                              // untimed waits end by the injected failure only
        if ((f.err && op < 2) || (!cond && !user)) nth = 1;                           // (the caller's own mutex must not fail)
        bool own = false, unbalanced = false, fired = false, notify = any && draw(5) == 4; if (notify) { cond = false; nth = 1; }
        inject_clear();
        if (tracing()) note(fmt("%s op %u timeout %lld %s, error %d at %s call %u, interruptions %d", name, op, (long long)t.ns, user ? "user lock" : "", f.err, cond ? "condition" : "lock", nth, f.eintr));
        Out o = attempt([&]() -> bool {
            auto go = [&](auto& lk) -> bool {
                if (f.err) { if (cond) arm_conds(nth, f.err); else arm_locks(nth, f.err); } else arm_eintr((u32)f.eintr, false, true);
                if (notify) { if (op & 1) SUTV(c->notify_one()); else SUTV(c->notify_all()); return true; }
                return cv_op(*c, lk, op, t, flag);
            };
            if constexpr (std::is_same<CV, bs::condition_variable_any>::value) if (user) {
                UserLock u; bool r = false; try { r = go(u); } catch (...) { own = u.held; unbalanced = u.locks != u.unlocks; throw; } own = u.held; unbalanced = u.locks != u.unlocks; return r;
            }
            SUTV(m->lock()); bs::unique_lock<M> lk(*m, bs::adopt_lock);
            auto done = [&] { own = lk.owns_lock() && mutex_model_owner(m->native_handle()) == self(); fired = inject_fired(); inject_clear(); if (lk.owns_lock()) SUTV(lk.unlock()); };
            bool r = false; try { r = go(lk); } catch (...) { done(); throw; } done(); return r;
        });
        if (inject_fired()) fired = true;
        inject_clear();
        if (!own) fail(fmt("%s: a failed wait returned without owning the lock", name));
        if (unbalanced) fail(fmt("%s: the user's lock was not re-acquired exactly as often as it was released", name));
        if (fired && f.err) expect(o, cond ? E_WAIT : E_LOCK, f.err, name);
        else if (!notify) { if (o.ex) fail(fmt("%s: %s (code %d) although no system call failed", name, ename(o.ex), o.code)); if (op == 3 && o.val) fail(fmt("%s: a predicate wait returned true although the predicate is false", name)); if (fired) { nontrivial(); label("interrupted"); } }
        else expect_ok(o, true, name);
    }
    if (any || draw(2)) { // it still works: a waiter is woken
        bool flag = false; int fid = spawn("waiter", [&] { SUTV(m->lock()); { bs::unique_lock<M> lk(*m, bs::adopt_lock); SUTV(c->wait(lk, [&] { HarnessScope hs; return flag; })); SUTV(lk.unlock()); } });
        run_all(); SUTV(m->lock()); flag = true; SUTV(m->unlock()); SUTV(c->notify_all()); run_all();
        if (!finished(fid)) fail(fmt("%s: unusable after a failed wait", name));
    }
    SUTV(delete c; delete m);
}
// ------------------------------------------------------------------ constructors
void ctor_case() {
    static const int errs[] = { ENOMEM, EAGAIN, EPERM, EINVAL, ENOSPC, ENOSYS, 777 };
    u32 kind = draw(7); int err = errs[draw(7)]; u32 nth = 1 + draw(2), which = draw(3); bool sem = which == 0;
    u64 mi = os_calls("pthread_mutex_init"), ci = os_calls("pthread_cond_init"), si = os_calls("sem_init"), md = os_calls("pthread_mutex_destroy"), cd = os_calls("pthread_cond_destroy"), sd = os_calls("sem_destroy");
    size_t live = live_allocs();
    bool lit = draw(4) == 3 && !EMULATED; unsigned init = lit ? (unsigned)INT_MAX + 1u + draw(3) : draw(3);
    inject_clear(); if (sem) inject("sem_init", 1, err); else inject(which == 1 ? "pthread_mutex_init" : "pthread_cond_init", nth, err);
    if (tracing()) note(fmt("construct object %u, error %d at call %u of %s", kind, err, nth, sem ? "sem_init" : which == 1 ? "pthread_mutex_init" : "pthread_cond_init"));
    bool made = false;
    Out o = attempt([&]() -> bool {
        SutScope s;
        switch (kind) {
        case 0: delete new bs::mutex; break;
        case 1: delete new bs::timed_mutex; break;
        case 2: delete new bs::condition_variable; break;
        case 3: delete new bs::condition_variable_any; break;
        case 4: delete new bs::semaphore(init); break;
        case 5: delete new bs::auto_reset_event; break;
        default: delete new bs::manual_reset_event; break;
        }
        made = true; return true;
    });
    bool fired = inject_fired(); inject_clear();
    if (fired) expect(o, E_RES, err, "constructor");
    else if (kind == 4 && lit) { expect(o, E_RES, EINVAL, "semaphore constructor with too great a count"); fired = true; }
    else { expect_ok(o, true, "constructor"); if (!made) fail("a constructor did nothing"); }
    u64 mutexes = os_calls("pthread_mutex_init") - mi, conds = os_calls("pthread_cond_init") - ci, sems = os_calls("sem_init") - si;
    if (INIT || sems) {
        u64 failed = fired ? 1 : 0;
        u64 dest = os_calls("pthread_mutex_destroy") - md + os_calls("pthread_cond_destroy") - cd + os_calls("sem_destroy") - sd;
        if (INIT ? mutexes + conds + sems - failed != dest : sems - failed > os_calls("sem_destroy") - sd) fail("a constructor that failed left an operating system object behind, or destroyed one twice");
    }
    if (live_allocs() != live) fail("a constructor that failed leaked memory");
}
// ------------------------------------------------------------------ exception classes
std::string draw_text() { static const char* t[] = { "boom", "", "a longer message: with punctuation, and 100% of it", "x" }; std::string s = t[draw(4)]; u32 n = draw(4); for (u32 k = 0; k < n; ++k) s += (char)(32 + draw(95)); return s; }
template<class E> void check_built(const E& e, int code, const std::string& msg, const char* name) {
    auto one = [&](const bs::runtime_exception& x, const char* how) {
        if (x.code().value() != code || x.native_error() != code) fail(fmt("%s(%d, ...) %s carries code %d", name, code, how, x.code().value()));
        if (x.code().category() != sns::system_category()) fail(fmt("%s %s: not in the system category", name, how));
        if (std::string(x.what()).find(msg) == std::string::npos) fail(fmt("%s %s lost its message", name, how));
        const std::exception& base = x; if (!dynamic_cast<const sns::system_error*>(&base)) fail(fmt("%s is not a system_error", name));
        if (!dynamic_cast<const std::runtime_error*>(&base)) fail(fmt("%s is not a std::runtime_error", name));
        if (!dynamic_cast<const E*>(&base)) fail(fmt("%s %s lost its type", name, how));
    };
    one(e, "built"); E c(e); one(c, "copied"); E a(0); a = e; one(a, "assigned");
    std::exception_ptr p; try { throw e; } catch (...) { p = std::current_exception(); }
    int caught = 0;
    try { std::rethrow_exception(p); } catch (const bs::runtime_exception& x) { one(x, "rethrown"); ++caught; } catch (...) { fail("an exception of the library cannot be caught as runtime_exception"); }
    try { throw c; } catch (const sns::system_error& x) { if (x.code() != e.code()) fail("code() changed when caught as system_error"); ++caught; } catch (...) { fail("an exception of the library cannot be caught as system_error"); }
    try { boost::throw_exception(e); } catch (const E& x) { one(x, "thrown by boost::throw_exception"); ++caught; } catch (...) { fail("boost::throw_exception lost the type of the exception"); }
    if (caught != 3) fail("?");
    nontrivial(); label("exception object");
}
template<class E> void build_exception(const char* name, const char* dflt, int dcode) {
    int code = draw(3) ? (int)draw(140) : (int)draw_range(-5, 1 << 20); std::string m = draw_text();
    if (tracing()) note(fmt("%s(%d, \"%s\")", name, code, m.c_str()));
    switch (draw(4)) {
    case 0: check_built(E(), dcode, dflt, name); break;
    case 1: check_built(E(code), code, dflt, name); break;
    case 2: check_built(E(code, m.c_str()), code, m, name); break;
    default: check_built(E(code, m), code, m, name); break;
    }
}
template<class E> void build_errc(const char* name) {
    static const errc_t v[] = { (errc_t)EPERM, (errc_t)EDEADLK, (errc_t)ENOMEM, (errc_t)EINVAL, (errc_t)EOVERFLOW }; errc_t c = v[draw(5)]; std::string m = draw_text();
    if (draw(2)) check_built(E(c, m), (int)c, m, name); else check_built(E(c, m.c_str()), (int)c, m, name);
}
void exception_case() {
    switch (draw(7)) {
    case 0: build_exception<bs::lock_error>("lock_error", "lock_error", 0); break;
    case 1: build_exception<bs::wait_error>("wait_error", "wait_error", 0); break;
    case 2: build_exception<bs::resource_error>("resource_error", "resource_error", 0); break;
    case 3: build_exception<bs::overflow_error>("overflow_error", "overflow_error", EOVERFLOW); break;
    case 4: build_exception<bs::runtime_exception>("runtime_exception", "", 0); break;
    case 5: build_errc<bs::lock_error>("lock_error"); break;
    default: build_errc<bs::resource_error>("resource_error"); break;
    }
}
void c18() {
    cfg.race_check = false; cfg.eintr_pct = 0; static const i64 ns[] = { 0, 999999999, 500000000 }; cfg.rt_base_ns = ns[draw(3)];
    if (draw(3) == 2) { static const u32 e[] = { 15, 40, 80 }; cfg.eintr_pct = e[draw(3)]; cfg.pthread_eintr = P_EINTR; cfg.spurious_cond = draw(2); }
    switch (draw(12)) {
    case 0: mutex_case<bs::mutex>("mutex", false); break;
    case 1: case 2: mutex_case<bs::timed_mutex>("timed_mutex", TMEMU); break;
    case 3: case 4: prim_case(0); break;
    case 5: prim_case(1); break;
    case 6: prim_case(2); break;
    case 7: cv_case<bs::condition_variable, bs::mutex>("condition_variable", false); break;
#ifndef TM_EMU
    case 8: cv_case<bs::condition_variable, bs::timed_mutex>("condition_variable (timed_mutex)", false); break;
#endif
    case 9: cv_case<bs::condition_variable_any, bs::mutex>("condition_variable_any", true); break;
    case 10: ctor_case(); break;
    default: exception_case(); break;
    }
}
}
int main(int c, char** v) {
    static const Prop p[] = { { "C18", "a system call failed or was interrupted, or an exception object was examined", c18 } };
    return driver_main(c, v, p, 1);
}
