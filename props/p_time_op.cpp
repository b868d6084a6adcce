// One timed primitive, compiled once per OBJ (and flavour).
#include "p_time.hpp"
#if OBJ == 1
#ifdef TM_EMU
#include <unistd.h>
#undef _POSIX_TIMEOUTS
#endif
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/mutexes/mutex.hpp>
namespace bs = boost::sync;
#define CALL(x) ([&](auto const& o, auto tag) -> bool { if constexpr (decltype(tag)::abs) return t.entry ? SUT(x.try_lock_until(o)) : SUT(x.timed_lock(o)); else return t.entry ? SUT(x.try_lock_for(o)) : SUT(x.timed_lock(o)); })
namespace { struct T : Target {
    bs::timed_mutex m; bool held = false;
    const char* name() override { return "timed_mutex"; }
    bool timed(const Tmo& t, TmoRun& r, u32) override { return with_timeout(t, r, CALL(m)); }
    bool timed_x(u32 form, u32 entry, i64 ns, XRun& r) override { struct { u32 entry; } t{ entry }; return with_x(form, ns, r, CALL(m)); }
    void untimed(u32) override { SUTV(m.lock()); }
    void block() override { SUTV(m.lock()); held = true; }
    void signal() override { if (held) { held = false; SUTV(m.unlock()); } }
    void disturb(u32) override { if (held) { SUTV(m.unlock()); SUTV(m.lock()); } }
    void after_success() override { SUTV(m.unlock()); }
};
struct U : Target {   // (untimed only)
    bs::mutex m; bool held = false;
    const char* name() override { return "mutex"; }
    bool timed(const Tmo&, TmoRun&, u32) override { op_begin(false, 0); untimed(0); return true; }
    bool timed_x(u32, u32, i64, XRun&) override { untimed(0); return true; }
    void untimed(u32) override { SUTV(m.lock()); }
    void block() override { SUTV(m.lock()); held = true; }
    void signal() override { if (held) { held = false; SUTV(m.unlock()); } }
    void disturb(u32) override { if (held) { SUTV(m.unlock()); SUTV(m.lock()); } }
    void after_success() override { SUTV(m.unlock()); }
}; }
Target* make_timed_mutex() { return new T; }
Target* make_mutex() { return new U; }
#elif OBJ == 2 || OBJ == 3 || OBJ == 4
#ifdef EMU
#include <boost/sync/detail/semaphore/semaphore_emulation.hpp>
#include <boost/sync/detail/events/auto_reset_event_emulation.hpp>
#include <boost/sync/detail/events/manual_reset_event_emulation.hpp>
#else
#include <boost/sync/semaphore.hpp>
#include <boost/sync/events/auto_reset_event.hpp>
#include <boost/sync/events/manual_reset_event.hpp>
#endif
namespace bs = boost::sync;
#define CALL(x) ([&](auto const& o, auto tag) -> bool { if constexpr (decltype(tag)::abs) return t.entry ? SUT(x.wait_until(o)) : SUT(x.timed_wait(o)); else return t.entry ? SUT(x.wait_for(o)) : SUT(x.timed_wait(o)); })
namespace { struct T : Target {
#if OBJ == 2
    bs::semaphore s; const char* name() override { return "semaphore"; }
    void signal() override { SUTV(s.post()); }
    void disturb(u32) override { SUTV(s.post()); SUT(s.try_wait()); }
#elif OBJ == 3
    bs::auto_reset_event s; const char* name() override { return "auto_reset_event"; }
    void signal() override { SUTV(s.post()); }
    void disturb(u32) override { SUTV(s.post()); SUT(s.try_wait()); }
#else
    bs::manual_reset_event s; const char* name() override { return "manual_reset_event"; }
    void signal() override { SUTV(s.set()); }
    void disturb(u32) override { SUTV(s.set()); SUTV(s.reset()); }
#endif
    void untimed(u32) override { SUTV(s.wait()); }
    bool timed(const Tmo& t, TmoRun& r, u32) override { return with_timeout(t, r, CALL(s)); }
    bool timed_x(u32 form, u32 entry, i64 ns, XRun& r) override { struct { u32 entry; } t{ entry }; return with_x(form, ns, r, CALL(s)); }
}; }
#if OBJ == 2
Target* make_semaphore() { return new T; }
#elif OBJ == 3
Target* make_auto_event() { return new T; }
#else
Target* make_manual_event() { return new T; }
#endif
#else
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/mutexes/spin_mutex.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/locks/lock_guard.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
#include <boost/sync/condition_variables/condition_variable_any.hpp>
namespace bs = boost::sync;
// variant 0: no predicate, 1: predicate
#define CALL(v, lk) ([&](auto const& o, auto tag) -> bool { \
    auto pred = [&]() -> bool { HarnessScope hs; return flag; }; \
    if constexpr (decltype(tag)::abs) { if ((v) == 0) return t.entry ? SUT(c.wait_until(lk, o)) == bs::cv_status::no_timeout : SUT(c.timed_wait(lk, o)); return t.entry ? SUT(c.wait_until(lk, o, pred)) : SUT(c.timed_wait(lk, o, pred)); } \
    else { if ((v) == 0) return t.entry ? SUT(c.wait_for(lk, o)) == bs::cv_status::no_timeout : SUT(c.timed_wait(lk, o)); return t.entry ? SUT(c.wait_for(lk, o, pred)) : SUT(c.timed_wait(lk, o, pred)); } })
namespace { template<class CV, class M> struct T : Target {
    CV c; M m; bool flag = false; const char* nm;
    explicit T(const char* n) : nm(n) {}
    const char* name() override { return nm; }
    u32 variants() override { return 2; }
    void untimed(u32 v) override {
        SUTV(m.lock());
        { bs::unique_lock<M> lk(m, bs::adopt_lock); if (v) SUTV(c.wait(lk, [&]() -> bool { HarnessScope hs; return flag; })); else SUTV(c.wait(lk)); SUTV(lk.unlock()); }
    }
    bool loose(u32 v) override { return v == 0; }
    bool ready_succeeds(u32 v) override { return v == 1; }
    bool timed(const Tmo& t, TmoRun& r, u32 v) override {
        SUTV(m.lock()); bool ok;
        { bs::unique_lock<M> lk(m, bs::adopt_lock); ok = with_timeout(t, r, CALL(v, lk)); SIM_CHECK(lk.owns_lock(), std::string(nm) + ": a timed wait returned without owning the lock"); SUTV(lk.unlock()); }
        return ok;
    }
    bool timed_x(u32 form, u32 entry, i64 ns, XRun& r) override {
        struct { u32 entry; } t{ entry & 1 }; SUTV(m.lock()); bs::unique_lock<M> lk(m, bs::adopt_lock); u32 v = entry >> 1;
        bool ok = with_x(form, ns, r, CALL(v, lk)); SUTV(lk.unlock()); return ok;
    }
    void signal() override { SUTV(m.lock()); flag = true; SUTV(m.unlock()); SUTV(c.notify_all()); }
    void disturb(u32 how) override { if (how & 1) SUTV(c.notify_one()); else SUTV(c.notify_all()); }
}; }
#if OBJ == 5
#ifdef SIM_DARWIN   // (its timed_mutex does not go with condition_variable)
Target* make_cv(u32) { return new T<bs::condition_variable, bs::mutex>("condition_variable"); }
#else
Target* make_cv(u32 k) { if (k) return new T<bs::condition_variable, bs::timed_mutex>("condition_variable/timed_mutex"); return new T<bs::condition_variable, bs::mutex>("condition_variable"); }
#endif
#else
Target* make_cv_any(u32 k) { if (k) return new T<bs::condition_variable_any, bs::spin_mutex>("condition_variable_any/spin_mutex"); return new T<bs::condition_variable_any, bs::mutex>("condition_variable_any"); }
#endif
#endif
