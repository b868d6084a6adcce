// One lock environment of the condition variables per OBJ.
#include "p_cv.hpp"
#ifdef TM_EMU
#include <unistd.h>
#undef _POSIX_TIMEOUTS
#endif
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/mutexes/spin_mutex.hpp>
#include <boost/sync/mutexes/shared_spin_mutex.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/locks/shared_lock.hpp>
#include <boost/sync/locks/lock_guard.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
#include <boost/sync/condition_variables/condition_variable_any.hpp>
namespace bs = boost::sync;
namespace {
template<class CV, class LK> void do_wait(CV& c, LK& lk, const CallWait& w, WaitOut& out, const std::function<bool()>& pr) {
    auto pred = [&pr]() -> bool { HarnessScope hs; return pr(); };
    if (!w.timed) { op_begin(false, 0); out.ok = true; if (w.pred) SUTV(c.wait(lk, pred)); else SUTV(c.wait(lk)); return; }
    out.ok = with_timeout(w.t, out.tr, [&](auto const& o, auto tag) -> bool {
        if constexpr (decltype(tag)::abs) { if (!w.pred) return w.t.entry ? SUT(c.wait_until(lk, o)) == bs::cv_status::no_timeout : SUT(c.timed_wait(lk, o)); return w.t.entry ? SUT(c.wait_until(lk, o, pred)) : SUT(c.timed_wait(lk, o, pred)); }
        else { if (!w.pred) return w.t.entry ? SUT(c.wait_for(lk, o)) == bs::cv_status::no_timeout : SUT(c.timed_wait(lk, o)); return w.t.entry ? SUT(c.wait_for(lk, o, pred)) : SUT(c.timed_wait(lk, o, pred)); }
    });
}
#if OBJ == 1 || OBJ == 2 || OBJ == 3 || OBJ == 4 || OBJ == 8
template<class CV, class M> struct E : Env {
    CV c[2]; M m; const char* nm; explicit E(const char* n) : nm(n) {}
    const char* name() override { return nm; }
    struct H : Handle { E& e; bs::unique_lock<M> lk; explicit H(E& x) : e(x), lk(x.m, bs::defer_lock) { SUTV(lk.lock()); }
        void wait(const CallWait& w, WaitOut& o, const std::function<bool()>& p) override { do_wait(e.c[w.cv], lk, w, o, p); }
        bool owns() override { return lk.owns_lock(); } void unlock() override { SUTV(lk.unlock()); } };
    Handle* acquire() override { return new H(*this); }
    void lock_n() override { SUTV(m.lock()); } void unlock_n() override { SUTV(m.unlock()); }
    void notify(u32 k, bool all) override { if (all) SUTV(c[k].notify_all()); else SUTV(c[k].notify_one()); }
};
#elif OBJ == 5
template<class CV, class M> struct E : Env {     // the mutex itself is the lock
    CV c[2]; M m; const char* nm; explicit E(const char* n) : nm(n) {}
    const char* name() override { return nm; }
    struct H : Handle { E& e; explicit H(E& x) : e(x) { SUTV(e.m.lock()); }
        void wait(const CallWait& w, WaitOut& o, const std::function<bool()>& p) override { do_wait(e.c[w.cv], e.m, w, o, p); }
        bool owns() override { return true; } void unlock() override { SUTV(e.m.unlock()); } };
    Handle* acquire() override { return new H(*this); }
    void lock_n() override { SUTV(m.lock()); } void unlock_n() override { SUTV(m.unlock()); }
    void notify(u32 k, bool all) override { if (all) SUTV(c[k].notify_all()); else SUTV(c[k].notify_one()); }
};
#elif OBJ == 6
struct E : Env {
    bs::condition_variable_any c[2]; bs::shared_spin_mutex m; const char* nm; explicit E(const char* n) : nm(n) {}
    const char* name() override { return nm; } bool shared() override { return true; }
    struct H : Handle { E& e; bs::shared_lock<bs::shared_spin_mutex> lk; explicit H(E& x) : e(x), lk(x.m, bs::defer_lock) { SUTV(lk.lock()); }
        void wait(const CallWait& w, WaitOut& o, const std::function<bool()>& p) override { do_wait(e.c[w.cv], lk, w, o, p); }
        bool owns() override { return lk.owns_lock(); } void unlock() override { SUTV(lk.unlock()); } };
    Handle* acquire() override { return new H(*this); }
    void lock_n() override { SUTV(m.lock()); } void unlock_n() override { SUTV(m.unlock()); }
    void notify(u32 k, bool all) override { if (all) SUTV(c[k].notify_all()); else SUTV(c[k].notify_one()); }
};
#elif OBJ == 7
struct RecLock {                                  // nothing but lock() and unlock(), checked
    bs::spin_mutex& m; explicit RecLock(bs::spin_mutex& x) : m(x) {}
    void lock() {
        HarnessScope hs; RecStat& s = recstat[self()];
        SIM_CHECK(s.owner != self(), "condition_variable_any: lock() called on a lock the caller already owns");
        s.locks++; sched_point();
        if (s.fail_lock && --s.fail_lock == 0) { s.threw_lock = true; throw LockErr{ 1 }; }
        SUTV(m.lock()); s.owner = self();
    }
    void unlock() {
        HarnessScope hs; RecStat& s = recstat[self()];
        SIM_CHECK(s.owner == self(), "condition_variable_any: unlock() called on a lock the caller does not own");
        s.unlocks++; sched_point();
        if (s.fail_unlock && --s.fail_unlock == 0) { s.threw_unlock = true; throw LockErr{ 2 }; }
        s.owner = -1; SUTV(m.unlock()); sched_point();
    }
};
struct E : Env {
    bs::condition_variable_any c[2]; bs::spin_mutex m; const char* nm; explicit E(const char* n) : nm(n) {}
    const char* name() override { return nm; } bool rec() override { return true; }
    struct H : Handle { E& e; RecLock lk; explicit H(E& x) : e(x), lk(x.m) { SUTV(e.m.lock()); recstat[self()].owner = self(); }
        void wait(const CallWait& w, WaitOut& o, const std::function<bool()>& p) override { do_wait(e.c[w.cv], lk, w, o, p); }
        bool owns() override { return recstat[self()].owner == self(); } void unlock() override { recstat[self()].owner = -1; SUTV(e.m.unlock()); } };
    Handle* acquire() override { return new H(*this); }
    void lock_n() override { SUTV(m.lock()); } void unlock_n() override { SUTV(m.unlock()); }
    void notify(u32 k, bool all) override { if (all) SUTV(c[k].notify_all()); else SUTV(c[k].notify_one()); }
};
#endif
}
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
Env* CAT(make_env_, OBJ)() {
#if OBJ == 1
    return new E<bs::condition_variable, bs::mutex>("condition_variable/mutex");
#elif OBJ == 2
#ifdef TM_EMU
    return new E<bs::condition_variable, bs::mutex>("condition_variable/mutex");
#else
    return new E<bs::condition_variable, bs::timed_mutex>("condition_variable/timed_mutex");
#endif
#elif OBJ == 3
    return new E<bs::condition_variable_any, bs::mutex>("condition_variable_any/unique_lock<mutex>");
#elif OBJ == 4
    return new E<bs::condition_variable_any, bs::spin_mutex>("condition_variable_any/unique_lock<spin_mutex>");
#elif OBJ == 5
    return new E<bs::condition_variable_any, bs::mutex>("condition_variable_any/mutex itself");
#elif OBJ == 6
    return new E("condition_variable_any/shared_lock<shared_spin_mutex>");
#elif OBJ == 7
    return new E("condition_variable_any/user-defined lock");
#elif OBJ == 8
    return new E<bs::condition_variable_any, bs::timed_mutex>("condition_variable_any/unique_lock<timed_mutex>");
#endif
}
