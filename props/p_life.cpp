// C20: an object may be destroyed as soon as its last use has taken effect, even if the call that made the effect has not returned.
#include "common.hpp"
#ifdef EMU
#include <unistd.h>
#undef _POSIX_TIMEOUTS
#include <boost/sync/detail/semaphore/semaphore_emulation.hpp>
#include <boost/sync/detail/events/auto_reset_event_emulation.hpp>
#include <boost/sync/detail/events/manual_reset_event_emulation.hpp>
#else
#include <boost/sync/semaphore.hpp>
#include <boost/sync/events/auto_reset_event.hpp>
#include <boost/sync/events/manual_reset_event.hpp>
#endif
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/mutexes/spin_mutex.hpp>
#include <boost/sync/mutexes/shared_spin_mutex.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
#include <boost/sync/locks/unique_lock.hpp>
namespace bs = boost::sync;

static int inside;      // threads inside their last signalling call
template<class T> void destroy(T* p) { if (inside) { nontrivial(); label("destroyed while another call was returning"); } SUTV(delete p); }
static void stuck(const char* name) {
    std::string who; for (int i = 1; i < nfibers(); ++i) if (!finished(i)) who += fmt(" T%d(%s)", i - 1, block_kind(i));
    fail(fmt("%s: thread(s) blocked forever:", name) + who);
}

// ------------------------------------------------------------------ a mutex inside a reference-counted object
template<class M> struct Kind { static const bool timed = false, shared = false; };
template<> struct Kind<bs::timed_mutex> { static const bool timed = true, shared = false; };
template<> struct Kind<bs::shared_spin_mutex> { static const bool timed = false, shared = true; };
struct Step { u32 how; Tmo t; u32 work; };
template<class M> void acquire(M& m, const Step& s) {   // always ends owning the mutex
    if (s.how == 1) { if (SUT(m.try_lock())) return; }
    if constexpr (Kind<M>::timed) if (s.how >= 2) {
        TmoRun r; bool ok = with_timeout(s.t, r, [&](auto const& o, auto tag) -> bool {
            if constexpr (decltype(tag)::abs) return s.t.entry ? SUT(m.try_lock_until(o)) : SUT(m.timed_lock(o));
            else return s.t.entry ? SUT(m.try_lock_for(o)) : SUT(m.timed_lock(o));
        });
        op_end(); if (ok) return;
    }
    SUTV(m.lock());
}
template<class M> void mutex_life(const char* name) {
    label(name);
    u32 nth = 2 + draw(3); int refs = (int)nth; Cell guarded; bool destroyed = false;
    M* m; SUTV(m = new M);
    for (u32 i = 0; i < nth; ++i) {
        std::vector<Step> prog; u32 n = 1 + draw(3);
        for (u32 k = 0; k < n; ++k) { Step s; s.how = draw(Kind<M>::timed ? 4 : 2); s.t = s.how >= 2 ? draw_tmo() : Tmo{ 0, 0, 0 }; s.work = draw(3); if (Kind<M>::shared && k + 1 < n && draw(2)) s.how = 10 + draw(2); prog.push_back(s); }
        spawn(fmt("T%u", i).c_str(), [&, prog, m, name] {
            for (size_t k = 0; k < prog.size(); ++k) {
                const Step& s = prog[k]; bool fin = k + 1 == prog.size();
                if constexpr (Kind<M>::shared) if (s.how >= 10) {
                    if (s.how == 10) SUTV(m->lock_shared()); else if (!SUT(m->try_lock_shared())) continue;
                    for (u32 q = 0; q < s.work; ++q) sched_point();
                    SUTV(m->unlock_shared()); continue;
                }
                acquire(*m, s);
                guarded.write(guarded.v + 1, "datum guarded by the mutex"); for (u32 q = 0; q < s.work; ++q) sched_point();
                bool last = fin && --refs == 0;
                if (fin && !last) ++inside;
                SUTV(m->unlock());
                if (fin && !last) { sched_point(); --inside; }
                if (last) { destroyed = true; destroy(m); }
            }
        });
    }
    if (!run_all()) stuck(name);
    SIM_CHECK(destroyed, fmt("%s: the last owner did not destroy the object", name));
}

// the last use of a reader is its unlock_shared; the reader that came last locks exclusively after that and destroys
static void shared_life() {
    label("shared_spin_mutex, readers last");
    u32 nth = 2 + draw(3), arrived = 0; bool destroyed = false; Cell guarded;
    bs::shared_spin_mutex* m; SUTV(m = new bs::shared_spin_mutex);
    for (u32 i = 0; i < nth; ++i) {
        u32 pre = draw(3), work = draw(3), how = draw(2), fin = draw(2);
        spawn(fmt("R%u", i).c_str(), [&, m, pre, work, how, fin] {
            for (u32 k = 0; k < pre; ++k) { if (draw(2)) { SUTV(m->lock()); guarded.write(guarded.v + 1, "datum guarded by the mutex"); SUTV(m->unlock()); } else { SUTV(m->lock_shared()); guarded.read("datum guarded by the mutex"); SUTV(m->unlock_shared()); } }
            if (how || !SUT(m->try_lock_shared())) SUTV(m->lock_shared());
            guarded.read("datum guarded by the mutex"); for (u32 q = 0; q < work; ++q) sched_point();
            bool last = ++arrived == nth;
            if (!last) ++inside;
            SUTV(m->unlock_shared());
            if (!last) { sched_point(); --inside; }
            else { if (fin || !SUT(m->try_lock())) SUTV(m->lock()); guarded.write(0, "datum guarded by the mutex"); SUTV(m->unlock()); destroyed = true; destroy(m); }
        });
    }
    if (!run_all()) stuck("shared_spin_mutex");
    SIM_CHECK(destroyed, "shared_spin_mutex: the last owner did not destroy the object");
}

// ------------------------------------------------------------------ waits that end owning one signal
template<class T> void take(T& t, u32 how, const Tmo& tm) {
    if (how == 1) { if (SUT(t.try_wait())) return; }
    if (how >= 2) {
        TmoRun r; bool ok = with_timeout(tm, r, [&](auto const& o, auto tag) -> bool {
            if constexpr (decltype(tag)::abs) return tm.entry ? SUT(t.wait_until(o)) : SUT(t.timed_wait(o));
            else return tm.entry ? SUT(t.wait_for(o)) : SUT(t.timed_wait(o));
        });
        op_end(); if (ok) return;
        if (how == 3) { for (int k = 0; k < 3; ++k) if (SUT(t.try_wait())) return; }
    }
    SUTV(t.wait());
}
struct Take { u32 how; Tmo t; };
static Take draw_take() { Take x; x.how = draw(4); x.t = x.how >= 2 ? draw_tmo() : Tmo{ 0, 0, 0 }; return x; }

static void sem_life() {
    label("semaphore");
    u32 posters = 1 + draw(3), per = 1 + draw(2), n0 = draw(2); bool destroyed = false;
    bs::semaphore* s; SUTV(s = new bs::semaphore(n0));
    std::vector<Take> prog; for (u32 k = 0; k < posters * per + n0; ++k) prog.push_back(draw_take());
    for (u32 p = 0; p < posters; ++p) { u32 gap = draw(3); spawn(fmt("P%u", p).c_str(), [s, per, gap] { for (u32 k = 0; k < per; ++k) { for (u32 g = 0; g < gap; ++g) sched_point(); bool fin = k + 1 == per; if (fin) ++inside; SUTV(s->post()); if (fin) { sched_point(); --inside; } } }); }
    spawn("C", [&, s, prog] { for (const Take& t : prog) take(*s, t.how, t.t); destroyed = true; destroy(s); });
    if (!run_all()) stuck("semaphore");
    SIM_CHECK(destroyed, "semaphore: not destroyed");
}
// a chain of one-shot events: each is posted once, waited for once and destroyed by the waiter
template<class T, class Post> void event_life(const char* name, Post post, u32 waiters) {
    label(name);
    u32 n = 1 + draw(3); std::vector<T*> ev(n); std::vector<u32> left(n, waiters); u32 gone = 0;
    for (u32 k = 0; k < n; ++k) SUTV(ev[k] = new T);
    std::vector<u32> gaps; for (u32 k = 0; k < n; ++k) gaps.push_back(draw(4));
    u32 posters = draw(2) ? n : 1;
    for (u32 p = 0; p < posters; ++p) spawn(fmt("P%u", p).c_str(), [&, p, posters, gaps] { for (u32 k = p; k < n; k += posters) { for (u32 g = 0; g < gaps[k]; ++g) sched_point(); ++inside; SUTV(post(*ev[k])); sched_point(); --inside; } });
    for (u32 w = 0; w < waiters; ++w) {
        std::vector<Take> prog; for (u32 k = 0; k < n; ++k) prog.push_back(draw_take());
        spawn(fmt("W%u", w).c_str(), [&, prog] {
            for (u32 k = 0; k < n; ++k) {
                take(*ev[k], prog[k].how, prog[k].t);
                // the waiters agree by their own means on who is the last
                hb_release(&left[k]); bool last = --left[k] == 0; hb_acquire(&left[k]);
                if (last) { ++gone; destroy(ev[k]); }
            }
        });
    }
    if (!run_all()) stuck(name);
    SIM_CHECK(gone == n, fmt("%s: not every event was destroyed", name));
}

// ------------------------------------------------------------------ a condition variable may go once its waiters have been notified
template<class M> void cond_life(const char* name) {
    label(name);
    bs::condition_variable* cv; SUTV(cv = new bs::condition_variable); M mtx; bool ready = false; u32 waiters = 1 + draw(3); u32 done = 0, entered = 0;
    for (u32 w = 0; w < waiters; ++w) {
        Take t = draw_take(); u32 style = draw(3);
        spawn(fmt("W%u", w).c_str(), [&, t, style, cv] {
            SutScope sc; bs::unique_lock<M> lk(mtx);
            const bool was = ready; ++entered; if (was) ++done;
            auto pred = [&] { return ready; };
            if (style == 0) { while (!ready) cv->wait(lk); }
            else if (ready) {}
            else if (style == 1) cv->wait(lk, pred);
            else while (!ready) {
                HarnessScope hs; TmoRun r;
                with_timeout(t.t, r, [&](auto const& o, auto tag) -> bool {
                    SutScope s2;
                    if (t.how & 1) { if constexpr (decltype(tag)::abs) return cv->wait_until(lk, o, pred); else return cv->wait_for(lk, o, pred); }
                    return cv->timed_wait(lk, o, pred);
                });
                op_end(); if (!ready) { SUTV(while (!ready) cv->wait(lk)); }
            }
            if (!was) ++done;
        });
    }
    u32 gap = draw(6); bool one_by_one = draw(3) == 2;
    spawn("N", [&, gap, cv] {
        for (u32 g = 0; g < gap; ++g) sched_point();
        { SutScope sc; bs::unique_lock<M> lk(mtx); ready = true; if (one_by_one) for (u32 k = 0; k < waiters; ++k) cv->notify_one(); else cv->notify_all(); }
        if (done < entered) { nontrivial(); label("destroyed while a notified wait was returning"); }
        // threads that have not begun to wait yet see `ready` and do not touch the object
        SUTV(delete cv);
    });
    if (!run_all()) stuck(name);
    SIM_CHECK(done == waiters, "condition_variable: a waiter was not released");
}

static void c20() {
    draw_faults(); draw_user_clock(); inside = 0;
#ifdef BOOST_SYNC_HAS_PTHREAD_EINTR_BUG
    cfg.pthread_eintr = true;
#endif
    switch (draw(10)) {
    case 9: shared_life(); break;
    case 0: mutex_life<bs::mutex>("mutex"); break;
    case 1: mutex_life<bs::timed_mutex>("timed_mutex"); break;
    case 2: mutex_life<bs::spin_mutex>("spin_mutex"); break;
    case 3: mutex_life<bs::shared_spin_mutex>("shared_spin_mutex"); break;
    case 4: sem_life(); break;
    case 5: case 6: event_life<bs::auto_reset_event>("auto_reset_event", [](bs::auto_reset_event& e) { e.post(); }, 1); break;
    case 7: event_life<bs::manual_reset_event>("manual_reset_event", [](bs::manual_reset_event& e) { e.set(); }, 1 + draw(3)); break;
    default: 
#ifndef EMU
        if (draw(2)) { cond_life<bs::timed_mutex>("condition_variable (timed_mutex)"); break; }
#endif
        cond_life<bs::mutex>("condition_variable"); break;
    }
}
int main(int c, char** v) {
    static const Prop p[] = { { "C20", "the object was destroyed while another thread's last call on it was still returning", c20 } };
    return driver_main(c, v, p, 1);
}
