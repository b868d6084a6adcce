// C06 condition_variable, C07 condition_variable_any.
#include "p_cv.hpp"
#include <exception>
#include <string.h>
#include <boost/sync/exceptions/wait_error.hpp>
#include <boost/sync/exceptions/lock_error.hpp>
RecStat recstat[40];
#define M(k) Env* make_env_##k();
M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8)
Env* make_env(u32 k) { switch (k) { case 1: return make_env_1(); case 2: return make_env_2(); case 3: return make_env_3(); case 4: return make_env_4(); case 5: return make_env_5(); case 6: return make_env_6(); case 7: return make_env_7(); default: return make_env_8(); } }

namespace {
struct PredErr { int fid; };
// one waiting call
#ifdef SIM_WIN   // its condition variables rely on the requirement that unlock() does not throw
static const bool UNLOCK_MAY_THROW = false;
#else
static const bool UNLOCK_MAY_THROW = true;
#endif
struct Inst { int fid; u32 cv; bool timed, pred; bool inwait = false, ret = false, thrown = false; u64 t_in = 0, t_ret = lin::INF; i64 target = 0; u64 last_idle = 0; std::string txt; };
// one notification
struct Ntf { int fid; u32 cv; bool all; std::vector<int> seen; u64 t0 = lin::INF, t1 = lin::INF; bool failed = false; };
struct WStep { CallWait c; i64 target_off; u32 throw_at; u32 fail_unlock, fail_lock; i64 delay; };
struct NStep { u32 cv; bool all; bool under; bool change; i64 delay; };

struct World {
    std::unique_ptr<Env> e; bool predmode; int excl = -1; int readers = 0; Cell cell; i64 val = 0;
    std::vector<Inst> in; std::vector<Ntf> nt; struct Chg { u64 t; i64 v; u32 cv; }; std::vector<Chg> changes;   // notify_all calls: when done, value before the call, on what
    u32 wait_errors = 0, lock_errors = 0; bool late_relock = false;     // taking the lock back may itself be a condition wait
    std::string nm() { return e->name(); }
    void got(bool excl_mode, const char* what) {
        if (excl_mode) { if (excl != -1 || readers) fail(nm() + ": " + what + " while another thread holds the lock"); excl = self(); cell.write(val, "data guarded by the lock"); }
        else { if (excl != -1) fail(nm() + ": " + what + " while another thread holds the lock exclusively"); readers++; cell.read("data guarded by the lock"); }
    }
    void drop(bool excl_mode) { if (excl_mode) { if (excl != self()) fail(nm() + ": lost track of the owner"); cell.write(val, "data guarded by the lock"); excl = -1; } else { cell.read("data guarded by the lock"); readers--; } }
    std::string dump() { std::string s; for (auto& i : in) s += fmt(" [%d] wait#%d cv%u%s%s: %s;", i.fid, (int)(&i - &in[0]), i.cv, i.timed ? " timed" : "", i.pred ? " pred" : "", i.ret ? (i.thrown ? "threw" : "returned") : "blocked"); for (auto& n : nt) { s += fmt(" [%d] notify_%s cv%u saw {", n.fid, n.all ? "all" : "one", n.cv); for (int k : n.seen) s += fmt(" #%d", k); s += " };"; } return s; }

    void waiter(const std::vector<WStep>& prog) {
        const bool X = !e->shared();
        for (const WStep& w : prog) {
            if (w.delay) advance(TU * w.delay);
            std::unique_ptr<Handle> h(e->acquire()); got(X, "a lock was acquired");
            int id = (int)in.size(); in.push_back(Inst()); in[id].fid = self(); in[id].cv = w.c.cv; in[id].timed = w.c.timed; in[id].pred = w.c.pred; in[id].target = val + w.target_off;
            int last = -1; u32 evals = 0; u32 throw_at = w.throw_at; const i64 target = in[id].target; bool in_pred_throw = false;
            RecStat& rs = recstat[self()]; rs.unlocks = rs.locks = 0; rs.fail_unlock = w.fail_unlock; rs.fail_lock = w.fail_lock; rs.threw_lock = rs.threw_unlock = false;
            auto pred = [&]() -> bool {
                // the lock must be held here: nobody else may be inside, and what the previous holder did is visible
                got(X, "a predicate ran"); sched_point();
                ++evals; last = val >= target; bool th = throw_at && evals == throw_at;
                drop(X);
                if (th) { in_pred_throw = true; throw PredErr{ self() }; }
                return last;
            };
            WaitOut out; out.ok = false; out.tr.form = F_NS; out.tr.dl_v = 0; out.tr.dl_clock = 0; bool threw = false, werr = false, lerr = false, uerr = false;
            if (tracing()) note(fmt("call %s wait#%d cv%u%s%s %s", e->name(), id, w.c.cv, w.c.timed ? " timed" : "", w.c.pred ? fmt(" until val >= %lld", (long long)target).c_str() : "", w.c.timed ? show(w.c.t).c_str() : ""));
            in[id].inwait = true; in[id].t_in = step(); drop(X);
            try { h->wait(w.c, out, pred); }
            catch (const boost::sync::wait_error&) { threw = werr = true; wait_errors++; }
            catch (const boost::sync::lock_error&) { threw = lerr = true; lock_errors++; }
            catch (const PredErr&) { threw = true; if (!in_pred_throw) fail(nm() + ": an exception of another call"); }
            catch (const LockErr& x) { threw = true; uerr = x.what == 1; }
            OpInfo info = op_end();
            in[id].inwait = false; in[id].ret = true; in[id].thrown = threw; in[id].t_ret = step(); in[id].last_idle = info.last_idle;
            if (tracing()) note(fmt("  ret  wait#%d -> %s", id, threw ? "exception" : out.ok ? "true" : "false"));
            hash_in((u64)out.ok * 2 + threw);
            if (info.slept) nontrivial();
            if (uerr && rs.owner != self()) { label("relock threw"); h->owns(); continue; }      // the user's lock() failed: nothing is held
            SIM_CHECK(h->owns(), nm() + ": a waiting call returned without owning the lock");
            got(X, threw ? "a waiting call left by an exception" : "a waiting call returned");
            if (e->rec()) {
                if (rs.threw_lock && !threw) fail(nm() + ": the exception of the lock's lock() was swallowed");
                if (rs.threw_unlock && !threw) fail(nm() + ": the exception of the lock's unlock() was swallowed");
                if (rs.unlocks - rs.threw_unlock != rs.locks) fail(fmt("%s: %u unlock() calls but %u lock() calls in one wait", e->name(), rs.unlocks, rs.locks));
                if (!w.c.pred && !threw && rs.locks != 1 && !(CLOCK_NS > 1000 && w.c.timed && form_chrono(w.c.t.form))) fail(fmt("%s: the lock was released %u times in one wait without predicate", e->name(), rs.unlocks));
            }
            if (in_pred_throw && !threw) fail(nm() + ": the exception of the predicate was swallowed");
            if (threw) { label(werr ? "wait_error" : lerr ? "lock_error" : "other exception"); }
            else {
                if (w.c.timed && !out.ok) { SIM_CHECK(!out.tr.before_deadline(), nm() + ": a timeout was reported before the deadline"); label("timeout"); }
                const bool fast_clock = w.c.t.form == F_USER && UserClock::num > UserClock::den;
                if (w.c.timed && info.over > LATE_NS && !fast_clock && !late_relock) fail(fmt("%s: a timed wait slept on after its deadline, by %lld ns (%u wakeups) (", e->name(), (long long)info.over, info.sleeps) + show(w.c.t) + ")");
                if (w.c.pred) {
                    if (last < 0) fail(nm() + ": a predicate wait returned without evaluating its predicate");
                    if ((bool)last != out.ok) fail(fmt("%s: a predicate wait returned %s but its predicate was %s when it was last evaluated", e->name(), out.ok ? "true" : "false", last ? "true" : "false"));
                    if ((val >= target) != out.ok) fail(fmt("%s: a predicate wait returned %s although its predicate is %s (it was not evaluated after the last wakeup)", e->name(), out.ok ? "true" : "false", val >= target ? "true" : "false"));
                }
            }
            drop(X); h->unlock();
        }
    }
    void notifier(const std::vector<NStep>& prog) {
        for (const NStep& s : prog) { if (s.delay) advance(TU * s.delay); do_notify(s); }
    }
    void do_notify(const NStep& s) {
        e->lock_n(); got(true, "a lock was acquired");
        if (s.change) { val++; if (tracing()) note(fmt("val = %lld", (long long)val)); }
        i64 v = val; int id = (int)nt.size(); nt.push_back(Ntf()); nt[id].fid = self(); nt[id].cv = s.cv; nt[id].all = s.all;
        for (size_t k = 0; k < in.size(); ++k) if (in[k].inwait && in[k].cv == s.cv) nt[id].seen.push_back((int)k);
        if (!s.under) { drop(true); e->unlock_n(); }
        { std::vector<int> keep; for (int k : nt[id].seen) if (!in[k].ret) keep.push_back(k); nt[id].seen = keep; }
        if (tracing()) note(fmt("notify_%s cv%u (%zu waiting)", s.all ? "all" : "one", s.cv, nt[id].seen.size()));
        nt[id].t0 = step();
        try { e->notify(s.cv, s.all); } catch (const boost::sync::lock_error&) { nt[id].failed = true; lock_errors++; }
        nt[id].t1 = step();
        if (s.under) { drop(true); e->unlock_n(); }
        if (s.all && !nt[id].failed) changes.push_back(Chg{ nt[id].t1, v, s.cv });
    }
    // bipartite matching: notifications that must have woken somebody -> waiting calls that ended
    bool match(const std::vector<std::vector<int>>& adj, size_t n) {
        std::vector<int> who(n, -1);
        for (size_t i = 0; i < adj.size(); ++i) { std::vector<char> vis(n, 0); std::function<bool(int)> go = [&](int u) { for (int v : adj[u]) if (!vis[v]) { vis[v] = 1; if (who[v] < 0 || go(who[v])) { who[v] = u; return true; } } return false; }; if (!go((int)i)) return false; }
        return true;
    }
    void judge() {
        for (size_t k = 0; k < in.size(); ++k) {
            Inst& i = in[k];
            u64 idle = i.ret ? i.last_idle : op_peek(i.fid).last_idle;
            if (i.pred) {
                // the value only grows: once it reached the target and everybody was notified the wait must end
                for (auto& c : changes) if (c.cv == i.cv && c.v >= i.target && (!i.ret || (idle > c.t && idle > i.t_in))) fail(nm() + ": a thread stays blocked although its predicate became true and everybody was notified:" + dump());
            } else for (Ntf& n : nt) if (n.all && !n.failed && n.t1 != lin::INF) for (int s : n.seen) if (s == (int)k && (!i.ret || idle > n.t1)) fail(nm() + ": notify_all did not wake a thread that was waiting when it was called:" + dump());
        }
        if (predmode) return;
        std::vector<std::vector<int>> adj;
        for (Ntf& n : nt) if (!n.all && !n.failed && n.t1 != lin::INF) {
            bool must = false; for (int s : n.seen) if (!in[s].ret) must = true;
            if (!must) continue;
            std::vector<int> c; for (size_t k = 0; k < in.size(); ++k) if (in[k].cv == n.cv && in[k].ret && in[k].t_in < n.t1 && in[k].t_ret > n.t0) c.push_back((int)k);
            adj.push_back(c);
        }
        if (!match(adj, in.size())) fail(nm() + ": notify_one calls woke fewer threads than they must:" + dump());
    }
};

void cv_case(u32 env) {
    draw_faults(); draw_user_clock();
#ifdef BOOST_SYNC_HAS_PTHREAD_EINTR_BUG
    cfg.pthread_eintr = true;
#endif
    World W; Env* raw = 0; SUTV(raw = make_env(env)); W.e.reset(raw);
    label(W.e->name());
    for (auto& r : recstat) r = RecStat();
#ifdef TM_EMU
    W.late_relock = env == 8;
#endif
    W.predmode = draw(2); u32 ncv = draw(3) == 2 ? 2 : 1;
    u32 nw = 1 + draw(3), nn = 1 + draw(2); if (draw(24) == 23) nw = 4 + draw(9);
    bool faults = draw(4) == 3;
#ifdef TM_EMU
    if (env == 8) faults = false;            // the emulated timed_mutex itself uses these calls
#endif
    u32 kind = faults ? draw(W.e->rec() ? 5 : 3) : 0;
    if (faults && kind <= 1) { static const int errs[] = { EINVAL, EPERM, ENOMEM }; u32 n = 1 + draw(2); for (u32 k = 0; k < n; ++k) inject(draw(2) ? "pthread_cond_wait" : "pthread_cond_timedwait", 1 + draw(4), errs[draw(3)]); }
    if (faults && kind == 4) inject("pthread_mutex_lock", 1 + draw(4), EDEADLK);
    for (u32 i = 0; i < nw; ++i) {
        std::vector<WStep> p; u32 n = 1 + draw(3);
        for (u32 k = 0; k < n; ++k) {
            WStep s; s.c.cv = ncv == 2 ? draw(2) : 0; s.c.timed = draw(2); s.c.pred = W.predmode; s.c.t = Tmo{ 0, 0, 0 }; if (s.c.timed) s.c.t = draw_tmo();
            s.target_off = W.predmode ? (i64)draw(4) : 0; s.throw_at = W.predmode && draw(8) == 7 ? 1 + draw(3) : 0; s.fail_unlock = s.fail_lock = 0; s.delay = draw(6) == 5 ? 1 + draw(300) : 0;
            if (faults && kind == 2) s.throw_at = W.predmode ? 1 + draw(3) : 0;
            if (faults && kind == 3) { if (draw(2) && UNLOCK_MAY_THROW) s.fail_unlock = 1 + draw(2); else s.fail_lock = 1 + draw(2); }
            p.push_back(s);
        }
        spawn(fmt("W%u", i).c_str(), [&W, p] { W.waiter(p); });
    }
    for (u32 i = 0; i < nn; ++i) {
        std::vector<NStep> p; u32 n = 1 + draw(4);
        for (u32 k = 0; k < n; ++k) {
            NStep s; s.cv = ncv == 2 ? draw(2) : 0; s.change = W.predmode && draw(4) != 3; s.all = s.change || draw(3) == 2; s.under = draw(2); s.delay = draw(3) == 2 ? 1 + draw(400) : 0; if (s.delay && draw(3) == 2) s.delay *= draw(2) ? 1000 : 1000000;
            p.push_back(s);
            if (s.change && ncv == 2) { NStep t = s; t.cv = !s.cv; t.change = false; t.delay = 0; p.push_back(t); }
        }
        spawn(fmt("N%u", i).c_str(), [&W, p] { W.notifier(p); });
    }
    bool all = run_all();
    // only waiting calls may still be under way, and each of them must be in an untimed wait
    if (!all) {
        for (int f = 0; f < nfibers(); ++f) if (f != self() && !finished(f)) {
            bool ok = false; for (Inst& i : W.in) if (i.fid == f && !i.ret) { if (i.timed) fail(W.nm() + ": a timed wait never returns:" + W.dump()); ok = true; if (strcmp(block_kind(f), "cond")) fail(W.nm() + ": a waiting call is stuck outside its condition wait (blocked in " + block_kind(f) + "):" + W.dump()); }
            if (!ok) fail(W.nm() + ": a thread is stuck outside any waiting call (blocked in " + block_kind(f) + "):" + W.dump());
        }
        label("blocked at quiescence");
    }
    W.judge();
    for (int r = 0; r < 40 && !all; ++r) {
        for (u32 c = 0; c < 2; ++c) { NStep s; s.cv = c; s.change = true; s.all = true; s.under = r & 1; s.delay = 0; W.do_notify(s); }
        all = run_all();
        if (!all) W.judge();
    }
    if (!all) fail(W.nm() + ": a thread stays blocked however often everybody is notified:" + W.dump());
    W.judge();
    SUTV(W.e.reset());
}
void c06() { cv_case(1 + draw(2)); }
void c07() { cv_case(3 + draw(6)); }
}
int main(int c, char** v) {
    static const Prop p[] = {
        { "C06", "a wait slept", c06 },
        { "C07", "a wait slept", c07 },
    };
    return driver_main(c, v, p, 2);
}
