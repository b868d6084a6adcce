// C03 semaphore, C04 auto_reset_event, C05 manual_reset_event, C11 visibility.
#include "common.hpp"
#ifdef EMU
#include <boost/sync/detail/semaphore/semaphore_emulation.hpp>
#include <boost/sync/detail/events/auto_reset_event_emulation.hpp>
#include <boost/sync/detail/events/manual_reset_event_emulation.hpp>
#else
#include <boost/sync/semaphore.hpp>
#include <boost/sync/events/auto_reset_event.hpp>
#include <boost/sync/events/manual_reset_event.hpp>
#endif
namespace bs = boost::sync;
#if (defined(BOOST_SYNC_USE_PTHREAD) && !defined(EMU)) || defined(SIM_DARWIN)
static const bool SEM_EVENT = true;
#else
static const bool SEM_EVENT = false;
#endif

enum { O_POST, O_WAIT, O_TRY, O_TIMED, O_RESET, O_SET = O_POST };
enum { S_POST, S_REG, S_TAKE, S_ZERO, S_DEREG, S_RESET };
// A thread asleep inside a waiting call at a moment when nothing in the whole system could run (S_ZERO at info.last_idle):
// nothing may be available then, or a wakeup was lost and the thread is left to its deadline or to a chance wakeup.

// ------------------------------------------------------------------ specifications
struct SemSpec {
    i64 n0; bool pending;
    struct State { i64 n; };
    State init() const { return State{ n0 }; }
    std::string enc(const State& s) const { return std::string((const char*)&s, sizeof s); }
    bool final_ok(const State& s) const { return !pending || s.n == 0; }
    bool apply(State& s, const lin::Step& st) const {
        switch (st.kind) { case S_POST: s.n++; return true; case S_TAKE: if (!s.n) return false; s.n--; return true; case S_ZERO: return s.n == 0; }
        return false;
    }
};
struct AutoSpec {
    bool pending;
    struct State { i64 s; u64 reg; };          // stored signals, operations counted as waiting
    State init() const { return State{ 0, 0 }; }
    std::string enc(const State& s) const { return std::string((const char*)&s, sizeof s); }
    bool final_ok(const State& s) const { return !pending || s.s == 0; }
    bool apply(State& s, const lin::Step& st) const {
        u64 bit = 1ull << (st.op & 63);
        switch (st.kind) {
        case S_POST: if (s.s <= (i64)__builtin_popcountll(s.reg)) s.s++; return true;
        case S_REG: s.reg |= bit; return true;
        case S_TAKE: if (!s.s) return false; s.s--; s.reg &= ~bit; return true;
        case S_ZERO: return s.s == 0;
        case S_DEREG: s.reg &= ~bit; return true;
        }
        return false;
    }
};
struct FlagSpec {
    bool pending;
    struct State { i64 on; };
    State init() const { return State{ 0 }; }
    std::string enc(const State& s) const { return std::string((const char*)&s, sizeof s); }
    bool final_ok(const State& s) const { return !pending || !s.on; }
    bool apply(State& s, const lin::Step& st) const {
        switch (st.kind) { case S_POST: s.on = 1; return true; case S_RESET: s.on = 0; return true; case S_TAKE: return s.on; case S_ZERO: return !s.on; }
        return false;
    }
};

// ------------------------------------------------------------------ objects
struct SemObj { typedef bs::semaphore T; static const char* name() { return "semaphore"; } static void post(T& t) { t.post(); } static void reset(T&) {} };
struct AutoObj { typedef bs::auto_reset_event T; static const char* name() { return "auto_reset_event"; } static void post(T& t) { t.post(); } static void reset(T&) {} };
struct ManObj { typedef bs::manual_reset_event T; static const char* name() { return "manual_reset_event"; } static void post(T& t) { t.set(); } static void reset(T& t) { t.reset(); } };

struct Call { u32 what; Tmo t; i64 delay; };
template<class O> struct Runner {
    typename O::T* t; Hist h;
    // returns result
    bool post() { int r = h.begin(O_POST, 0, TXT("%s.post", O::name())); SUTV(O::post(*t)); h.end(r, 1, OpInfo{}); return true; }
    bool reset() { int r = h.begin(O_RESET, 0, TXT("%s.reset", O::name())); SUTV(O::reset(*t)); h.end(r, 1, OpInfo{}); return true; }
    bool wait() { int r = h.begin(O_WAIT, 0, TXT("%s.wait", O::name())); op_begin(false, 0); SUTV(t->wait()); h.end(r, 1, op_end()); return true; }
    bool try_wait() { int r = h.begin(O_TRY, 0, TXT("%s.try_wait", O::name())); op_begin(false, 0); bool ok = SUT(t->try_wait()); h.end(r, ok, op_end()); return ok; }
    bool timed(const Tmo& tm) {
        int r = h.begin(O_TIMED, form_chrono(tm.form), tracing() ? std::string(O::name()) + ".timed " + show(tm) : ""); TmoRun tr;
        bool ok = with_timeout(tm, tr, [&](auto const& o, auto tag) -> bool {
            if constexpr (decltype(tag)::abs) return tm.entry ? SUT(t->wait_until(o)) : SUT(t->timed_wait(o));
            else return tm.entry ? SUT(t->wait_for(o)) : SUT(t->timed_wait(o));
        });
        h.end(r, ok, op_end()); label(ok ? "timed:ok" : "timed:timeout"); return ok;
    }
    bool call(const Call& c) {
        switch (c.what) { case O_POST: return post(); case O_WAIT: return wait(); case O_TRY: return try_wait(); case O_TIMED: return timed(c.t); default: return reset(); }
    }
    // steps for the linearizability search; recs[i].info of pending ops is taken from the fiber
    std::vector<lin::Step> steps(bool regs) {
        std::vector<lin::Step> st;
        for (size_t i = 0; i < h.v.size(); ++i) {
            const Rec& r = h.v[i]; int op = (int)i;
            if (r.kind == O_POST) { st.push_back(lin::Step{ op, S_POST, 0, r.inv, r.ret, !r.done, r.fid }); continue; }
            if (r.kind == O_RESET) { st.push_back(lin::Step{ op, S_RESET, 0, r.inv, r.ret, !r.done, r.fid }); continue; }
            OpInfo info = r.done ? r.info : op_peek(r.fid);
            if (regs) {
                if (r.arg) {   // a wait on a foreign clock is a series of waits: it counts as waiting now and then
                    st.push_back(lin::Step{ op, S_REG, 0, r.inv, r.ret, true, r.fid }); st.push_back(lin::Step{ op, S_DEREG, 0, r.inv, r.ret, true, r.fid }); st.push_back(lin::Step{ op, S_REG, 0, r.inv, r.ret, true, r.fid });
                } else if (info.slept) st.push_back(lin::Step{ op, S_REG, 0, r.inv, info.first_sleep, false, r.fid });
                else st.push_back(lin::Step{ op, S_REG, 0, r.inv, r.ret, true, r.fid });
            }
            if (info.last_idle > r.inv) { st.push_back(lin::Step{ op, S_ZERO, 0, info.last_idle, info.last_idle, false, r.fid }); label("asleep while idle"); }
            if (!r.done) continue;
            if (r.res) st.push_back(lin::Step{ op, S_TAKE, 0, r.inv, r.ret, false, r.fid });
            else {
                // the semaphore-based event hands a signal over in two steps: while another waiting call is under way it may hold the signal
                if (!(regs && SEM_EVENT && overlaps_wait(i))) st.push_back(lin::Step{ op, S_ZERO, 0, std::max(r.inv, info.last_idle), r.ret, false, r.fid });
                if (regs) st.push_back(lin::Step{ op, S_DEREG, 0, r.inv, r.ret, false, r.fid });
            }
        }
        return st;
    }
    bool overlaps_wait(size_t i) const {
        for (size_t j = 0; j < h.v.size(); ++j) if (j != i && h.v[j].kind != O_POST && h.v[j].inv < h.v[i].ret && h.v[i].inv < h.v[j].ret) return true;
        return false;
    }
    bool any_pending() const { for (auto& r : h.v) if (!r.done) return true; return false; }
    bool contended() const {
        for (auto& r : h.v) { if (r.info.slept || !r.done) return true; if (!r.res) return true; }
        for (auto& a : h.v) for (auto& b : h.v) if (a.fid != b.fid && a.inv < b.inv && b.inv < a.ret) return true;
        return false;
    }
};

template<class O> std::vector<std::vector<Call>> gen_programs(u32 nth, u32 maxlen, bool with_reset) {
    std::vector<std::vector<Call>> p;
    u32 style = draw(3);
    for (u32 i = 0; i < nth; ++i) {
        std::vector<Call> v; u32 n = 1 + draw(maxlen);
        // per-thread bias: poster, waiter or mixed
        u32 role = style == 0 ? (i & 1) : style == 1 ? 2 : draw(3);
        for (u32 k = 0; k < n; ++k) {
            Call c; c.delay = 0; c.t = Tmo{ 0, 0, 0 };
            static const u32 wp[] = { 8, 0, 1, 1, 3 }, ww[] = { 1, 4, 2, 5, 1 }, wm[] = { 4, 2, 2, 3, 2 };
            const u32* w = role == 0 ? wp : role == 1 ? ww : wm;
            u32 ws[5]; for (int q = 0; q < 5; ++q) ws[q] = w[q]; if (!with_reset) ws[4] = 0;
            c.what = draw_w(ws, 5); if (c.what == O_TIMED) c.t = draw_tmo();
            if (draw(6) == 5) c.delay = 1 + draw(400);
            v.push_back(c);
        }
        p.push_back(v);
    }
    return p;
}

template<class O, class Spec, class MkSpec> void sync_case(bool with_reset, bool regs, std::unique_ptr<typename O::T> obj, MkSpec mk) {
    Runner<O> R; R.t = obj.get();
    u32 nth = 2 + draw(3);
    auto progs = gen_programs<O>(nth, 4, with_reset);
    for (u32 i = 0; i < nth; ++i) {
        auto prog = progs[i];
        spawn(fmt("T%u", i).c_str(), [&R, prog] { for (const Call& c : prog) { if (c.delay) advance(TU * c.delay); R.call(c); } });
    }
    bool all = run_all();
    bool pend = R.any_pending();
    if (!all && !pend) fail("a thread is stuck outside any call");
    for (auto& r : R.h.v) if (!r.done && r.kind != O_WAIT) fail(std::string(O::name()) + ": a call that must not block forever is blocked forever (" + (r.kind == O_TIMED ? "timed wait" : r.kind == O_POST ? "post/set" : r.kind == O_TRY ? "try_wait" : "reset") + "):" + R.h.dump());
    if (R.contended()) nontrivial();
    if (pend) label("blocked at quiescence");
    if (!lin::linearizable(R.steps(regs), mk(pend))) fail(std::string(O::name()) + (pend ? ": the history fits no order of the calls, or a thread is blocked although a signal is available:" : ": the history fits no order of the calls (or a thread slept on, left to its deadline, although a signal was available):") + R.h.dump());
    // release whoever is still blocked: one signal each must be enough
    for (int round = 0; round < 12 && !all; ++round) { R.post(); all = run_all(); }
    if (!all) fail(std::string(O::name()) + ": a thread stays blocked although a signal was posted for every blocked thread:" + R.h.dump());
    // what is left must match the model
    for (int k = 0; k < 4; ++k) if (!R.try_wait() || with_reset) break;
    if (!lin::linearizable(R.steps(regs), mk(false))) fail(std::string(O::name()) + ": after all threads finished, the signals left do not match the history (or a thread slept on although a signal was available):" + R.h.dump());
    SUTV(obj.reset());
}

// ------------------------------------------------------------------ crowds: many waiters, bursts of signals, counts near powers of two
inline u32 draw_crowd(u32 lo) {
    switch (draw(32)) { default: return lo + draw(12); case 26: case 27: case 28: case 29: return 12 + draw(24); case 30: return 60 + draw(10); case 31: { static const u32 n[] = { 126, 127, 128, 129, 130, 131, 254, 255, 256, 257, 258, 300 }; return n[draw(12)]; } }
}
enum { SEM, AUTO, MAN };
template<class O> void crowd_case(int what, std::unique_ptr<typename O::T> obj, u64 n0) {
    Runner<O> R; R.t = obj.get(); label("crowd");
    cfg.delay_pct = 0;
    const u32 n = draw_crowd(2); const bool late = draw(3) == 2; u64 done = 0, timeouts = 0; std::vector<char> fin(n, 0);
    const u32 early = draw(4) == 3 ? 1 + draw(4) : 0;                    // some waiters give up before anything is posted
    for (u32 i = 0; i < n; ++i) spawn("W", [&, i] { SUTV(R.t->wait()); ++done; fin[i] = 1; });
    for (u32 i = 0; i < early; ++i) { i64 d = 1 + draw(300); spawn("G", [&, d] { if (SUT(R.t->timed_wait(std::chrono::nanoseconds(d)))) ++done; else ++timeouts; }); }
    auto who = [&](u64 exp) { return fmt("%s with %u waiting threads (and %u that give up): ", O::name(), n, early) + fmt("%llu released, %llu expected", (unsigned long long)done, (unsigned long long)exp); };
    run_all();
    u64 left = n0;                                                        // what the model has in store
    u64 want = std::min<u64>(left, n + early);
    if (done != want) fail(who(want) + " from the initial count");
    left -= want;
    nontrivial();
    u64 total = n + early - timeouts;
    // bursts of signals
    u32 bursts = 1 + draw(3);
    for (u32 b = 0; b < bursts; ++b) {
        u64 waiting = total - done; u32 k;
        switch (draw(6)) { case 0: k = (u32)waiting; break; case 1: k = (u32)waiting + 1 + draw(3); break; case 2: k = waiting ? (u32)waiting - 1 : 1; break; case 3: k = 1 + draw(4); break; default: k = waiting ? 1 + draw((u32)waiting) : 1; break; }
        if (what == MAN) k = 1;
        bool burst = draw(4) != 3; hold(burst);
        for (u32 q = 0; q < k; ++q) SUTV(O::post(*R.t));
        if (what == MAN && draw(2)) { run_all(); SUTV(O::reset(*R.t)); left = 0; } else if (what == MAN) left = 1;
        hold(false);
        run_all();
        u64 rel = what == MAN ? waiting : std::min<u64>(waiting, k);
        if (done + waiting != total + rel) fail(who(total - waiting + rel) + fmt(" after a burst of %u signals", k));
        if (what == SEM) left += k - rel; else if (what == AUTO) { if (k > rel) left = 1; }
        if (late && draw(2) && what != MAN && total == done) {                  // newcomers meet what is left
            u32 m = 1 + draw(4); u64 before = done; for (u32 i = 0; i < m; ++i) spawn("L", [&] { SUTV(R.t->wait()); ++done; });
            total += m; run_all(); u64 got = std::min<u64>(left, m);
            if (done != before + got) fail(who(before + got) + " from the signals in store");
            left -= got;
        }
    }
    bool all = total == done;
    if (!all) { hold(true); for (u64 q = total - done; q > 0; --q) SUTV(O::post(*R.t)); hold(false); run_all(); if (what == MAN) left = 1; }
    if (done != total) fail(who(total) + " after one signal per blocked thread");
    u64 probe = std::min<u64>(left, 70);
    for (u64 q = 0; q < probe; ++q) if (!SUT(R.t->try_wait())) fail(fmt("%s: a signal in store was lost (try_wait failed with %llu left)", O::name(), (unsigned long long)(left - q)));
    if (probe == left && what != MAN && SUT(R.t->try_wait())) fail(fmt("%s: a signal appeared from nowhere", O::name()));
    if (what == MAN && !left && SUT(R.t->try_wait())) fail(fmt("%s: set after a reset", O::name()));
    SUTV(obj.reset());
}

static bool crowd() { return draw(64) == 63; }
static void c03() {
    draw_faults(); draw_user_clock();
    bool big = crowd();
    unsigned n0 = draw(3); if (draw(16) == 15) { static const unsigned ns[] = { 255, 256, 257, 1023, 1024, 32767, 32768, 65535, 65536, 65537, 1u << 24, 2147483647u }; n0 = ns[draw(12)]; n0 = n0 == 2147483647u ? n0 - 2000 - draw(2) : n0 - draw(2);
#ifdef SIM_DARWIN   // (the constructor counts one by one)
        n0 %= 1500;
#endif
#ifdef EMU   // the greatest count is UINT_MAX
        if (draw(3) == 2) { static const unsigned es[] = { 2147483647u, 2147483648u, 2147483650u, 3000000000u, 4294967295u - 2000 }; n0 = es[draw(5)] - draw(3); }
#endif
    }
    std::unique_ptr<bs::semaphore> o; SUTV(o.reset(n0 == 0 && draw(2) ? new bs::semaphore : new bs::semaphore(n0)));
    if (big) return crowd_case<SemObj>(SEM, std::move(o), n0);
    sync_case<SemObj, SemSpec>(false, false, std::move(o), [n0](bool p) { return SemSpec{ (i64)n0, p }; });
}
static void c04() {
    draw_faults(); draw_user_clock();
    std::unique_ptr<bs::auto_reset_event> o; SUTV(o.reset(new bs::auto_reset_event));
    if (crowd()) return crowd_case<AutoObj>(AUTO, std::move(o), 0);
    sync_case<AutoObj, AutoSpec>(false, true, std::move(o), [](bool p) { return AutoSpec{ p }; });
}
static void c05() {
    draw_faults(); draw_user_clock();
    std::unique_ptr<bs::manual_reset_event> o; SUTV(o.reset(new bs::manual_reset_event));
    if (crowd()) return crowd_case<ManObj>(MAN, std::move(o), 0);
    sync_case<ManObj, FlagSpec>(true, false, std::move(o), [](bool p) { return FlagSpec{ p }; });
}

// ------------------------------------------------------------------ C11: what was done before a signal is visible after the wait it releases
struct Pub { Cell cell; u64 inv = 0, ret = lin::INF; };
template<class O> void vis_case(std::unique_ptr<typename O::T> obj, bool is_auto, bool is_man) {
    Runner<O> R; R.t = obj.get();
    u32 posters = 1 + draw(3); u32 per = 1 + draw(3); u32 consumers = posters == 1 ? 1 + draw(3) : 1;
    bool resets = is_man && draw(3) == 2;
    std::vector<std::vector<Pub>> pub(posters, std::vector<Pub>(per));
    std::vector<std::pair<u64, u64>> rs; // reset intervals
    u64 begun = 0, got = 0; bool read_any = false;
    for (u32 p = 0; p < posters; ++p) {
        std::vector<u32> gaps; for (u32 k = 0; k < per; ++k) gaps.push_back(draw(3));
        spawn(fmt("P%u", p).c_str(), [&, p, gaps] {
            for (u32 k = 0; k < per; ++k) {
                for (u32 g = 0; g < gaps[k]; ++g) sched_point();
                pub[p][k].cell.write(1, "data written before the signal"); ++begun; pub[p][k].inv = step();
                R.post(); pub[p][k].ret = step();
            }
        });
    }
    if (resets) { u32 n = 1 + draw(2); spawn("R", [&, n] { for (u32 k = 0; k < n; ++k) { rs.push_back(std::make_pair(step(), lin::INF)); size_t q = rs.size() - 1; R.reset(); rs[q].second = step(); } }); }
    for (u32 c = 0; c < consumers; ++c) {
        std::vector<Call> prog; u32 n = 1 + draw(posters * per + 1);
        for (u32 k = 0; k < n; ++k) { Call x; static const u32 w[] = { 0, 3, 3, 3 }; x.what = draw_w(w, 4); x.delay = 0; x.t = Tmo{ 0, 0, 0 }; if (x.what == O_TIMED) x.t = draw_tmo(); prog.push_back(x); }
        spawn(fmt("C%u", c).c_str(), [&, prog] {
            u64 mine = 0;
            for (const Call& x : prog) {
                u64 inv = step();
                bool ok = R.call(x);
                if (!ok) continue;
                u64 ret = step(); ++mine; ++got;
                auto rd = [&](Pub& q) { q.cell.read("data written before the signal, read after the wait it released"); read_any = true; };
                if (is_man) {
                    for (auto& v : pub) for (auto& q : v) if (q.ret < inv) {
                        bool reset_between = false; for (auto& r : rs) if (r.second > q.inv && r.first < ret) reset_between = true;
                        if (!reset_between) rd(q);
                    }
                    if (posters == 1) rd(pub[0][0]);
                } else if (posters == 1) {
                    rd(pub[0][0]);
                    if (consumers == 1) {
                        if (!is_auto) for (u64 k = 0; k < mine && k < per; ++k) rd(pub[0][k]);
                        else for (auto& q : pub[0]) if (q.ret < inv) rd(q);
                    }
                } else if (is_auto) { for (auto& v : pub) for (auto& q : v) if (q.ret < inv) rd(q); }
                else if (mine == begun) for (auto& v : pub) for (auto& q : v) if (q.inv) rd(q);
            }
        });
    }
    bool all = run_all();
    for (int r = 0; r < 14 && !all; ++r) { SUTV(O::post(*R.t)); all = run_all(); }
    if (read_any) nontrivial();
    SIM_CHECK(all, std::string(O::name()) + ": a consumer stays blocked although enough signals were posted");
    SUTV(obj.reset());
}
static void c11() {
    draw_faults(); draw_user_clock();
    switch (draw(3)) {
    case 0: { label("semaphore"); std::unique_ptr<bs::semaphore> o; SUTV(o.reset(new bs::semaphore)); vis_case<SemObj>(std::move(o), false, false); break; }
    case 1: { label("auto_reset_event"); std::unique_ptr<bs::auto_reset_event> o; SUTV(o.reset(new bs::auto_reset_event)); vis_case<AutoObj>(std::move(o), true, false); break; }
    default: { label("manual_reset_event"); std::unique_ptr<bs::manual_reset_event> o; SUTV(o.reset(new bs::manual_reset_event)); vis_case<ManObj>(std::move(o), false, true); break; }
    }
}

int main(int c, char** v) {
    static const Prop p[] = {
        { "C03", "a wait slept or failed, or calls of different threads overlapped", c03 },
        { "C04", "a wait slept or failed, or calls of different threads overlapped", c04 },
        { "C05", "a wait slept or failed, or calls of different threads overlapped", c05 },
        { "C11", "a consumer was released and read data published before the signal", c11 },
    };
    return driver_main(c, v, p, 4);
}
