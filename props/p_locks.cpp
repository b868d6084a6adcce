// C12 lock objects, C13 lock conversions: model-based sequences over lock objects of a recording mutex.
#include "common.hpp"
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/locks/shared_lock.hpp>
#include <boost/sync/locks/upgrade_lock.hpp>
#include <boost/sync/locks/lock_guard.hpp>
#include <boost/sync/locks/shared_lock_guard.hpp>
#include <boost/sync/locks/unlock_guard.hpp>
#include <boost/sync/exceptions/lock_error.hpp>
namespace bs = boost::sync;
namespace {
enum { EX, SH, UP };
const char* mode_name[] = { "unique_lock", "shared_lock", "upgrade_lock" };
enum Act { ACQ, TRY, TIMED, REL, CONV, TRYCONV, TIMEDCONV };
struct Ev { int m, act, mode, to; bool abs; i64 tv; int out; };   // out: 0 done, 1 refused, 2 threw
struct MErr { int m; };
struct World* W;
i64 tval(std::chrono::milliseconds d, bool& a) { a = false; return d.count(); }
i64 tval(std::chrono::system_clock::time_point p, bool& a) { a = true; return std::chrono::duration_cast<std::chrono::milliseconds>(p.time_since_epoch()).count(); }
i64 tval(boost::posix_time::time_duration d, bool& a) { a = false; return d.total_milliseconds(); }
i64 tval(boost::chrono::steady_clock::time_point p, bool& a) { a = true; return boost::chrono::duration_cast<boost::chrono::milliseconds>(p.time_since_epoch()).count(); }

struct RM {                                     // a mutex with every operation, recording what it is asked
    int id; i64 tok[3];                         // locks handed out per mode
    bool call(int act, int mode, int to = 0, bool abs = false, i64 tv = 0);
    template<class T> bool tcall(int act, int mode, int to, T const& t) { bool a; i64 v = tval(t, a); return call(act, mode, to, a, v); }
    void lock() { call(ACQ, EX); } bool try_lock() { return call(TRY, EX); } void unlock() { call(REL, EX); }
    void lock_shared() { call(ACQ, SH); } bool try_lock_shared() { return call(TRY, SH); } void unlock_shared() { call(REL, SH); }
    void lock_upgrade() { call(ACQ, UP); } bool try_lock_upgrade() { return call(TRY, UP); } void unlock_upgrade() { call(REL, UP); }
    template<class T> bool timed_lock(T const& t) { return tcall(TIMED, EX, 0, t); } template<class T> bool try_lock_for(T const& t) { return tcall(TIMED, EX, 0, t); } template<class T> bool try_lock_until(T const& t) { return tcall(TIMED, EX, 0, t); }
    template<class T> bool timed_lock_shared(T const& t) { return tcall(TIMED, SH, 0, t); } template<class T> bool try_lock_shared_for(T const& t) { return tcall(TIMED, SH, 0, t); } template<class T> bool try_lock_shared_until(T const& t) { return tcall(TIMED, SH, 0, t); }
    template<class T> bool timed_lock_upgrade(T const& t) { return tcall(TIMED, UP, 0, t); } template<class T> bool try_lock_upgrade_for(T const& t) { return tcall(TIMED, UP, 0, t); } template<class T> bool try_lock_upgrade_until(T const& t) { return tcall(TIMED, UP, 0, t); }
    void unlock_and_lock_shared() { call(CONV, EX, SH); } void unlock_and_lock_upgrade() { call(CONV, EX, UP); }
    void unlock_upgrade_and_lock() { call(CONV, UP, EX); } void unlock_upgrade_and_lock_shared() { call(CONV, UP, SH); }
    bool try_unlock_upgrade_and_lock() { return call(TRYCONV, UP, EX); } bool try_unlock_shared_and_lock() { return call(TRYCONV, SH, EX); } bool try_unlock_shared_and_lock_upgrade() { return call(TRYCONV, SH, UP); }
    template<class T> bool timed_unlock_shared_and_lock(T const& t) { return tcall(TIMEDCONV, SH, EX, t); } template<class T> bool timed_unlock_shared_and_lock_upgrade(T const& t) { return tcall(TIMEDCONV, SH, UP, t); }
};
typedef bs::unique_lock<RM> UL; typedef bs::shared_lock<RM> SL; typedef bs::upgrade_lock<RM> GL;

struct Slot {
    int kind = -1; std::unique_ptr<UL> u; std::unique_ptr<SL> s; std::unique_ptr<GL> g;
    int m = -1; bool own = false;               // model
    template<class F> auto on(F&& f) { return kind == EX ? f(*u) : kind == SH ? f(*s) : f(*g); }
    bool owns() { return on([](auto& l) { return l.owns_lock(); }); }
    RM* mutex() { return on([](auto& l) { return l.mutex(); }); }
    bool test() { return on([](auto& l) { return l ? true : false; }); }
    bool nott() { return on([](auto& l) { return !l; }); }
};
struct World {
    RM m[3]; i64 loose[3][3]; Slot sl[5]; std::vector<Ev> log; int plan = 0; std::string hist;
    World() { W = this; for (int i = 0; i < 3; ++i) { m[i].id = i; for (int k = 0; k < 3; ++k) m[i].tok[k] = loose[i][k] = 0; } }
    void say(const std::string& s) { hist += " " + s + ";"; if (tracing()) note(s); }
    void bad(const std::string& s) { fail(s + " after:" + hist); }
};
const char* act_name(int a) { static const char* n[] = { "lock", "try_lock", "timed lock", "unlock", "convert", "try_convert", "timed convert" }; return n[a]; }
bool RM::call(int act, int mode, int to, bool abs, i64 tv) {
    int out = 0;
    if (W->plan == 2) out = 2; else if (W->plan == 1 && (act == TRY || act == TIMED || act == TRYCONV || act == TIMEDCONV)) out = 1;
    W->plan = 0;
    W->log.push_back(Ev{ id, act, mode, to, abs, tv, out });
    if (tracing()) note(fmt("    mutex%d: %s %s%s%s", id, act_name(act), mode_name[mode], act >= CONV ? (std::string(" -> ") + mode_name[to]).c_str() : "", out == 1 ? " (refused)" : out == 2 ? " (throws)" : ""));
    if (act == REL || act >= CONV) if (tok[mode] <= 0) W->bad(fmt("mutex%d: %s of a lock that is not held (%s)", id, act_name(act), mode_name[mode]));
    if (out == 2) throw MErr{ id };
    if (out == 1) return false;
    if (act <= TIMED) tok[mode]++; else if (act == REL) tok[mode]--; else { tok[mode]--; tok[to]++; }
    return true;
}
Ev ev(int m, int act, int mode, int to = 0, bool abs = false, i64 tv = 0, int out = 0) { return Ev{ m, act, mode, to, abs, tv, out }; }
std::string show(const std::vector<Ev>& v) { std::string s; for (auto& e : v) s += fmt(" %s(mutex%d,%s%s%s)%s", act_name(e.act), e.m, mode_name[e.mode], e.act >= CONV ? (std::string("->") + mode_name[e.to]).c_str() : "", e.act == TIMED || e.act == TIMEDCONV ? fmt(",%s%lld", e.abs ? "@" : "+", (long long)e.tv).c_str() : "", e.out == 1 ? " refused" : e.out == 2 ? " threw" : ""); return s.empty() ? " nothing" : s; }
bool same(const Ev& a, const Ev& b) { return a.m == b.m && a.act == b.act && a.mode == b.mode && (a.act < CONV || a.to == b.to) && ((a.act != TIMED && a.act != TIMEDCONV) || (a.abs == b.abs && a.tv == b.tv)) && a.out == b.out; }
bool logs(const std::vector<Ev>& want) { if (W->log.size() != want.size()) return false; for (size_t i = 0; i < want.size(); ++i) if (!same(W->log[i], want[i])) return false; return true; }
void expect_log(const std::vector<Ev>& want, const char* what) { if (!logs(want)) W->bad(fmt("%s: the mutex was asked for%s instead of%s", what, show(W->log).c_str(), show(want).c_str())); }

// result of running one operation
struct Out { int thr = 0; int code = 0; };      // thr: 0 none, 1 lock_error, 2 mutex' exception
template<class F> Out run(F&& f) {
    Out o; W->log.clear();
    try { f(); }
    catch (const bs::lock_error& e) { o.thr = 1; o.code = e.native_error();
        if (!(e.code() == bs::detail::system_ns::errc::operation_not_permitted) && !(e.code() == bs::detail::system_ns::errc::resource_deadlock_would_occur)) W->bad("a lock_error carries the wrong code"); }
    catch (const MErr&) { o.thr = 2; }
    W->plan = 0; return o;
}
void check_all() {
    i64 want[3][3]; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) want[i][k] = W->loose[i][k];
    for (Slot& s : W->sl) if (s.kind >= 0) {
        if (s.own) want[s.m][s.kind]++;
        if (s.owns() != s.own) W->bad(fmt("%s: owns_lock() is %d, should be %d", mode_name[s.kind], s.owns(), s.own));
        if (s.test() != s.own || s.nott() == s.own) W->bad(fmt("%s: operator bool or operator! disagrees with owns_lock()", mode_name[s.kind]));
        RM* p = s.m < 0 ? nullptr : &W->m[s.m];
        if (s.mutex() != p) W->bad(fmt("%s: mutex() is wrong", mode_name[s.kind]));
    }
    for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) if (W->m[i].tok[k] != want[i][k]) W->bad(fmt("mutex%d is held %lld times by %s objects, should be %lld", i, (long long)W->m[i].tok[k], mode_name[k], (long long)want[i][k]));
}
template<class F> auto with_time(u32 k, i64 ms, F&& f) {
    switch (k) {
    default: return f(std::chrono::milliseconds(ms), AbsTag<false>());
    case 1: return f(std::chrono::system_clock::time_point(std::chrono::milliseconds(ms)), AbsTag<true>());
    case 2: return f(boost::posix_time::time_duration(boost::posix_time::milliseconds(ms)), AbsTag<false>());
    case 3: return f(boost::chrono::steady_clock::time_point(boost::chrono::milliseconds(ms)), AbsTag<true>());
    }
}
template<class L> void put(Slot& s, L* p);
template<> void put<UL>(Slot& s, UL* p) { s.kind = EX; s.u.reset(p); }
template<> void put<SL>(Slot& s, SL* p) { s.kind = SH; s.s.reset(p); }
template<> void put<GL>(Slot& s, GL* p) { s.kind = UP; s.g.reset(p); }
template<class L> int kind_of() { return std::is_same<L, UL>::value ? EX : std::is_same<L, SL>::value ? SH : UP; }

template<class L> void construct(Slot& s, u32 how, int mi, u32 tk, i64 ms) {
    const int K = kind_of<L>(); RM& m = W->m[mi]; L* p = nullptr; Out o; std::vector<Ev> want; bool own = false; int plan = W->plan; bool abs = tk & 1;
    if (how == 2 && !W->loose[mi][K]) how = 3;
    W->say(fmt("construct %s #%d on mutex%d (%s)%s", mode_name[K], (int)(&s - W->sl), mi, how == 0 ? "no mutex" : how == 1 ? "lock" : how == 2 ? "adopt" : how == 3 ? "defer" : how == 4 ? "try" : "timed", plan == 1 ? " refuse" : plan == 2 ? " throw" : ""));
    switch (how) {
    case 0: o = run([&] { p = new L(); }); break;
    case 1: want.push_back(ev(mi, ACQ, K, 0, 0, 0, plan == 2 ? 2 : 0)); o = run([&] { p = new L(m); }); own = true; break;
    case 2: o = run([&] { p = new L(m, bs::adopt_lock); }); own = true; break;
    case 3: o = run([&] { p = new L(m, bs::defer_lock); }); break;
    case 4: want.push_back(ev(mi, TRY, K, 0, 0, 0, plan)); o = run([&] { p = new L(m, bs::try_to_lock); }); own = plan == 0; break;
    default: want.push_back(ev(mi, TIMED, K, 0, abs, ms, plan)); o = run([&] { with_time(tk, ms, [&](auto const& t, auto) { p = new L(m, t); }); }); own = plan == 0; break;
    }
    bool thrown = !want.empty() && plan == 2;
    if (o.thr != (thrown ? 2 : 0)) W->bad(fmt("%s constructor: wrong exception behaviour", mode_name[K]));
    expect_log(want, fmt("%s constructor", mode_name[K]).c_str());
    if (!thrown) { put<L>(s, p); s.m = how == 0 ? -1 : mi; s.own = own; if (how == 2) W->loose[mi][K]--; }
}
template<class L> void operate(Slot& s, L& l, u32 what, u32 tk, i64 ms) {
    const int K = s.kind; int plan = W->plan; bool abs = tk & 1; std::vector<Ev> want; Out o; bool ret = false, has_ret = false; static const char* n[] = { "lock", "try_lock", "timed_lock", "try_lock_for/until", "unlock" };
    W->say(fmt("%s #%d %s%s", mode_name[K], (int)(&s - W->sl), n[what], plan == 1 ? " refuse" : plan == 2 ? " throw" : ""));
    switch (what) {
    case 0: o = run([&] { l.lock(); }); break;
    case 1: has_ret = true; o = run([&] { ret = l.try_lock(); }); break;
    case 2: has_ret = true; o = run([&] { ret = with_time(tk, ms, [&](auto const& t, auto) -> bool { return l.timed_lock(t); }); }); break;
    case 3: has_ret = true; o = run([&] { ret = with_time(tk, ms, [&](auto const& t, auto tag) -> bool { if constexpr (decltype(tag)::abs) return l.try_lock_until(t); else return l.try_lock_for(t); }); }); break;
    default: o = run([&] { l.unlock(); }); break;
    }
    std::string nm = std::string(mode_name[K]) + "::" + n[what];
    int err = s.m < 0 ? EPERM : what <= 3 && s.own ? EDEADLK : what == 4 && !s.own ? EPERM : 0;
    if (err) {
        expect_log(want, (nm + " misused").c_str());
        if (o.thr != 1 || o.code != err) W->bad(nm + fmt(": misuse must raise lock_error %s", err == EPERM ? "operation_not_permitted" : "resource_deadlock_would_occur"));
        label("misuse"); return;
    }
    if (what == 4) { want.push_back(ev(s.m, REL, K, 0, 0, 0, plan == 2 ? 2 : 0)); }
    else { if (what == 0 && plan == 1) plan = 0; want.push_back(ev(s.m, what == 0 ? ACQ : what == 1 ? TRY : TIMED, K, 0, what >= 2 && abs, what >= 2 ? ms : 0, plan)); }
    expect_log(want, nm.c_str());
    int out = want[0].out;
    if (o.thr != (out == 2 ? 2 : 0)) W->bad(nm + ": wrong exception behaviour");
    if (out != 2) { if (what == 4) s.own = false; else s.own = out == 0; if (has_ret && ret != (out == 0)) W->bad(nm + ": wrong return value"); }
}
template<class L> void same_kind(Slot& a, Slot& b, L& x, L& y, u32 what) {
    static const char* n[] = { "swap", "swap()", "move assign" };
    W->say(fmt("%s #%d %s #%d", mode_name[a.kind], (int)(&a - W->sl), n[what], (int)(&b - W->sl)));
    Out o = run([&] { if (what == 0) x.swap(y); else if (what == 1) { using bs::swap; swap(x, y); } else x = boost::move(y); });
    if (o.thr) W->bad(fmt("%s %s threw", mode_name[a.kind], n[what]));
    if (what < 2 || &a == &b) { expect_log({}, n[what]); if (&a != &b) { std::swap(a.m, b.m); std::swap(a.own, b.own); } return; }
    // move assignment: what the target owned goes to the source, or is released at once
    if (logs({}) && (b.mutex() != nullptr || !a.own)) { if (b.mutex() == nullptr) { a.m = b.m; a.own = b.own; b.m = -1; b.own = false; } else { std::swap(a.m, b.m); std::swap(a.own, b.own); } }
    else { std::vector<Ev> want; if (a.own) want.push_back(ev(a.m, REL, a.kind)); expect_log(want, "move assignment"); a.m = b.m; a.own = b.own; b.m = -1; b.own = false; }
}
void destroy(Slot& s) {
    W->say(fmt("destroy %s #%d", mode_name[s.kind], (int)(&s - W->sl)));
    std::vector<Ev> want; if (s.own) want.push_back(ev(s.m, REL, s.kind));
    W->plan = 0; Out o = run([&] { s.u.reset(); s.s.reset(); s.g.reset(); });
    if (o.thr) W->bad("a destructor threw");
    expect_log(want, "destructor"); s.kind = -1; s.m = -1; s.own = false;
}
void move_construct(Slot& d, Slot& s) {
    W->say(fmt("move construct #%d from %s #%d", (int)(&d - W->sl), mode_name[s.kind], (int)(&s - W->sl)));
    W->plan = 0; Out o = run([&] { if (s.kind == EX) { UL* p = new UL(boost::move(*s.u)); put<UL>(d, p); } else if (s.kind == SH) { SL* p = new SL(boost::move(*s.s)); put<SL>(d, p); } else { GL* p = new GL(boost::move(*s.g)); put<GL>(d, p); } });
    if (o.thr) W->bad("a move constructor threw");
    expect_log({}, "move constructor"); d.m = s.m; d.own = s.own; s.m = -1; s.own = false;
}
// conversions: form 0 plain, 1 try, 2 timed, 3 assignment; returns false if the types have none
bool convert(Slot& d, Slot& s, int to, u32 form, u32 tk, i64 ms) {
    const int from = s.kind; bool abs = tk & 1; int plan = W->plan;
    bool plain = (from == UP && to == EX) || (from == EX && to == SH) || (from == UP && to == SH) || (from == EX && to == UP);
    bool tr = (from == UP && to == EX) || (from == SH && to == EX) || (from == SH && to == UP);
    bool tm = (from == SH && to == EX) || (from == SH && to == UP);
    if (form == 0 ? !plain : form == 1 ? !tr : form == 2 ? !tm : !plain) return false;
    const bool assign = form == 3;
    if (assign ? d.kind != to : d.kind >= 0) return false;
    if (!s.own) plan = W->plan = 0;
    static const char* n[] = { "convert", "try convert", "timed convert", "convert assign" };
    W->say(fmt("%s #%d %s (%s) to %s #%d%s", n[form], (int)(&s - W->sl), mode_name[from], s.own ? "owning" : s.m < 0 ? "no mutex" : "not owning", mode_name[to], (int)(&d - W->sl), plan == 1 ? " refuse" : plan == 2 ? " throw" : ""));
    Out o = run([&] {
        if (form == 0) { if (from == UP && to == EX) put<UL>(d, new UL(boost::move(*s.g))); else if (from == EX && to == SH) put<SL>(d, new SL(boost::move(*s.u))); else if (from == UP) put<SL>(d, new SL(boost::move(*s.g))); else put<GL>(d, new GL(boost::move(*s.u))); }
        else if (form == 1) { if (from == UP) put<UL>(d, new UL(boost::move(*s.g), bs::try_to_lock)); else if (to == EX) put<UL>(d, new UL(boost::move(*s.s), bs::try_to_lock)); else put<GL>(d, new GL(boost::move(*s.s), bs::try_to_lock)); }
        else if (form == 2) with_time(tk, ms, [&](auto const& t, auto) { if (to == EX) put<UL>(d, new UL(boost::move(*s.s), t)); else put<GL>(d, new GL(boost::move(*s.s), t)); });
        else { if (from == UP && to == EX) *d.u = boost::move(*s.g); else if (from == EX && to == SH) *d.s = boost::move(*s.u); else if (from == UP) *d.s = boost::move(*s.g); else *d.g = boost::move(*s.u); }
    });
    std::string nm = fmt("%s of %s to %s", n[form], mode_name[from], mode_name[to]);
    if (form == 0 || form == 3) { if (plan == 1) plan = 0; }
    std::vector<Ev> want; if (s.own) want.push_back(ev(s.m, form == 1 ? TRYCONV : form == 2 ? TIMEDCONV : CONV, from, to, abs, ms, plan));
    if (assign && d.own && plan != 2) want.push_back(ev(d.m, REL, to));
    if (form != 2) for (auto& e : want) e.abs = false, e.tv = 0;
    // (the order of the conversion and of the release of what the target held before does not matter)
    if (want.size() == 2 && W->log.size() == 2 && W->log[0].act == REL) std::swap(W->log[0], W->log[1]);
    expect_log(want, nm.c_str());
    if (o.thr != (plan == 2 ? 2 : 0)) W->bad(nm + ": wrong exception behaviour");
    if (s.own) { nontrivial(); label(fmt("%s %d->%d out %d", n[form], from, to, plan).c_str()); }
    if (plan == 2) { if (!assign && d.kind >= 0) W->bad(nm + ": an object was made although the mutex threw"); return true; }
    if (plan == 1) {        // refused: the source is unchanged, the target owns nothing
        if (d.mutex()) W->bad(nm + ": refused, yet the target refers to a mutex");
        d.own = false; d.m = -1; return true;
    }
    d.m = s.m; d.own = s.own; s.m = -1; s.own = false; return true;
}
template<class L> void guard_lock(Slot& s, L& l, int plan, u32 again) {
    const int K = s.kind; int lm = s.m; bool inside = false; std::string nm = std::string("unlock_guard<") + mode_name[K] + ">"; const char* n = nm.c_str();
    Out o = run([&] { bs::unlock_guard<L> g(l); inside = true; expect_log({ ev(lm, REL, K) }, n); W->log.clear(); if (again == 3) { l.lock(); W->log.clear(); } if (again == 2) W->plan = 2; });
    if (!s.own) { if (o.thr != 1 || o.code != EPERM || inside) W->bad(nm + " of a lock that does not own must raise lock_error operation_not_permitted"); expect_log({}, n); label("misuse"); return; }
    if (plan == 2) { expect_log({ ev(lm, REL, K, 0, 0, 0, 2) }, n); if (o.thr != 2 || inside) W->bad(nm + ": the mutex' exception was swallowed"); return; }
    if (again == 3) { if (o.thr != 1 || o.code != EDEADLK) W->bad(nm + ": relocking a lock that is already locked must raise lock_error resource_deadlock_would_occur"); expect_log({}, n); return; }
    expect_log({ ev(lm, ACQ, K, 0, 0, 0, again == 2 ? 2 : 0) }, n);
    if (o.thr != (again == 2 ? 2 : 0)) W->bad(nm + ": wrong exception behaviour on relock");
    if (again == 2) s.own = false;
}
void guards(u32 what, int mi, Slot* ls) {
    RM& m = W->m[mi]; int plan = W->plan == 2 ? 2 : 0; W->plan = plan;
    static const char* n[] = { "lock_guard", "lock_guard adopt", "shared_lock_guard", "shared_lock_guard adopt", "unlock_guard<mutex>", "unlock_guard<lock>" };
    if (what == 1 && !W->loose[mi][EX]) what = 0;
    if (what == 3 && !W->loose[mi][SH]) what = 2;
    if (what == 4 && !W->loose[mi][EX]) what = 0;
    if (what == 5 && (!ls || ls->kind < 0)) what = 2;
    W->say(fmt("%s on mutex%d%s", n[what], mi, plan ? " throw" : ""));
    if (what <= 3) {
        const int K = what < 2 ? EX : SH; bool adopt = what & 1; if (adopt) { plan = W->plan = 0; W->loose[mi][K]--; }
        bool inside = false;
        Out o = run([&] {
            auto in = [&] { inside = true; expect_log(adopt ? std::vector<Ev>{} : std::vector<Ev>{ ev(mi, ACQ, K) }, n[what]); W->log.clear(); };
            if (what == 0) { bs::lock_guard<RM> g(m); in(); } else if (what == 1) { bs::lock_guard<RM> g(m, bs::adopt_lock); in(); }
            else if (what == 2) { bs::shared_lock_guard<RM> g(m); in(); } else { bs::shared_lock_guard<RM> g(m, bs::adopt_lock); in(); } });
        if (plan == 2) { expect_log({ ev(mi, ACQ, K, 0, 0, 0, 2) }, n[what]); if (o.thr != 2 || inside) W->bad(std::string(n[what]) + ": the mutex' exception was swallowed"); }
        else { expect_log({ ev(mi, REL, K) }, n[what]); if (o.thr) W->bad(std::string(n[what]) + " threw"); }
        return;
    }
    u32 again = draw(4);        // 3: locked again inside (unlock_guard<lock>), 2: relocking throws
    bool inside = false;
    if (what == 4) {
        Out o = run([&] { bs::unlock_guard<RM> g(m); inside = true; expect_log({ ev(mi, REL, EX) }, n[what]); W->log.clear(); if (again == 2) W->plan = 2; });
        if (plan == 2) { expect_log({ ev(mi, REL, EX, 0, 0, 0, 2) }, n[what]); if (o.thr != 2 || inside) W->bad("unlock_guard: the mutex' exception was swallowed"); }
        else { expect_log({ ev(mi, ACQ, EX, 0, 0, 0, again == 2 ? 2 : 0) }, n[what]); if (o.thr != (again == 2 ? 2 : 0)) W->bad("unlock_guard: wrong exception behaviour on relock"); if (again == 2) W->loose[mi][EX]--; }
        return;
    }
    if (ls->kind == EX) guard_lock(*ls, *ls->u, plan, again); else if (ls->kind == SH) guard_lock(*ls, *ls->s, plan, again); else guard_lock(*ls, *ls->g, plan, again);
}

void body(bool conv) {
    World w; u32 n = 3 + draw(conv ? 24 : 30); bool any = false;
    for (u32 i = 0; i < n; ++i) {
        static const u32 p[] = { 6, 1, 1 }; w.plan = (int)draw_w(p, 3);
        static const u32 w12[] = { 6, 8, 2, 2, 3, 2, 2, 3 }, w13[] = { 5, 2, 1, 1, 1, 12, 1, 1 };
        u32 op = draw_w(conv ? w13 : w12, 8); u32 a = draw(5), b = draw(5); int mi = (int)draw(3); u32 tk = draw(4); i64 ms = (i64)draw(100000);
        Slot& s = w.sl[a]; Slot& t = w.sl[b];
        hash_in(op * 31 + a);
        if (op == 0 || s.kind < 0) {
            if (s.kind >= 0) { destroy(s); w.plan = 0; }
            u32 how = draw(6); u32 k = draw(3);
            if (k == 0) construct<UL>(s, how, mi, tk, ms); else if (k == 1) construct<SL>(s, how, mi, tk, ms); else construct<GL>(s, how, mi, tk, ms);
        } else if (op == 1) { any = true; u32 what = draw(5); if (s.kind == EX) operate(s, *s.u, what, tk, ms); else if (s.kind == SH) operate(s, *s.s, what, tk, ms); else operate(s, *s.g, what, tk, ms); }
        else if (op == 2) { w.say(fmt("release #%u", a)); RM* p = nullptr; Out o = run([&] { p = s.on([](auto& l) { return l.release(); }); }); expect_log({}, "release"); if (o.thr || p != (s.m < 0 ? nullptr : &w.m[s.m])) w.bad("release returned the wrong mutex"); if (s.own) w.loose[s.m][s.kind]++; s.m = -1; s.own = false; }
        else if (op == 3) { w.plan = 0; if (t.kind == s.kind) { u32 what = draw(3); if (s.kind == EX) same_kind(s, t, *s.u, *t.u, what); else if (s.kind == SH) same_kind(s, t, *s.s, *t.s, what); else same_kind(s, t, *s.g, *t.g, what); any = true; } }
        else if (op == 4) { if (&t != &s) { if (t.kind >= 0) destroy(t); move_construct(t, s); any = true; } }
        else if (op == 5) {
            if (&t != &s) {
                u32 form = draw(4); int to = (int)draw(3); int plan = w.plan;
                if (form == 3) { if (t.kind < 0 || t.kind == s.kind) form = 0; else to = t.kind; }
                if (form != 3 && t.kind >= 0) destroy(t);
                w.plan = plan;
                if (conv) { // pick a conversion that exists
                    if (form == 3 && s.kind == SH) { destroy(t); form = 1; w.plan = plan; }
                    if (form == 3 && s.kind == UP && to == UP) form = 0;
                    if (form != 3) { if (s.kind == EX) { form = 0; to = to == EX ? SH : to; } else if (s.kind == SH) { form = form == 2 ? 2 : 1; to = to == SH ? EX : to; } else { if (form == 2) form = 1; to = form == 1 ? EX : to == UP ? EX : to; } }
                }
                convert(t, s, to, form, tk, ms);
            }
        }
        else if (op == 6) destroy(s);
        else { guards(draw(6), mi, &s); any = true; }
        w.plan = 0;
        check_all();
    }
    if (!conv && any) nontrivial();
    for (Slot& s : w.sl) if (s.kind >= 0) destroy(s);
    check_all();
}
void c12() { body(false); }
void c13() { body(true); }
}
int main(int c, char** v) {
    static const Prop p[] = {
        { "C12", "an operation ran on a lock object or guard after its construction", c12 },
        { "C13", "a lock that owned its mutex was converted", c13 },
    };
    return driver_main(c, v, p, 2);
}
