// Shared generator pieces of the property harnesses.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include "../sim/engine.hpp"
#include "../sim/lin.hpp"
#include <time.h>
#include <errno.h>
#include <chrono>
#include <ratio>
#include <memory>
#include <type_traits>
#include <boost/chrono/chrono.hpp>
#include <boost/date_time/posix_time/posix_time_types.hpp>
#include <boost/sync/support/std_chrono.hpp>
#include <boost/sync/support/boost_chrono.hpp>
#include <boost/sync/support/boost_date_time.hpp>
#include <boost/sync/support/posix_time.hpp>

using namespace sim;

// ------------------------------------------------------------------ fault environment of a case
inline void draw_faults(bool delays = true) {
    static const u32 e[] = { 0, 0, 15, 40, 80 }; cfg.eintr_pct = e[draw(5)];
    static const u32 d[] = { 0, 0, 2, 6, 15 }; cfg.delay_pct = delays ? d[draw(5)] : 0;
    static const u32 w[] = { 0, 0, 10, 40 }; cfg.weakcas_pct = w[draw(4)]; cfg.sb_pct = draw(4) == 3 ? 50 : 0;
    static const i64 ns[] = { 0, 999999999, 500000000, 1, 999000000 }; cfg.rt_base_ns = ns[draw(5)];
#ifdef SIM_WIN
    cfg.win_tls = draw(8) < 5 ? 0 : 1 + draw(3); cfg.win_query = draw(8) < 6 ? 0 : 1 + draw(2); cfg.tick_ns = 20000;
#endif
    static const int sp[] = { 16, 70, 300, 1100, 4200 }; cfg.spin_limit = draw(48) == 47 ? sp[draw(5)] : 16;
}

// ------------------------------------------------------------------ time forms
// A clock that may run at another rate than the system clock.
struct UserClock {
    typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period;
    typedef std::chrono::time_point<UserClock> time_point; static const bool is_steady = false;
    static i64 num, den, off;
    static i64 raw() { return off + (i64)((__int128)vnow() * num / den); }
    static time_point now() { struct timespec t; ::clock_gettime(CLOCK_MONOTONIC, &t); return time_point(duration(raw())); }
    // first virtual instant at which the clock shows at least x
    static i64 to_v(i64 x) { __int128 n = (__int128)(x - off) * den; __int128 v = n / num; if (v * num < n) ++v; return (i64)v; }
};
inline i64 UserClock::num = 1; inline i64 UserClock::den = 1; inline i64 UserClock::off = 0;

struct Tmo { u32 form; u32 entry; i64 ns; };
enum { F_NS, F_PTDUR, F_MS, F_BNS, F_DBL, F_SEC, F_THIRD, F_BMS, F_SYS, F_PTIME, F_STEADY, F_BSYS, F_BSTEADY, F_TSPEC, F_SYSMS, F_USER, F_COUNT };
inline const char* form_name(u32 f) { static const char* n[] = { "std::ns", "posix_time::duration", "std::ms", "boost::chrono::ns", "std::duration<double>", "std::seconds", "std::duration<1/3 s>", "boost::chrono::ms", "std::system_clock", "ptime", "std::steady_clock", "boost::system_clock", "boost::steady_clock", "timespec", "std::system_clock ms", "user clock" }; return n[f]; }
inline bool form_abs(u32 f) { return f >= F_SYS; }
inline bool form_chrono(u32 f) { return f == F_STEADY || f == F_BSTEADY || f == F_USER; }
inline std::string show(const Tmo& t) { return fmt("%s%s %lld ns", form_name(t.form), t.entry ? " (for/until)" : " (timed)", (long long)t.ns); }

// how exactly the system can measure time, and the unit of short timeouts and delays
#if defined(SIM_WIN)
static const i64 CLOCK_NS = 1001000, TU = 1000000;
#elif defined(SIM_DARWIN)
static const i64 CLOCK_NS = 1000, TU = 1;
#else
static const i64 CLOCK_NS = 1, TU = 1;
#endif
static const i64 LATE_NS = CLOCK_NS > 1 ? 3 * CLOCK_NS : 0;
inline i64 draw_timeout_ns() {
    switch (draw(12)) {
    case 0: case 1: case 2: return TU * (1 + draw(400));
    case 3: case 4: return 1000 * (1 + (i64)draw(5000));
    case 5: case 6: return 1000000 * (1 + (i64)draw(200));
    case 7: return 1000000000ll * (1 + (i64)draw(5)) + draw(2000000);
    case 8: return 0;
    case 9: return -1 - (i64)draw(1000);
    case 10: return -1000000ll * (1 + (i64)draw(3000));
    default: return 999999990 + (i64)draw(20);
    }
}
inline Tmo draw_tmo(u32 nforms = F_COUNT) { Tmo t; t.form = draw(nforms); t.entry = draw(2); t.ns = draw_timeout_ns(); return t; }

// clocks being set while calls are under way: what they showed just before they were set back, and by how much forward
struct ClockSteps {
    struct S { u64 at; i64 before, fwd; }; std::vector<S> v;
    void step(i64 before, i64 d) { v.push_back(S{ step_no(), before, d > 0 ? d : 0 }); }
    static u64 step_no() { return sim::step(); }
    bool showed(u64 since, i64 x) const { for (auto& s : v) if (s.at > since && s.before >= x) return true; return false; }
    i64 forward(u64 since) const { i64 f = 0; for (auto& s : v) if (s.at > since) f += s.fwd; return f; }
};
inline ClockSteps rt_steps, user_steps;
inline void step_clocks() {
    i64 d = draw(2) ? 1 + (i64)draw(2000) : 1000000 * (1 + (i64)draw(3000)); if (draw(2)) d = -d;
    if (draw(4) == 0) { user_steps.step(UserClock::raw(), d); UserClock::off += d; if (tracing()) note(fmt("the user clock is set by %lld ns", (long long)d)); }
    else if (now_rt() + d > 0) { rt_steps.step(now_rt(), d); rt_step(d); }
}
struct TmoRun { i64 dl_v; i64 dl_clock; bool before_deadline() const; u32 form; u64 since; };
inline i64 fdiv(i64 a, i64 b) { i64 q = a / b; return (a % b != 0 && (a < 0) != (b < 0)) ? q - 1 : q; }
// the clock of the deadline still shows a time before the deadline (rounding allowed)
inline bool TmoRun::before_deadline() const {
    if (form == F_USER) return UserClock::raw() < dl_clock && !user_steps.showed(since, dl_clock);
    if (!rt_steps.v.empty() && !form_chrono(form)) {
        if (form_abs(form)) return now_rt() < dl_clock - CLOCK_NS && !rt_steps.showed(since, dl_clock - CLOCK_NS);
        return vnow() + rt_steps.forward(since) < dl_v - CLOCK_NS;   // a relative time is measured with the system clock
    }
    return vnow() < dl_v - CLOCK_NS;
}

// nanoseconds per tick of posix_time (1000, or 1 in one of its configurations)
static const i64 PT_TICK = 1000000000 / (i64)boost::posix_time::time_duration::traits_type::ticks_per_second;
template<bool Abs> struct AbsTag { static constexpr bool abs = Abs; };

// Builds the time object of form t.form for "now + t.ns" and calls call(object, AbsTag).
// r receives the exact deadline; op_begin is called with it.
template<class Call> auto with_timeout(const Tmo& t, TmoRun& r, Call&& call) -> decltype(call(std::chrono::nanoseconds(0), AbsTag<false>())) {
    const i64 v0 = vnow(); i64 d = t.ns; r.form = t.form; r.dl_clock = 0; r.since = step();
    const i64 top = now_rt() > now_mono() ? now_rt() : now_mono();
    if (d > INT64_MAX - top - 1000000) d = INT64_MAX - top - 1000000;   // the instant must fit in 64 bits of nanoseconds
    auto rel = [&](i64 exact) { r.dl_v = v0 + exact; op_begin(true, r.dl_v); };
    auto abs_rt = [&](i64 point) { r.dl_clock = point; r.dl_v = point - (now_rt() - v0); op_begin(true, r.dl_v); };
    auto abs_mo = [&](i64 point) { r.dl_v = point - (now_mono() - v0); op_begin(true, r.dl_v); };
    switch (t.form) {
    default:
    case F_NS: { rel(d); return call(std::chrono::nanoseconds(d), AbsTag<false>()); }
    case F_PTDUR: { i64 u = d / PT_TICK; if (!u) u = d > 0 ? 1 : 0; rel(u * PT_TICK); return call(boost::posix_time::time_duration(0, 0, 0, u), AbsTag<false>()); }
    case F_MS: { i64 u = d / 1000000; if (!u && d > 0) u = 1; rel(u * 1000000); return call(std::chrono::milliseconds(u), AbsTag<false>()); }
    case F_BNS: { rel(d); return call(boost::chrono::nanoseconds(d), AbsTag<false>()); }
    case F_DBL: { double s = (double)d / 1e9; rel((i64)(s * 1e9)); return call(std::chrono::duration<double>(s), AbsTag<false>()); }
    case F_SEC: { i64 u = d / 1000000000; rel(u * 1000000000); return call(std::chrono::seconds(u), AbsTag<false>()); }
    case F_THIRD: { i64 u = d / 333333333; if (u > 600000000) u = 600000000; if (u < -600000000) u = -600000000; rel((i64)((__int128)u * 1000000000 / 3)); return call(std::chrono::duration<i64, std::ratio<1, 3>>(u), AbsTag<false>()); }
    case F_BMS: { i64 u = d / 1000000; rel(u * 1000000); return call(boost::chrono::milliseconds(u), AbsTag<false>()); }
    case F_SYS: { i64 p = now_rt() + d; abs_rt(p); return call(std::chrono::system_clock::time_point(std::chrono::nanoseconds(p)), AbsTag<true>()); }
    case F_PTIME: {
        const i64 tps = 1000000000 / PT_TICK; i64 u = fdiv(now_rt() + d, PT_TICK); abs_rt(u * PT_TICK);
        boost::posix_time::ptime e(boost::gregorian::date(1970, 1, 1)); 
        return call(e + boost::posix_time::time_duration(0, 0, fdiv(u, tps), u - fdiv(u, tps) * tps), AbsTag<true>());
    }
    case F_STEADY: { i64 p = now_mono() + d; abs_mo(p); return call(std::chrono::steady_clock::time_point(std::chrono::nanoseconds(p)), AbsTag<true>()); }
    case F_BSYS: { i64 p = now_rt() + d; abs_rt(p); return call(boost::chrono::time_point<boost::chrono::system_clock, boost::chrono::nanoseconds>(boost::chrono::nanoseconds(p)), AbsTag<true>()); }
    case F_BSTEADY: { i64 p = now_mono() + d; abs_mo(p); return call(boost::chrono::steady_clock::time_point(boost::chrono::nanoseconds(p)), AbsTag<true>()); }
    case F_TSPEC: { i64 p = now_rt() + d; abs_rt(p); struct timespec ts; ts.tv_sec = fdiv(p, 1000000000); ts.tv_nsec = p - fdiv(p, 1000000000) * 1000000000; return call(ts, AbsTag<true>()); }
    case F_SYSMS: { i64 u = fdiv(now_rt() + d, 1000000); abs_rt(u * 1000000); return call(std::chrono::time_point<std::chrono::system_clock, std::chrono::milliseconds>(std::chrono::milliseconds(u)), AbsTag<true>()); }
    case F_USER: { i64 p = UserClock::raw() + d; r.dl_clock = p; r.dl_v = UserClock::to_v(p); op_begin(true, r.dl_v); return call(UserClock::time_point(std::chrono::nanoseconds(p)), AbsTag<true>()); }
    }
}
inline void draw_user_clock() {
    static const i64 n[] = { 1, 1, 999, 1001, 1, 2 }; static const i64 d[] = { 1, 1, 1000, 1000, 2, 1 };
    rt_steps.v.clear(); user_steps.v.clear(); u32 k = draw(6); UserClock::num = n[k]; UserClock::den = d[k]; UserClock::off = draw(2) ? 1000000007 : 0;
}

// ------------------------------------------------------------------ history recording
struct Rec { int fid; int kind; i64 arg; i64 res; u64 inv, ret; bool done; OpInfo info; std::string txt; };
struct Hist {
    std::vector<Rec> v;
    int begin(int kind, i64 arg, const std::string& txt) { Rec r; r.fid = self(); r.kind = kind; r.arg = arg; r.res = 0; r.inv = step(); r.ret = lin::INF; r.done = false; r.info = OpInfo{ false, 0, 0, 0, 0, 0 }; r.txt = txt; v.push_back(r); if (tracing()) note("call " + txt); hash_in((u64)kind); return (int)v.size() - 1; }
    void end(int i, i64 res, const OpInfo& info) { v[i].res = res; v[i].info = info; v[i].ret = step(); v[i].done = true; if (tracing()) note(fmt("  ret  %s -> %lld", v[i].txt.c_str(), (long long)res)); hash_in((u64)res); }
    std::string dump() const { std::string s; for (auto& r : v) s += fmt(" [%d] %s -> %s;", r.fid, r.txt.c_str(), r.done ? std::to_string(r.res).c_str() : "pending"); return s; }
};
inline std::string text(const char* f) { return f; }
#define TXT(...) (tracing() ? fmt(__VA_ARGS__) : std::string())

#ifdef SIM_WIN   // what lives as long as the process starts anew with every case
#include <boost/winapi/wait.hpp>
#include <boost/sync/detail/waitable_timer.hpp>
extern "C" __attribute__((weak)) void sim_case_reset() { boost::sync::detail::weak_linkage<boost::sync::detail::windows::waitable_timer_state>::value = boost::sync::detail::windows::waitable_timer_state(); }
#endif

#ifndef FLAVOR
#define FLAVOR "default"
#endif
#endif
