// Targets of timed operations, shared by C08, C09, C10.
#ifndef P_TIME_HPP
#define P_TIME_HPP
#include "common.hpp"
#include <cmath>

typedef __int128 i128;
static const i64 DISTANT = (i64)3900000000000000000ll;   // deadlines beyond this never come in virtual time
inline i64 sat(i128 x) { return x > (i128)4500000000000000000ll ? 4500000000000000000ll : x < -(i128)4500000000000000000ll ? -4500000000000000000ll : (i64)x; }

// ---- further time types (only C10)
enum { X_HOURS, X_MIN, X_US, X_PS, X_FLOAT, X_DNANO, X_DMILLI, X_CENTI32, X_U32MS, X_DAYS, X_BHOURS, X_BUS, X_BDBL, X_BMIN, X_BSEC, X_THIRD, X_PT,
       X_SYSSEC, X_SYSHOUR, X_SYSDBL, X_BSYSSEC, X_BSYSDBL, X_STEADYPS, X_STEADYDBL, X_BSTEADYDBL, X_SYSUS, X_BSYSMS, X_STEADYMS, X_STEADYHOUR, X_BSTEADYSEC,
       X_FTS, X_FPTIME, X_FTD, X_FHOURS, X_FBHOURS, X_FDBL, X_FBMIN, X_FSYSDAYS, X_FBSYSSEC, X_FSTEADY, X_FBSTEADY, X_FUSER, X_COUNT };   // (X_F...: any value the type can hold)
inline const char* xname(u32 f) { static const char* n[] = { "std::hours", "std::minutes", "std::microseconds", "std::duration<int64,pico>", "std::duration<float>", "std::duration<double,nano>", "std::duration<double,milli>", "std::duration<int32,centi>", "std::duration<uint32,milli>", "std::duration<int64,days>", "boost::hours", "boost::microseconds", "boost::duration<double>", "boost::minutes", "boost::seconds", "boost::duration<1/3>", "posix_time::time_duration",
    "system tp seconds", "system tp hours", "system tp double", "boost system tp seconds", "boost system tp double", "steady tp pico", "steady tp double", "boost steady tp double", "system tp us", "boost system tp ms", "steady tp ms", "steady tp hours", "boost steady tp seconds",
    "far timespec", "far ptime", "far posix time_duration", "far std::hours", "far boost::hours", "far std::duration<double>", "far boost::minutes", "far system tp days", "far boost system tp seconds", "far steady tp", "far boost steady tp", "far user clock tp" }; return n[f]; }
inline i64 extreme(i64 c) { return c % 8 == 7 ? INT64_MAX : c % 8 == -7 ? INT64_MIN : c; }
struct XRun { i128 dl; i64 tol; };   // exact deadline in virtual ns, tolerance

template<class D> struct dur_ns;     // exact ns of a count
template<class Rep, class P> struct dur_ns<std::chrono::duration<Rep, P>> { typedef Rep rep; static constexpr long double scale = (long double)P::num * 1e9L / P::den; static constexpr bool fl = std::is_floating_point<Rep>::value; static i128 exact(Rep c) { if (fl) return (i128)std::floor((long double)c * scale); i128 n = (i128)c * P::num * 1000000000; return n >= 0 ? n / P::den : -((-n) / P::den); } };
template<class Rep, class P> struct dur_ns<boost::chrono::duration<Rep, P>> { typedef Rep rep; static constexpr long double scale = (long double)P::num * 1e9L / P::den; static constexpr bool fl = std::is_floating_point<Rep>::value; static i128 exact(Rep c) { if (fl) return (i128)std::floor((long double)c * scale); i128 n = (i128)c * P::num * 1000000000; return n >= 0 ? n / P::den : -((-n) / P::den); } };
template<class D> typename dur_ns<D>::rep to_count(i64 ns) {
    typedef dur_ns<D> N; typedef typename N::rep Rep;
    long double c = (long double)ns / N::scale;
    if (N::fl) return (Rep)c;
    long double lo = (long double)std::numeric_limits<Rep>::min(), hi = (long double)std::numeric_limits<Rep>::max() - 1;
    if (c < lo) c = lo; if (c > hi) c = hi;
    return (Rep)(i64)c;
}
template<class D> i64 fl_tol(i128 ns) { typedef typename dur_ns<D>::rep Rep; if (!dur_ns<D>::fl) return 1; long double a = ns < 0 ? -(long double)ns : (long double)ns; return 2 + (i64)(a * (sizeof(Rep) == 4 ? 2.4e-7L : 4.5e-16L)); }

template<class Call> auto with_x(u32 form, i64 ns, XRun& r, Call&& call) -> decltype(call(std::chrono::nanoseconds(0), AbsTag<false>())) {
    const i64 v0 = vnow();
#define REL(D) { typedef D Dt; auto c = to_count<Dt>(ns); i128 e = dur_ns<Dt>::exact(c); r.dl = v0 + e; r.tol = fl_tol<Dt>(e); op_begin(true, sat(r.dl)); return call(Dt(c), AbsTag<false>()); }
#define ABS(TP, D, NOW) { typedef D Dt; i128 base = NOW; auto c = to_count<Dt>((i64)(base + ns)); i128 e = dur_ns<Dt>::exact(c); r.dl = e - base + v0; r.tol = fl_tol<Dt>(e); op_begin(true, sat(r.dl)); typedef TP Tp; return call(Tp(Dt(c)), AbsTag<true>()); }
#define COMMA ,
    switch (form) {
    default:
    case X_HOURS: REL(std::chrono::hours)
    case X_MIN: REL(std::chrono::minutes)
    case X_US: REL(std::chrono::microseconds)
    case X_PS: { if (ns > 9000000000000000ll) ns = 9000000000000000ll; if (ns < -9000000000000000ll) ns = -9000000000000000ll; REL(std::chrono::duration<i64 COMMA std::pico>) }
    case X_FLOAT: REL(std::chrono::duration<float>)
    case X_DNANO: REL(std::chrono::duration<double COMMA std::nano>)
    case X_DMILLI: REL(std::chrono::duration<double COMMA std::milli>)
    case X_CENTI32: REL(std::chrono::duration<int32_t COMMA std::centi>)
    case X_U32MS: { if (ns < 0) ns = -ns; REL(std::chrono::duration<uint32_t COMMA std::milli>) }
    case X_DAYS: REL(std::chrono::duration<i64 COMMA std::ratio<86400>>)
    case X_BHOURS: REL(boost::chrono::hours)
    case X_BUS: REL(boost::chrono::microseconds)
    case X_BDBL: REL(boost::chrono::duration<double>)
    case X_BMIN: REL(boost::chrono::minutes)
    case X_BSEC: REL(boost::chrono::seconds)
    // (chrono's own duration_cast multiplies the count by 10^9 first)
    case X_THIRD: { if (ns > 2900000000000000000ll) ns = 2900000000000000000ll; if (ns < -2900000000000000000ll) ns = -2900000000000000000ll; REL(boost::chrono::duration<i64 COMMA boost::ratio<1 COMMA 3>>) }
    case X_PT: {
        typedef boost::posix_time::time_duration TD; const i64 tps = TD::traits_type::ticks_per_second; i128 c = (i128)ns * tps / 1000000000; r.dl = v0 + c * 1000000000 / tps; r.tol = 1; op_begin(true, sat(r.dl));
        return call(TD(0, 0, 0, (i64)c), AbsTag<false>());
    }
    case X_SYSSEC: ABS(std::chrono::time_point<std::chrono::system_clock COMMA std::chrono::seconds>, std::chrono::seconds, now_rt())
    case X_SYSHOUR: ABS(std::chrono::time_point<std::chrono::system_clock COMMA std::chrono::hours>, std::chrono::hours, now_rt())
    case X_SYSDBL: ABS(std::chrono::time_point<std::chrono::system_clock COMMA std::chrono::duration<double>>, std::chrono::duration<double>, now_rt())
    case X_BSYSSEC: ABS(boost::chrono::time_point<boost::chrono::system_clock COMMA boost::chrono::seconds>, boost::chrono::seconds, now_rt())
    case X_BSYSDBL: ABS(boost::chrono::time_point<boost::chrono::system_clock COMMA boost::chrono::duration<double>>, boost::chrono::duration<double>, now_rt())
    case X_STEADYPS: { if (ns > 3000000000000000ll) ns = 3000000000000000ll; if (ns < -5000000000000ll) ns = -5000000000000ll; ABS(std::chrono::time_point<std::chrono::steady_clock COMMA std::chrono::duration<i64 COMMA std::pico>>, std::chrono::duration<i64 COMMA std::pico>, now_mono()) }
    case X_STEADYDBL: ABS(std::chrono::time_point<std::chrono::steady_clock COMMA std::chrono::duration<double>>, std::chrono::duration<double>, now_mono())
    case X_BSTEADYDBL: ABS(boost::chrono::time_point<boost::chrono::steady_clock COMMA boost::chrono::duration<double>>, boost::chrono::duration<double>, now_mono())
    case X_SYSUS: ABS(std::chrono::time_point<std::chrono::system_clock COMMA std::chrono::microseconds>, std::chrono::microseconds, now_rt())
    case X_BSYSMS: ABS(boost::chrono::time_point<boost::chrono::system_clock COMMA boost::chrono::milliseconds>, boost::chrono::milliseconds, now_rt())
    case X_STEADYMS: ABS(std::chrono::time_point<std::chrono::steady_clock COMMA std::chrono::milliseconds>, std::chrono::milliseconds, now_mono())
    case X_STEADYHOUR: ABS(std::chrono::time_point<std::chrono::steady_clock COMMA std::chrono::hours>, std::chrono::hours, now_mono())
    case X_BSTEADYSEC: ABS(boost::chrono::time_point<boost::chrono::steady_clock COMMA boost::chrono::seconds>, boost::chrono::seconds, now_mono())
    // values beyond 64 bits of nanoseconds; the number drawn is the count itself
#define FREL(D) { typedef D Dt; auto c = extreme(ns); i128 e = dur_ns<Dt>::exact(c); r.dl = v0 + e; r.tol = 1; op_begin(true, sat(r.dl)); return call(Dt(c), AbsTag<false>()); }
#define FABS(TP, D) { typedef D Dt; auto c = extreme(ns); i128 e = dur_ns<Dt>::exact(c); r.dl = e - now_rt() + v0; r.tol = 1; op_begin(true, sat(r.dl)); typedef TP Tp; return call(Tp(Dt(c)), AbsTag<true>()); }
    case X_FTS: { struct ::timespec t; t.tv_sec = extreme(ns); t.tv_nsec = (ns & 0xffff) * 15259 % 1000000000; r.dl = (i128)t.tv_sec * 1000000000 + t.tv_nsec - now_rt() + v0; r.tol = 1; op_begin(true, sat(r.dl)); return call(t, AbsTag<true>()); }
    case X_FPTIME: {
        typedef boost::posix_time::ptime P; typedef boost::posix_time::time_duration TD; const bool fine = TD::traits_type::ticks_per_second > 1000000;
        i64 days = fine ? ns % 36500 : ns < 0 ? ns % 208000 : ns % 2932000, secs = (ns & 0xffff);
        r.dl = ((i128)days * 86400 + secs) * 1000000000 - now_rt() + v0; r.tol = 1; op_begin(true, sat(r.dl));
        return call(P(boost::gregorian::date(1970, 1, 1) + boost::gregorian::date_duration((int)days), boost::posix_time::seconds(secs)), AbsTag<true>());
    }
    case X_FTD: {
        typedef boost::posix_time::time_duration TD; const i64 tps = TD::traits_type::ticks_per_second; i64 c = ns % 7 == 0 ? INT64_MAX - 2 : ns % 7 == -6 ? INT64_MIN + 1 : ns;   // (the other extremes are special values)
        i128 n = (i128)c * 1000000000; r.dl = v0 + n / tps; r.tol = 1; op_begin(true, sat(r.dl)); return call(TD(0, 0, 0, c), AbsTag<false>());
    }
    case X_FHOURS: FREL(std::chrono::duration<i64 COMMA std::ratio<3600>>)
    case X_FBHOURS: FREL(boost::chrono::duration<i64 COMMA boost::ratio<3600>>)
    case X_FBMIN: FREL(boost::chrono::duration<i64 COMMA boost::ratio<60>>)
    case X_FDBL: {
        double c = ns % 8 == 7 ? 1e300 : ns % 8 == -7 ? -1e300 : (double)ns; typedef std::chrono::duration<double> Dt; i128 e = c > 1e20 ? (i128)1 << 120 : c < -1e20 ? -((i128)1 << 120) : dur_ns<Dt>::exact(c);
        r.dl = v0 + e; r.tol = fl_tol<Dt>(e); op_begin(true, sat(r.dl)); return call(Dt(c), AbsTag<false>());
    }
    case X_FSYSDAYS: FABS(std::chrono::time_point<std::chrono::system_clock COMMA std::chrono::duration<i64 COMMA std::ratio<86400>>>, std::chrono::duration<i64 COMMA std::ratio<86400>>)
    case X_FBSYSSEC: FABS(boost::chrono::time_point<boost::chrono::system_clock COMMA boost::chrono::seconds>, boost::chrono::seconds)
    // (any time point of the clock; now is never before its epoch)
#define FCLK(TP, NOW) { typedef TP Tp; auto c = extreme(ns); r.dl = (i128)c - (NOW) + v0; r.tol = 1; op_begin(true, sat(r.dl)); return call(Tp(typename Tp::duration(c)), AbsTag<true>()); }
    case X_FSTEADY: FCLK(std::chrono::steady_clock::time_point, now_mono())
    case X_FBSTEADY: FCLK(boost::chrono::steady_clock::time_point, now_mono())
    case X_FUSER: FCLK(UserClock::time_point, UserClock::raw())
#undef FCLK
#undef FREL
#undef FABS
    }
#undef REL
#undef ABS
#undef COMMA
}

struct Target {
    virtual ~Target() {}
    virtual const char* name() = 0;
    virtual u32 variants() { return 1; }
    virtual bool timed(const Tmo&, TmoRun&, u32 variant) = 0;   // true: success / no timeout
    virtual bool timed_x(u32 form, u32 entry, i64 ns, XRun&) = 0;
    virtual void untimed(u32 variant) = 0;                      // waits without a deadline
    virtual void block() {}                                     // make the condition false (before the waiters start)
    virtual void signal() = 0;                                  // make it true for one waiter
    virtual void disturb(u32 how) = 0;                          // wake somebody without leaving the condition true
    virtual void after_success() {}                             // waiter's own clean-up (e.g. unlock)
    virtual bool loose(u32) { return false; }                   // success may be spurious (condition variable without predicate)
    virtual bool ready_succeeds(u32) { return true; }           // an expired wait must succeed if the condition is true
};
// one factory per object file
Target* make_timed_mutex(); Target* make_mutex(); Target* make_semaphore(); Target* make_auto_event(); Target* make_manual_event(); Target* make_cv(u32 kind); Target* make_cv_any(u32 kind);
#endif
