// C21 waiting threads sleep, C08 no early timeout, C09 prompt timeout, C10 all time types denote the same instant.
#include "p_time.hpp"

static Target* make_target() {
    switch (draw(6)) {
    case 0: return make_semaphore();
    case 1: return make_timed_mutex();
    case 2: return make_auto_event();
    case 3: return make_manual_event();
    case 4: return make_cv(draw(2));
    default: return make_cv_any(draw(2));
    }
}
static void vsleep(i64 ns) { struct timespec t; t.tv_sec = ns / 1000000000; t.tv_nsec = ns % 1000000000; ::nanosleep(&t, nullptr); }

static i64 draw_ns_wide() {
    switch (draw(8)) {
    case 0: case 1: case 2: return draw_timeout_ns();
    case 3: return 1000000000ll * (1 + (i64)draw(100000));
    case 4: return (i64)draw(4) - 1;
    case 5: return 86400000000000ll * (1 + (i64)draw(2000));
    case 6: return INT64_MAX - (i64)now_rt() - 1000000000000000000ll - (i64)draw(1000);
    default: return -1000000000ll * (1 + (i64)draw(2000000000u));
    }
}
// both C08 and C09 judge the same kind of case
static void timed_case(bool early, bool late) {
    draw_faults(); draw_user_clock();
    if (late && draw(2)) cfg.eintr_pct = 60;
    static const i64 bases[] = { 1700000000, 1, 0, 4102444800ll, 2147483647 }; cfg.rt_base_s = bases[draw(5)];
    std::unique_ptr<Target> T(make_target()); label(T->name());
    bool ready = draw(6) == 5;
    bool steps = early && CLOCK_NS == 1 && !ready && draw(4) == 0; if (steps) label("clocks are set");
    if (!ready) T->block(); 
    u32 nw = ready ? 1 : 1 + draw(3); u32 fin = 0; bool distant = false; bool slept = false; bool reads_timeout = false;
    if (ready) T->signal();
    for (u32 i = 0; i < nw; ++i) {
        u32 v = draw(T->variants()); std::vector<Tmo> ts; u32 n = ready ? 1 : 1 + draw(2);
        for (u32 k = 0; k < n; ++k) { Tmo t = draw_tmo(); if (draw(3) == 2) t.ns = draw_ns_wide(); if (t.form == F_USER && (t.ns > 1000000000000ll || t.ns < -1000000000000ll)) t.ns = 1000000; ts.push_back(t); }
        spawn(fmt("W%u", i).c_str(), [&, v, ts, i] {
            for (const Tmo& t : ts) {
                if (tracing()) note(std::string("call ") + T->name() + (T->variants() > 1 ? (v ? " (predicate) " : " ") : " ") + show(t));
                TmoRun r; clear_os_wait();
                bool ok = T->timed(t, r, v); OpInfo info = op_end();
                if (tracing()) note(fmt("  ret %s, deadline was t=%lld", ok ? "success" : "timeout", (long long)r.dl_v));
                hash_in(ok);
                if (info.slept) slept = true;
                if (!ok) reads_timeout = true;
                if (ok) T->after_success();
                if (early && !ok && r.before_deadline() && (!rt_steps.v.empty() || !user_steps.v.empty())) fail(std::string(T->name()) + ": timed out although the clock of the deadline, which was set meanwhile, did not reach it (" + show(t) + ")");
                if (early && !ok && r.before_deadline()) fail(fmt("%s: timed out %lld ns before the deadline (", T->name(), (long long)(r.dl_v - vnow())) + show(t) + ")");
                if (late) {
                    bool fast_clock = t.form == F_USER && UserClock::num > UserClock::den;
                    if (info.over > LATE_NS && !fast_clock && !(CLOCK_NS > 1000 && t.ns > 4200000000000000ll))   // (Windows waits 49 days at a time)
                        fail(fmt("%s: slept on after its deadline, by %lld ns (%u interruptions/wakeups) (", T->name(), (long long)info.over, info.sleeps) + show(t) + ")");
                    if (t.ns <= 0 && t.form != F_PTIME && t.form != F_SYSMS && info.slept) fail(std::string(T->name()) + ": an expired timeout blocked (" + show(t) + ")");
                    if (ready && !ok && T->ready_succeeds(v)) fail(std::string(T->name()) + ": timed out although the condition was true all along (" + show(t) + ")");
                }
            }
            ++fin;
        });
    }
    if (!ready) {
        u32 nd = draw(5);
        for (u32 k = 0; k < nd; ++k) {
            if (steps && draw(2)) step_clocks();
            switch (draw(4)) {
            case 0: vsleep(TU * (1 + draw(300))); break;
            case 1: vsleep(1000 * (1 + (i64)draw(400))); break;
            case 2: vsleep(1000000 * (1 + (i64)draw(200))); break;
            default: sched_point();
            }
            if (tracing()) note(std::string("disturb ") + T->name());
            T->disturb(draw(2));
        }
    }
    bool all = run_all();
    if (!all) {
        // whoever is still blocked must have a deadline that never comes in this run
        for (int i = 1; i < nfibers(); ++i) if (!finished(i)) { distant = true; if (!is_blocked(i)) fail("a waiter neither finished nor blocks"); i64 d = op_deadline(i); if (late && d < DISTANT) fail(std::string(T->name()) + ": a timed wait is blocked forever although its deadline passed"); }
        for (int k = 0; k < 10 && !all; ++k) { T->signal(); all = run_all(); }
        SIM_CHECK(all, std::string(T->name()) + ": a timed wait with a distant deadline was not released by the signal");
    }
    T->signal();
    if (distant) label("distant deadline");
    if (ready) label("ready");
    if (slept || reads_timeout || ready) nontrivial();
    T.reset();
}
static void c08() { timed_case(true, false); }
static void c09() { timed_case(false, true); }

static i64 draw_x_ns() {
    static const i64 pts[] = { 1000000000ll, 60000000000ll, 3600000000000ll, 86400000000000ll, 2147483647ll, 2147483648ll, 4294967296ll, 2147483647000ll, 2147483648000000000ll, 31557600000000000ll, 100 * 31557600000000000ll };
    i64 v;
    switch (draw(6)) {
    case 0: v = draw_timeout_ns(); break;
    case 1: v = pts[draw(11)] + (i64)draw(5) - 2; break;
    case 2: v = pts[draw(11)] / 2 * (1 + draw(3)); break;
    case 3: v = draw_range(0, 4000000000000000000ll); break;
    case 4: v = draw_range(0, 10000000000000ll); break;
    default: v = (i64)1 << draw(62); break;
    }
    if (draw(5) == 4) v = -v;
    return v;
}
static void c10() {
    cfg.eintr_pct = 0; cfg.delay_pct = 0;
    static const i64 bases[] = { 1700000000, 1, 0, 4102444800ll, 2147483647, 1 }; cfg.rt_base_s = bases[draw(6)];
    cfg.rt_base_ns = draw(2) ? 999999999 - draw(3) : draw(1000000000);
    std::unique_ptr<Target> T(make_target()); label(T->name());
    T->block();
    u32 f = draw(F_COUNT - 1 + (CLOCK_NS > 1 ? X_FTS : X_COUNT)); u32 entry = draw(T->variants() > 1 ? 4 : 2); i64 ns = draw_x_ns();
    bool ext = f >= F_COUNT - 1; if (ext) f -= F_COUNT - 1;
    // keep absolute instants inside 64 bits of nanoseconds since the epoch
    if (!(ext && f >= X_FTS) && ns > 0 && ns > INT64_MAX - now_rt() - 1000000000ll) ns = INT64_MAX - now_rt() - 1000000000ll;
    UserClock::num = UserClock::den = 1; UserClock::off = 0;
    const char* fn = ext ? xname(f) : form_name(f); label(fn);
    i128 dl = 0; i64 tol = 0; bool done = false, ok = false; i64 at = 0; bool slept = false; std::string call;
    spawn("W", [&] {
        if (ext) { XRun r; r.dl = 0; r.tol = 0; struct Pub { XRun& r; i128& d; i64& t; ~Pub() { d = r.dl; t = r.tol; } } ; ok = T->timed_x(f, entry, ns, r); dl = r.dl; tol = r.tol; }
        else { Tmo t; t.form = f; t.entry = entry & 1; t.ns = ns; TmoRun r; ok = T->timed(t, r, entry >> 1); dl = r.dl_v; tol = 1; }
        slept = op_end().slept; at = vnow(); done = true; if (ok) T->after_success();
    });
    bool all = run_all();
    std::string what = fmt("%s with %s of %lld ns at clock %lld.%09lld", T->name(), fn, (long long)ns, (long long)cfg.rt_base_s, (long long)cfg.rt_base_ns);
    if (tracing()) note(what + (done ? fmt(": returned %s at t=%lld, denoted deadline t=%lld (+-%lld)", ok ? "success" : "timeout", (long long)at, (long long)sat(dl), (long long)tol) : std::string(": blocked")));
    if (!all) {
        if (op_deadline(1) < DISTANT) fail("wrong deadline, " + what + fmt(": still blocked although the deadline is t=%lld", (long long)op_deadline(1)));
        for (int k = 0; k < 3 && !all; ++k) { T->signal(); all = run_all(); }
        label("distant deadline"); 
    } else {
        // (a condition variable without a predicate may end its wait a tick of the system's clock early, for no reason)
        bool early = ok && CLOCK_NS > 1 && T->loose(entry >> 1) && (i128)at >= dl - tol - CLOCK_NS && (i128)at <= dl;
        if (ok && !early) fail("reports success instead of a timeout, " + what);
        if (dl <= 0) { if (at > 999 + CLOCK_NS) fail("wrong deadline, " + what + fmt(": an expired timeout returned after %lld ns", (long long)at)); label("expired"); }
        else {
            i128 diff = (i128)at - dl;
            if (diff < -(i128)tol - CLOCK_NS || diff > (i128)tol + 199 + CLOCK_NS) fail("wrong deadline, " + what + fmt(": returned at t=%lld instead of t=%lld (tolerance %lld ns)", (long long)at, (long long)sat(dl), (long long)tol));
        }
    }
    T->signal();
    if (slept || dl <= 0) nontrivial();
    T.reset();
}

// ------------------------------------------------------------------ C21: waiting threads sleep
static void c21() {
    draw_faults(); draw_user_clock(); cfg.must_sleep = true;
    std::unique_ptr<Target> T(draw(7) == 6 ? make_mutex() : make_target()); label(T->name());
    T->block();
    u32 nw = 1 + draw(3); u64 events = 0; bool waited = false; u32 fin = 0; bool over = false;
    for (u32 i = 0; i < nw; ++i) {
        u32 v = draw(T->variants()); bool timed = draw(2); u32 n = 1 + draw(2); Tmo t = draw_tmo();
        switch (draw(4)) { case 0: t.ns = 1000000000ll * (10 + (i64)draw(600)); break; case 1: t.ns = 1000000000ll * (600 + (i64)draw(10000)); break; case 2: t.ns = 86400000000000ll * (1 + (i64)draw(10000)); break; default: break; }
        if (t.form == F_USER && t.ns > 10000000000000ll) t.ns = 10000000000000ll;
        spawn(fmt("W%u", i).c_str(), [&, v, timed, t, n] {
            for (u32 k = 0; k < n && !over; ++k) {
                std::string what = tracing() ? std::string(T->name()) + (T->variants() > 1 && v ? " (predicate) " : " ") + (timed ? show(t) : std::string("without a deadline")) : "";
                if (tracing()) note("call " + what);
                u64 e0 = events; const i64 v0 = vnow(); TmoRun r; bool ok = true; clear_os_wait();
                if (timed) ok = T->timed(t, r, v); else { op_begin(false, 0); T->untimed(v); }
                OpInfo info = op_end(); if (info.last_idle) waited = true;
                if (tracing()) note(fmt("  ret %d, slept %u times, interrupted %u times", (int)ok, info.sleeps, info.intrs));
                if (ok) { ++events; T->after_success(); }
                u64 bound = 100 + 4 * (info.intrs + (events - e0) + nw) + (u64)((vnow() - v0) / 86400000000000ll);   // (very long waits may be made in pieces of a day or more)
                if (info.sleeps > bound) fail(fmt("%s: went to sleep %u times in one waiting call (%u interruptions, %llu signals): it polls", T->name(), info.sleeps, info.intrs, (unsigned long long)(events - e0)));
            }
            ++fin;
        });
    }
    u32 nd = draw(6);
    for (u32 k = 0; k < nd; ++k) {
        switch (draw(5)) {
        case 0: vsleep(TU * (1 + draw(300))); break;
        case 1: vsleep(1000000 * (1 + (i64)draw(200))); break;
        case 2: vsleep(1000000000ll * (1 + (i64)draw(100))); break;
        case 3: vsleep(1000000000ll * (100 + (i64)draw(10000))); break;
        default: sched_point();
        }
        if (tracing()) note(std::string("disturb ") + T->name());
        ++events; T->disturb(draw(2));
    }
    vsleep(1000000000ll * (1 + (i64)draw(20000)));      // nothing happens for long
    bool all = run_all();
    for (int i = 1; i < nfibers(); ++i) if (!finished(i)) { OpInfo info = op_peek(i); if (info.slept) waited = true; if (info.sleeps > 100 + 4 * (info.intrs + events + nw) + (u64)(vnow() / 86400000000000ll)) fail(fmt("%s: went to sleep %u times in one waiting call (%u interruptions): it polls", T->name(), info.sleeps, info.intrs)); }
    over = true;
    for (int k = 0; k < 16 && !all; ++k) { ++events; T->signal(); all = run_all(); }
    SIM_CHECK(all, std::string(T->name()) + ": waiting threads were not released by the signals");
    T->signal();
    if (waited) nontrivial();
    T.reset();
}

int main(int c, char** v) {
    static const Prop p[] = {
        { "C08", "a timed call slept, timed out, or found its condition true", c08 },
        { "C09", "a timed call slept, timed out, or found its condition true", c09 },
        { "C10", "the timed call slept until its deadline, or the value was zero or negative", c10 },
        { "C21", "a thread was asleep in a waiting call while time went by or until the end", c21 },
    };
    return driver_main(c, v, p, 4);
}
