// Does the simulator answer like the system it stands for? Random sequences of pthread, semaphore and futex calls are made
// twice, once on the models of sim/engine.cpp and once on the real glibc and kernel, and every result is compared.
// This checks the checks; it decides no property of the library. Build and run: tools/conform.sh [cases] [seed]
#include "../props/common.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <limits.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <time.h>
#include <memory>
#include <thread>
#include <atomic>
using namespace sim;

extern "C" {
#define R(ret, name, args) ret __real_##name args; ret __wrap_##name args
R(int, pthread_mutex_init, (pthread_mutex_t*, const pthread_mutexattr_t*)); R(int, pthread_mutex_destroy, (pthread_mutex_t*));
R(int, pthread_mutex_lock, (pthread_mutex_t*)); R(int, pthread_mutex_trylock, (pthread_mutex_t*)); R(int, pthread_mutex_unlock, (pthread_mutex_t*));
R(int, pthread_mutex_timedlock, (pthread_mutex_t*, const timespec*)); R(int, pthread_mutex_clocklock, (pthread_mutex_t*, clockid_t, const timespec*));
R(int, pthread_cond_signal, (pthread_cond_t*)); R(int, pthread_cond_broadcast, (pthread_cond_t*));
R(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const timespec*)); R(int, pthread_cond_clockwait, (pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*));
R(int, sem_init, (sem_t*, int, unsigned)); R(int, sem_post, (sem_t*)); R(int, sem_trywait, (sem_t*)); R(int, sem_wait, (sem_t*)); R(int, sem_getvalue, (sem_t*, int*));
R(int, sem_timedwait, (sem_t*, const timespec*)); R(int, sem_clockwait, (sem_t*, clockid_t, const timespec*));
R(int, clock_gettime, (clockid_t, timespec*));
int __real_nanosleep(const timespec*, timespec*); long __real_syscall(long, ...); long __wrap_syscall(long, ...);
}
namespace {
// a real thread that runs one thing at a time
struct Worker {   // (only plain atomics and real calls here: the wrapped ones belong to the simulation)
    std::atomic<int> st{ 0 }; std::function<long()> job; long result = 0; std::atomic<pid_t> tid{ 0 };
    static void nap() { timespec t{ 0, 20000 }; __real_nanosleep(&t, nullptr); }
    Worker() { std::thread([this] { tid = (pid_t)__real_syscall(SYS_gettid); for (;;) { while (st != 1) nap(); result = job(); st = 2; } }).detach(); while (!tid) nap(); }
    void start(std::function<long()> f) { job = std::move(f); st = 1; }
    bool ready() const { return st == 2; }
    long get() { while (st != 2) nap(); st = 0; return result; }
};
Worker* W[2];
struct Objs { pthread_mutex_t m; pthread_cond_t c; sem_t s; int word; };
struct Ts { int kind; i64 d; clockid_t clk; };
timespec make(const Ts& t, bool real) {
    timespec n; if (real) __real_clock_gettime(t.clk, &n); else __wrap_clock_gettime(t.clk, &n);
    __int128 v = (__int128)n.tv_sec * 1000000000 + n.tv_nsec + t.d; timespec r; r.tv_sec = (time_t)(v / 1000000000); r.tv_nsec = (long)(v % 1000000000);
    if (t.kind == 1) { r.tv_sec = -1; r.tv_nsec = 5; } else if (t.kind == 2) r.tv_nsec = 1000000000; else if (t.kind == 3) r.tv_nsec = -1; else if (t.kind == 4) { r.tv_sec = LONG_MIN; r.tv_nsec = 0; } else if (t.kind == 5) { r.tv_sec = 0; r.tv_nsec = 0; }
    return r;
}
timespec makerel(const Ts& t) { timespec r; r.tv_sec = 0; r.tv_nsec = t.d > 0 ? t.d : 0; if (t.kind == 1) r.tv_sec = -1; else if (t.kind == 2) r.tv_nsec = 1000000000; else if (t.kind == 3) r.tv_nsec = -1; else if (t.kind == 4) { r.tv_sec = LONG_MIN; r.tv_nsec = 0; } return r; }
Ts draw_ts(bool mayexpire) { Ts t; t.clk = draw(2) ? CLOCK_MONOTONIC : CLOCK_REALTIME; t.kind = draw(3) ? 0 : 1 + (int)draw(5); static const i64 ds[] = { 1500000, 0, -1, -1000000000, 3600000000000ll }; u32 k = draw(mayexpire ? 4 : 5); t.d = ds[k]; return t; }
long err(long r) { return r == -1 ? -errno : r; }
#define BOTH(name) (real ? __real_##name : __wrap_##name)

void conform() {
    cfg = Cfg(); cfg.spurious_cond = false;
    Objs a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b);
    static const unsigned sv[] = { 0, 1, 2, INT_MAX - 1, INT_MAX }; unsigned s0 = sv[draw(5)]; int w0 = (int)draw(3);
    for (int k = 0; k < 2; ++k) { bool real = k; Objs& o = k ? b : a; o.c = PTHREAD_COND_INITIALIZER; o.m = PTHREAD_MUTEX_INITIALIZER; BOTH(sem_init)(&o.s, 0, s0); o.word = w0; }
    std::function<void()> job1; bool quit1 = false; sem_t go, back; SUTV(__wrap_sem_init(&go, 0, 0)); SUTV(__wrap_sem_init(&back, 0, 0));
    spawn("t1", [&] { for (;;) { SUTV(__wrap_sem_wait(&go)); if (quit1) return; job1(); SUTV(__wrap_sem_post(&back)); } });   // the models know a mutex's owner by its thread
    int owner = -1; i64 val = s0; int n = 4 + (int)draw(12);
    for (int i = 0; i < n; ++i) {
        int who = (int)draw(2); std::string what; std::function<long(bool)> f;
        auto O = [&](bool real) -> Objs& { return real ? b : a; };
        switch (draw(14)) {
        case 0: what = "mutex trylock"; f = [&](bool real) -> long { return BOTH(pthread_mutex_trylock)(&O(real).m); }; break;
        case 1: if (owner >= 0) continue; what = "mutex lock"; f = [&](bool real) -> long { return BOTH(pthread_mutex_lock)(&O(real).m); }; break;
        case 2: if (owner < 0) continue; who = owner; what = "mutex unlock"; f = [&](bool real) -> long { return BOTH(pthread_mutex_unlock)(&O(real).m); }; break;
        case 3: { if (owner == who) continue; Ts t = draw_ts(owner >= 0); t.clk = CLOCK_REALTIME; what = fmt("mutex timedlock kind %d d %lld", t.kind, (long long)t.d); f = [&, t](bool real) -> long { timespec x = make(t, real); return BOTH(pthread_mutex_timedlock)(&O(real).m, &x); }; break; }
        case 4: { if (owner == who) continue; Ts t = draw_ts(owner >= 0); what = fmt("mutex clocklock clock %d kind %d d %lld", t.clk, t.kind, (long long)t.d); f = [&, t](bool real) -> long { timespec x = make(t, real); return BOTH(pthread_mutex_clocklock)(&O(real).m, t.clk, &x); }; break; }
        case 5: { if (owner < 0) continue; who = owner; Ts t = draw_ts(true); bool clk = draw(2); if (!clk) t.clk = CLOCK_REALTIME; what = fmt("cond %s clock %d kind %d d %lld", clk ? "clockwait" : "timedwait", t.clk, t.kind, (long long)t.d);
            f = [&, t, clk](bool real) -> long { timespec x = make(t, real); return clk ? BOTH(pthread_cond_clockwait)(&O(real).c, &O(real).m, t.clk, &x) : BOTH(pthread_cond_timedwait)(&O(real).c, &O(real).m, &x); }; break; }
        case 6: { bool all = draw(2); what = all ? "cond broadcast" : "cond signal"; f = [&, all](bool real) -> long { return all ? BOTH(pthread_cond_broadcast)(&O(real).c) : BOTH(pthread_cond_signal)(&O(real).c); }; break; }
        case 7: what = "sem post"; f = [&](bool real) -> long { return err(BOTH(sem_post)(&O(real).s)); }; break;
        case 8: what = "sem trywait"; f = [&](bool real) -> long { return err(BOTH(sem_trywait)(&O(real).s)); }; break;
        case 9: { Ts t = draw_ts(val <= 0); bool clk = draw(2); if (!clk) t.clk = CLOCK_REALTIME; what = fmt("sem %s clock %d kind %d d %lld (value %lld)", clk ? "clockwait" : "timedwait", t.clk, t.kind, (long long)t.d, (long long)val);
            f = [&, t, clk](bool real) -> long { timespec x = make(t, real); return err(clk ? BOTH(sem_clockwait)(&O(real).s, t.clk, &x) : BOTH(sem_timedwait)(&O(real).s, &x)); }; break; }
        case 10: what = "sem getvalue"; f = [&](bool real) -> long { int v = 0; long r = BOTH(sem_getvalue)(&O(real).s, &v); return r ? r : v; }; break;
        case 11: { static const int ops[] = { FUTEX_WAIT, FUTEX_WAIT_BITSET }; int cmd = ops[draw(2)]; int fl = (draw(2) ? FUTEX_PRIVATE_FLAG : 0) | (draw(2) ? FUTEX_CLOCK_REALTIME : 0); int v = (int)draw(3); unsigned bits = draw(4) ? 0xFFFFFFFFu >> draw(8) : 0; Ts t = draw_ts(true); t.clk = fl & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC;
            int off = draw(12) ? 0 : 1;
            what = fmt("futex wait op %d value %d of %d kind %d d %lld bits %x offset %d", cmd | fl, v, w0, t.kind, (long long)t.d, bits, off);
            f = [&, cmd, fl, v, bits, t, off](bool real) -> long { timespec x = cmd == FUTEX_WAIT ? makerel(t) : make(t, real); return err(BOTH(syscall)(SYS_futex, (char*)&O(real).word + off, cmd | fl, v, &x, (int*)nullptr, bits)); }; break; }
        case 12: { int cmd = draw(2) ? FUTEX_WAKE : FUTEX_WAKE_BITSET; int fl = draw(2) ? FUTEX_PRIVATE_FLAG : 0; int v = (int)draw(3) * (draw(3) ? 1 : INT_MAX / 2); unsigned bits = draw(4) ? 0xFFu : 0;
            what = fmt("futex wake op %d n %d bits %x", cmd | fl, v, bits); f = [&, cmd, fl, v, bits](bool real) -> long { return err(BOTH(syscall)(SYS_futex, &O(real).word, cmd | fl, v, (timespec*)nullptr, (int*)nullptr, bits)); }; break; }
        case 13: { // one thread asleep on the futex, the other wakes
            int fl = draw(2) ? FUTEX_PRIVATE_FLAG : 0, wl = draw(2) ? FUTEX_PRIVATE_FLAG : 0; unsigned b1 = 1u << draw(3), b2 = draw(3) ? 0xFFFFFFFFu : 1u << draw(3); int v = (int)draw(4) - 1; if (v < 0) v = INT_MAX;
            auto wt = [=](bool real, int* p) -> long { timespec x = make(Ts{ 0, real ? 60000000 : 60000000, CLOCK_MONOTONIC }, real); return err(BOTH(syscall)(SYS_futex, p, FUTEX_WAIT_BITSET | fl, w0, &x, (int*)nullptr, b1)); };
            auto wk = [=](bool real, int* p) -> long { return err(BOTH(syscall)(SYS_futex, p, FUTEX_WAKE_BITSET | wl, v, (timespec*)nullptr, (int*)nullptr, b2)); };
            long r1 = -99, r2 = -99, q1, q2; 
            int* pa = &a.word; i64 v0 = vnow(); int id = spawn("w", [&] { SUTV(r1 = wt(false, pa)); });
            int id2 = spawn("k", [&] { while (!is_blocked(id) && !finished(id)) yield_now(); SUTV(r2 = wk(false, pa)); }); run_all(); (void)id2; (void)v0;
            auto& w = *W[0]; w.start([&] { return wt(true, &b.word); });
            for (;;) { char p[64]; snprintf(p, sizeof p, "/proc/self/task/%d/syscall", w.tid.load()); FILE* g = fopen(p, "r"); long nr = 0; unsigned long a0 = 0; if (g) { if (fscanf(g, "%ld %lx", &nr, &a0) != 2) nr = -1; fclose(g); } if (nr == SYS_futex && a0 == (unsigned long)&b.word) break; if (w.ready()) break; Worker::nap(); }
            for (int k = 0; k < 10; ++k) Worker::nap(); q2 = wk(true, &b.word); q1 = w.get();
            label("sleeper"); nontrivial();
            if (r1 != q1 || r2 != q2) fail(fmt("futex sleeper: flags %d/%d bits %x/%x n %d: model: wait %ld wake %ld, system: wait %ld wake %ld", fl, wl, b1, b2, v, r1, r2, q1, q2));
            continue; }
        }
        long x = -99, y;
        if (who) { job1 = [&] { SUTV(x = f(false)); }; SUTV(__wrap_sem_post(&go)); SUTV(__wrap_sem_wait(&back)); } else SUTV(x = f(false));
        auto& w = *W[who]; w.start([&] { return f(true); }); y = w.get();
        if (x != y) fail(fmt("%s: the model says %ld, the system %ld", what.c_str(), x, y));
        nontrivial(); label(what.substr(0, what.find(' ', what.find(' ') + 1)).c_str());
        if (what.compare(0, 5, "mutex") == 0) { if (x == 0) owner = what == "mutex unlock" ? -1 : who; }
        if (what == "sem post" && x == 0) ++val; if ((what == "sem trywait" || what.compare(0, 9, "sem timed") == 0 || what.compare(0, 9, "sem clock") == 0) && x == 0) --val;
    }
    quit1 = true; SUTV(__wrap_sem_post(&go)); run_all();
}
}
int main(int c, char** v) { for (auto& w : W) w = new Worker; static const Prop p[] = { { "conform", "calls compared", conform } }; return driver_main(c, v, p, 1); }
