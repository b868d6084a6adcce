// C01: mutex, timed_mutex, spin_mutex.  C02: shared_spin_mutex.
#include "common.hpp"
#ifdef TM_EMU
#include <unistd.h>
#undef _POSIX_TIMEOUTS
#endif
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/mutexes/spin_mutex.hpp>
#include <boost/sync/mutexes/shared_spin_mutex.hpp>
#include <boost/sync/detail/pthread.hpp>

namespace bs = boost::sync;

enum { K_ACQ, K_FAIL, K_REL, K_SACQ, K_SFAIL, K_SREL };

// ------------------------------------------------------------------ C01
struct MutexSpec {
    struct State { int owner; };
    State init() const { return State{ -1 }; }
    std::string enc(const State& s) const { return std::string((const char*)&s, sizeof s); }
    bool final_ok(const State&) const { return true; }
    bool apply(State& s, const lin::Step& st) const {
        switch (st.kind) {
        case K_ACQ: if (s.owner >= 0) return false; s.owner = st.fid; return true;
        case K_FAIL: return s.owner >= 0 && s.owner != st.fid;
        case K_REL: if (s.owner != st.fid) return false; s.owner = -1; return true;
        }
        return false;
    }
};

struct Blk { u32 how; Tmo t; u32 work; i64 hold; };
template<class M> bool timed_acquire(M& m, const Tmo& t, TmoRun& r) {
    return with_timeout(t, r, [&](auto const& o, auto tag) -> bool {
        if constexpr (decltype(tag)::abs) return t.entry ? SUT(m.try_lock_until(o)) : SUT(m.timed_lock(o));
        else return t.entry ? SUT(m.try_lock_for(o)) : SUT(m.timed_lock(o));
    });
}
template<class M> struct has_timed : std::false_type {};
template<> struct has_timed<bs::timed_mutex> : std::true_type {};

template<class M> void mutex_case(const char* name) {
    draw_faults(); draw_user_clock();
#ifdef BOOST_SYNC_HAS_PTHREAD_EINTR_BUG
    cfg.pthread_eintr = true;
#endif
    label(name);
    u32 nth = 2 + draw(3); if (draw(32) == 31) nth = 5 + draw(8);
    auto m = std::make_shared<std::unique_ptr<M>>();
    SUTV(m->reset(new M));
    M& mx = **m;
    Cell cell; Hist h; int inside = 0; i64 count = 0;
    for (u32 i = 0; i < nth; ++i) {
        std::vector<Blk> prog; u32 n = 1 + draw(4);
        for (u32 k = 0; k < n; ++k) {
            Blk b; b.how = has_timed<M>::value ? draw(4) : draw(2); if (b.how >= 2) b.t = draw_tmo(); b.work = draw(3); b.hold = draw(4) == 3 ? draw_timeout_ns() : 0; prog.push_back(b);
        }
        spawn(fmt("T%u", i).c_str(), [&, prog, i] {
            for (const Blk& b : prog) {
                bool got; OpInfo info{}; int r;
                if (b.how == 0) { r = h.begin(K_ACQ, 0, TXT("%s.lock", name)); op_begin(false, 0); SUTV(mx.lock()); info = op_end(); got = true; }
                else if (b.how == 1) { r = h.begin(K_ACQ, 1, TXT("%s.try_lock", name)); op_begin(false, 0); got = SUT(mx.try_lock()); info = op_end(); }
                else {
                    r = h.begin(K_ACQ, 2, tracing() ? std::string(name) + ".timed " + show(b.t) : "");
                    if constexpr (has_timed<M>::value) { TmoRun tr; got = timed_acquire(mx, b.t, tr); info = op_end(); label(got ? "timed:ok" : "timed:timeout"); } else got = false;
                }
                h.end(r, got, info);
                if (!got) continue;
                SIM_CHECK(inside == 0, fmt("two threads own the %s at once (thread T%u entered while another is inside)", name, i));
                ++inside;
                i64 v = cell.read("datum guarded by the mutex"); 
                for (u32 k = 0; k < b.work; ++k) sched_point();
                if (b.hold > 0) advance(b.hold);
                cell.write(v + 1, "datum guarded by the mutex"); ++count;
                --inside;
                int u = h.begin(K_REL, 0, TXT("%s.unlock", name)); SUTV(mx.unlock()); h.end(u, 1, OpInfo{});
            }
        });
    }
    bool all = run_all();
    if (!all) {
        std::string who; for (int i = 1; i < nfibers(); ++i) if (!finished(i)) who += fmt(" T%d(%s)", i - 1, block_kind(i));
        fail(fmt("%s: thread(s) blocked forever although every owner unlocked:", name) + who + " history:" + h.dump());
    }
    SIM_CHECK(cell.read("datum guarded by the mutex") == count, fmt("%s: an update made under the mutex was lost", name));
    std::vector<lin::Step> st; bool contended = false; std::string txt;
    for (size_t i = 0; i < h.v.size(); ++i) {
        const Rec& r = h.v[i]; int kind = r.kind == K_REL ? K_REL : r.res ? K_ACQ : K_FAIL;
        u64 lo = r.inv; if (kind == K_FAIL && r.info.last_idle > lo) lo = r.info.last_idle;
        if (r.info.last_idle > r.inv) { st.push_back(lin::Step{ (int)i, K_FAIL, 0, r.info.last_idle, r.info.last_idle, false, r.fid }); label("asleep while idle"); } // asleep while nothing could run: somebody must own the mutex
        st.push_back(lin::Step{ (int)i, kind, 0, lo, r.ret, false, r.fid });
        if (kind == K_FAIL || r.info.slept) contended = true;
        if (r.kind == K_ACQ) for (size_t j = 0; j < h.v.size(); ++j) if (h.v[j].kind == K_REL && h.v[j].fid != r.fid && h.v[j].inv > r.inv && j > 0) {
            // the matching acquisition of that release
            for (size_t q = j; q-- > 0;) if (h.v[q].fid == h.v[j].fid && h.v[q].kind == K_ACQ && h.v[q].res) { if (h.v[q].ret < r.inv) contended = true; break; }
        }
    }
    if (!lin::linearizable(st, MutexSpec())) fail(fmt("%s: the results do not fit any order of the calls (a try/timed lock failed while nobody owned the mutex, or succeeded while owned):", name) + h.dump());
    if (contended) nontrivial();
    SUTV(m->reset());
}
static void c01() {
    switch (draw(3)) {
    case 0: mutex_case<bs::mutex>("mutex"); break;
    case 1: mutex_case<bs::timed_mutex>("timed_mutex"); break;
    default: mutex_case<bs::spin_mutex>("spin_mutex"); break;
    }
}

// ------------------------------------------------------------------ C02
struct SharedSpec {
    struct State { int writer; int readers; };
    State init() const { return State{ -1, 0 }; }
    std::string enc(const State& s) const { return std::string((const char*)&s, sizeof s); }
    bool final_ok(const State&) const { return true; }
    bool apply(State& s, const lin::Step& st) const {
        switch (st.kind) {
        case K_ACQ: if (s.writer >= 0 || s.readers) return false; s.writer = st.fid; return true;
        case K_FAIL: return s.writer >= 0 || s.readers;
        case K_REL: if (s.writer != st.fid) return false; s.writer = -1; return true;
        case K_SACQ: if (s.writer >= 0) return false; s.readers++; return true;
        case K_SFAIL: return s.writer >= 0;
        case K_SREL: if (!s.readers) return false; s.readers--; return true;
        }
        return false;
    }
};
// many holders at once, counts near powers of two
static void c02_crowd() {
    label("crowd");
    bs::shared_spin_mutex m; nontrivial();
    u32 k; switch (draw(8)) { default: k = 2 + draw(40); break; case 6: { static const u32 n[] = { 62, 126, 254, 510, 1022, 2046, 4094 }; k = n[draw(7)] + draw(5); break; } case 7: k = draw(8) == 7 ? 65533 + draw(6) : 255 + draw(4); break; }
    bool ex = draw(2); int st = 0;                      // a thread that wants the lock exclusively, by lock() or by try_lock()
    hold(true);
    for (u32 i = 0; i < k; ++i) { if (i % 3 == 1) { if (!SUT(m.try_lock_shared())) fail(fmt("shared_spin_mutex: try_lock_shared failed with %u shared holders", i)); } else SUTV(m.lock_shared()); if (i % 61 == 0 && SUT(m.try_lock())) fail(fmt("shared_spin_mutex: try_lock succeeded with %u shared holders", i + 1)); }
    hold(false);
    spawn("X", [&] { if (ex) { SUTV(m.lock()); st = 1; SUTV(m.unlock()); } else { st = SUT(m.try_lock()) ? 1 : 2; if (st == 1) SUTV(m.unlock()); } });
    run_all();
    if (st == 1) fail(fmt("shared_spin_mutex: locked exclusively with %u shared holders", k));
    hold(true);
    for (u32 i = 0; i + 1 < k; ++i) { SUTV(m.unlock_shared()); if (i % 97 == 0 && SUT(m.try_lock())) fail(fmt("shared_spin_mutex: try_lock succeeded with %u of %u shared holders left", k - 1 - i, k)); }
    hold(false);
    run_all();
    if (st == 1) fail(fmt("shared_spin_mutex: locked exclusively with one shared holder of %u left", k));
    if (SUT(m.try_lock())) fail(fmt("shared_spin_mutex: try_lock succeeded with one shared holder of %u left", k));
    SUTV(m.unlock_shared());
    if (!run_all() || (ex && st != 1)) fail(fmt("shared_spin_mutex: a thread cannot lock exclusively although all %u shared holders released", k));
    if (!SUT(m.try_lock())) fail(fmt("shared_spin_mutex: try_lock failed although all %u shared holders released", k));
    if (SUT(m.try_lock_shared())) fail("shared_spin_mutex: try_lock_shared succeeded while locked exclusively");
    SUTV(m.unlock());
}
static void c02() {
    draw_faults(false);
    if (draw(64) == 63) return c02_crowd();
    u32 nth = 2 + draw(4); if (draw(32) == 31) nth = 6 + draw(8);
    std::unique_ptr<bs::shared_spin_mutex> m; SUTV(m.reset(new bs::shared_spin_mutex));
    Cell cell; Hist h; int w = 0, rd = 0, maxrd = 0; i64 count = 0;
    for (u32 i = 0; i < nth; ++i) {
        std::vector<std::pair<u32, u32>> prog; u32 n = 1 + draw(4);
        for (u32 k = 0; k < n; ++k) { u32 a = draw(5); u32 b = draw(3); prog.push_back(std::make_pair(a, b)); }
        spawn(fmt("T%u", i).c_str(), [&, prog, i] {
            for (auto& b : prog) {
                bool got = true; int r; bool shared = b.first == 0 || b.first == 1 || b.first == 4;
                if (b.first == 0) { r = h.begin(K_SACQ, 0, TXT("lock_shared")); SUTV(m->lock_shared()); }
                else if (b.first == 1 || b.first == 4) { r = h.begin(K_SACQ, 1, TXT("try_lock_shared")); got = SUT(m->try_lock_shared()); }
                else if (b.first == 2) { r = h.begin(K_ACQ, 0, TXT("lock")); SUTV(m->lock()); }
                else { r = h.begin(K_ACQ, 1, TXT("try_lock")); got = SUT(m->try_lock()); }
                h.end(r, got, OpInfo{});
                if (!got) { label(shared ? "try_shared:failed" : "try:failed"); continue; }
                if (shared) {
                    SIM_CHECK(w == 0, fmt("T%u holds the shared_spin_mutex shared while another thread holds it exclusively", i));
                    ++rd; if (rd > maxrd) maxrd = rd;
                    cell.read("datum guarded by the shared mutex");
                    for (u32 k = 0; k < b.second; ++k) sched_point();
                    --rd;
                    int u = h.begin(K_SREL, 0, TXT("unlock_shared")); SUTV(m->unlock_shared()); h.end(u, 1, OpInfo{});
                } else {
                    SIM_CHECK(w == 0 && rd == 0, fmt("T%u holds the shared_spin_mutex exclusively while another thread holds it", i));
                    ++w; i64 v = cell.read("datum guarded by the shared mutex");
                    for (u32 k = 0; k < b.second; ++k) sched_point();
                    cell.write(v + 1, "datum guarded by the shared mutex"); ++count; --w;
                    int u = h.begin(K_REL, 0, TXT("unlock")); SUTV(m->unlock()); h.end(u, 1, OpInfo{});
                }
            }
        });
    }
    if (!run_all()) fail("shared_spin_mutex: a thread is blocked forever although every holder released;" + h.dump());
    SIM_CHECK(cell.read("datum guarded by the shared mutex") == count, "an update made under the exclusive lock was lost");
    std::vector<lin::Step> st; bool overlap = false;
    for (size_t i = 0; i < h.v.size(); ++i) {
        const Rec& r = h.v[i]; int k = r.kind; if (!r.res) k = k == K_ACQ ? K_FAIL : K_SFAIL;
        st.push_back(lin::Step{ (int)i, k, 0, r.inv, r.ret, false, r.fid });
        if (!r.res) overlap = true;
        for (size_t j = 0; j < i; ++j) if (h.v[j].fid != r.fid && h.v[j].ret > r.inv) overlap = true;
    }
    if (!lin::linearizable(st, SharedSpec())) fail("shared_spin_mutex: the results do not fit any order of the calls (a try failed without a conflicting holder, or succeeded in conflict):" + h.dump());
    if (maxrd > 1) label("readers together");
    if (overlap) nontrivial();
    SUTV(m.reset());
}

int main(int c, char** v) {
    static const Prop p[] = {
        { "C01", "an acquisition started while another thread owned the mutex, slept, or failed", c01 },
        { "C02", "calls of different threads overlapped in time or a try call failed", c02 },
    };
    return driver_main(c, v, p, 2);
}
