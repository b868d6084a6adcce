// C14 - C17, C19: thread-specific pointers, functions called at thread exit, notification at thread exit.
#include "common.hpp"
#include <new>
#include <exception>
#include <string.h>
#include <map>
#include <set>
#include <boost/sync/thread_specific/thread_specific_ptr.hpp>
#include <boost/sync/thread_specific/at_thread_exit.hpp>
#include <boost/sync/condition_variables/notify_all_at_thread_exit.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/locks/unique_lock.hpp>
namespace bs = boost::sync;
#ifdef SIM_WIN
namespace boost { namespace sync { namespace detail { namespace windows { void on_thread_exit(); void tss_cleanup_implemented() {} } } } }
extern "C" void sim_thread_exit() { boost::sync::detail::windows::on_thread_exit(); }
static bool held_by_me(bs::mutex&) { return false; }
static bool is_locked(bs::mutex& m) { bool got = SUT(m.try_lock()); if (got) SUTV(m.unlock()); return !got; }
#else
static bool held_by_me(bs::mutex& m) { return mutex_model_owner(m.native_handle()) == self(); }
static bool is_locked(bs::mutex& m) { return mutex_model_locked(m.native_handle()); }
#endif
namespace {
enum { P14 = 1, P15 = 2, P16 = 4, P17 = 8, P19 = 16 };
struct Val { int x; ~Val(); };
typedef bs::thread_specific_ptr<Val> TSP;
struct World* W;

enum { V_NEW, V_STORED, V_CLEANED, V_RELEASED, V_FORGOTTEN };
struct VInfo { Val* p; int gen, tag, thr, st; };
struct Obj { TSP* p = nullptr; int gen = -1, tag = 0, inuse = 0; };
struct FnInfo { int thr, phase; bool called; int live; };
struct Th { int fid = -1; int phase = 0; std::vector<int> resets; std::vector<int> destroys; std::vector<int> stack; std::map<int, int> cur; Cell cell; bool used = false; int chain = 0; };   // cur: gen -> value
struct Pair { bs::mutex m; bs::condition_variable own; bs::condition_variable* c; Pair() : c(&own) {} };
struct Reg { int thr = -1; bool active = false; std::vector<int> must; };
struct WInst { int pair; bool in, ret; };

struct World {
    u32 focus; std::vector<VInfo> v; std::map<Val*, int> byp; Obj o[4]; int gens = 0; std::vector<FnInfo> fn; int fn_live = 0; std::map<int, Th> th; int budget = 0;
    enum { NP = 12 }; Pair* pr[NP] = {}; Reg reg[NP]; std::vector<WInst> wi; bool warm = false; bool deep = false;
    void bad(u32 prop, const std::string& s) { if (focus & prop) fail(s); }
    Th& me() { Th& t = th[self()]; t.fid = self(); return t; }

    // ---- callbacks
    void on_cleanup(Val* p, int tag) {
        Th& t = me();
        auto it = byp.find(p);
        if (it == byp.end()) { fail("a cleanup was called for a value that was already cleaned up, or was never stored"); }
        int id = it->second; VInfo& x = v[id]; byp.erase(it);
        if (tracing()) note(fmt("cleanup %d of value %d (stored by T%d in object %d)", tag, id, x.thr, x.gen));
        if (x.st == V_NEW) bad(P15 | P14, "a value that is not stored was cleaned up");
        if (x.st == V_RELEASED) bad(P15 | P14, "a released value was cleaned up");
        if (x.tag != tag) bad(P15, "a value was passed to the cleanup of another thread_specific_ptr");
        bool by_reset = false, by_destroy = false; for (int r : t.resets) if (r == id) by_reset = true; for (int g : t.destroys) if (g == x.gen) by_destroy = true;
        bool by_exit = x.thr == self() && t.phase >= 1;
        if (!by_reset && !by_destroy && !by_exit) bad(P15 | P14, "a value was cleaned up although it was neither replaced, nor did its thread exit, nor was the object destroyed");
        if (!by_reset && !by_destroy && by_exit) {
            for (size_t k = 0; k < fn.size(); ++k) if (fn[k].thr == self() && !fn[k].called && fn[k].phase <= 1) bad(P16, "a thread-specific value was cleaned up at thread exit before all at_thread_exit functions were called");
            t.phase = 2; label("cleanup at exit");
        } else label(by_reset ? "cleanup by reset" : "cleanup by destruction");
        x.st = V_CLEANED; Th& owner = th[x.thr]; auto c = owner.cur.find(x.gen); if (c != owner.cur.end() && c->second == id) owner.cur.erase(c);
        if (t.phase >= 1) t.cell.write(1, "data written by a cleanup at thread exit");
        nontrivial_if(P15); if (by_exit || by_destroy) nontrivial_if(P19);
        nested();
    }
    void nontrivial_if(u32 p) { if (focus & p) nontrivial(); }
    void on_fn(int id) {
        Th& t = me(); FnInfo& f = fn[id];
        if (tracing()) note(fmt("at_thread_exit function %d of T%d called", id, f.thr));
        if (f.called) bad(P16, "an at_thread_exit function was called twice");
        if (f.thr != self()) bad(P16, "an at_thread_exit function was called by another thread");
        if (t.phase == 0) bad(P16, "an at_thread_exit function was called before its thread exited");
        f.called = true;
        if (f.phase == 0) {
            for (int k : t.stack) if (k > id && !fn[k].called && fn[k].phase == 0) bad(P16, "at_thread_exit functions were not called in the reverse order of their registration");
            for (int k : t.stack) if (k < id && fn[k].called && fn[k].phase == 0) bad(P16, "at_thread_exit functions were not called in the reverse order of their registration");
        } else label("nested at_thread_exit called");
        t.cell.write(1, "data written by an at_thread_exit function");
        nontrivial_if(P16);
        nested();
    }
    void nested() {
        Th& t = me();
        if (t.chain > 0 && t.phase >= 1) {               // long chains: what runs at thread exit stores or registers more
            --t.chain; label("chain at exit");
            if (focus & (P16 | P17) && draw(2)) at_exit(); else { int s = (int)draw(4); Obj& o = o_(s); if (o.p && !o.inuse) set(o, false, false); else at_exit(); }
        }
        if (budget <= 0) return;
        u32 n = draw(3); for (u32 k = 0; k < n && budget > 0; ++k) { --budget; op(true); }
    }
    // memory runs out in the next call of this thread: in an allocation, or when its first thread-specific value is stored with the OS
    struct Fail {
        int kind = 0; u32 saved = 0; bool on = false;
        Fail(bool possible) { u32 k = possible ? draw(12) : 0; kind = k == 11 ? 1 : k == 10 ? 2 : 0; }
        explicit operator bool() const { return kind; }
        void begin(u32 n) { if (kind == 1) saved = alloc_fail_after(n); if (kind == 2) setspecific_fails(true); on = true; }
        bool end() { if (!on) return false; on = false; if (kind == 1) alloc_fail_after(saved); if (kind == 2) { bool f = setspecific_fails(false); if (f) label("pthread_setspecific failed"); return f; } return kind == 1; }   // whether an exception is in order
    };
    // ---- operations on the object in slot s
    struct Use { Obj& o; explicit Use(Obj& x) : o(x) { o.inuse++; hb_acquire(&o); } ~Use() { hb_release(&o.inuse); o.inuse--; } };
    Val* peek(Obj& o) {   // what the thread sees, checked against the model
        Th& t = me(); Val* p = SUT(o.p->get());
        auto c = t.cur.find(o.gen); Val* want = c == t.cur.end() ? nullptr : v[c->second].p;
        if (p != want && !(p == nullptr && t.phase == 2)) bad(P14, fmt("get() returned %s instead of %s (thread %d, object %d)", p ? (byp.count(p) ? fmt("value %d", byp[p]).c_str() : "a stale value") : "null", want ? fmt("value %d", c->second).c_str() : "null", self(), o.gen));
        if (c != t.cur.end()) { nontrivial_if(P14); }
        return p;
    }
    void get(Obj& o) {
        Use u(o); Val* p = peek(o);
        if ((SUT(!*o.p)) != !p || (SUT(*o.p ? true : false)) != (p != nullptr)) bad(P14, "operator! or operator bool disagrees with get()");
        if (p && (SUT(&**o.p) != p || SUT(o.p->operator->()) != p || SUT(get_pointer(*o.p)) != p)) bad(P14, "operator* or operator-> disagrees with get()");
    }
    void set(Obj& o, bool to_null, bool same) {
        Use u(o); Th& t = me(); Val* old = peek(o); int oldid = old && byp.count(old) ? byp[old] : -1;
        int gen = o.gen, tag = o.tag, nid = -1; Val* n = nullptr;
        if (same && old) n = old; else if (!to_null) { n = new Val; nid = (int)v.size(); v.push_back(VInfo{ n, gen, tag, self(), V_NEW }); byp[n] = nid; }
        if (tracing()) note(fmt("object %d reset(%s)", gen, n == old ? "same" : n ? fmt("value %d", nid).c_str() : "null"));
        Fail failing(warm && !old && n);
        if (n != old) {
            if (n) { v[nid].st = V_STORED; t.cur[gen] = nid; } else t.cur.erase(gen);
            if (oldid >= 0) t.resets.push_back(oldid);
        }
        if (failing) failing.begin(1 + draw(2));
        bool threw = false;
        try { if (!n && (gen & 1)) SUTV(o.p->reset()); else SUTV(o.p->reset(n)); } catch (const std::exception&) { threw = true; }
        const bool may = failing.end();
        if (threw) {
            if (!may) fail("reset threw for no reason");
            label("bad_alloc"); t.cur.erase(gen); v[nid].st = V_NEW; byp.erase(n); v[nid].p = nullptr; ::operator delete(n); return;
        }
        if (n != old && oldid >= 0) {
            for (size_t k = t.resets.size(); k-- > 0;) if (t.resets[k] == oldid) { t.resets.erase(t.resets.begin() + (long)k); break; }
            if (tag == 3) { v[oldid].st = V_FORGOTTEN; byp.erase(old); }
            else if (v[oldid].st != V_CLEANED) bad(P15 | P14, "reset replaced a value without cleaning it up");
        } else if (n == old && oldid >= 0 && v[oldid].st == V_CLEANED && !in_reset_of(t, gen)) bad(P15 | P14, "reset to the same value cleaned it up");
    }
    bool in_reset_of(Th&, int) { return true; }      // (a nested call may have replaced it meanwhile)
    void release(Obj& o) {
        Use u(o); Th& t = me(); Val* old = peek(o); int id = old && byp.count(old) ? byp[old] : -1;
        if (tracing()) note(fmt("object %d release()", o.gen));
        Val* r = SUT(o.p->release());
        if (r != old) bad(P14, "release() did not return the stored value");
        if (id >= 0) { v[id].st = V_RELEASED; t.cur.erase(o.gen); label("released"); }
        Val* now = SUT(o.p->get()); if (now) bad(P14, "release() left a value");
    }
    template<int K> static void custom(Val* p) { HarnessScope hs; W->on_cleanup(p, K); }
    void create(int s) {
        Obj& o = o_(s); if (o.p || creating[s]) return; creating[s] = true;
        u32 tag = draw(4); TSP* p = nullptr; Fail failing(warm); if (failing) failing.begin(1 + draw(2)); bool threw = false;
        try { SUTV(p = tag == 0 ? new TSP : tag == 1 ? new TSP(&World::custom<1>) : tag == 2 ? new TSP(&World::custom<2>) : new TSP((void (*)(Val*))0)); } catch (const std::exception&) { threw = true; }
        const bool may = failing.end(); if (threw) { if (!may) fail("a thread_specific_ptr could not be made for no reason"); label("bad_alloc"); }
        creating[s] = false; if (!p) return;
        o.p = p; o.gen = gens++; o.tag = (int)tag; o.inuse = 0; hb_release(&o);
        if (tracing()) note(fmt("object %d created (cleanup %u)", o.gen, tag));
    }
    bool creating[4] = { false, false, false, false };
    Obj& o_(int s) { return o[s]; }
    void destroy(int s) {
        Obj& o = o_(s); if (!o.p || o.inuse) return;
        Th& t = me(); TSP* p = o.p; int gen = o.gen, tag = o.tag; o.p = nullptr; o.gen = -1; hb_acquire(&o); hb_acquire(&o.inuse);
        if (tracing()) note(fmt("object %d destroyed", gen));
        t.destroys.push_back(gen);
        std::vector<int> held; for (size_t k = 0; k < v.size(); ++k) if (v[k].gen == gen && v[k].st == V_STORED) held.push_back((int)k);
        SUTV(delete p);
        for (size_t k = t.destroys.size(); k-- > 0;) if (t.destroys[k] == gen) { t.destroys.erase(t.destroys.begin() + (long)k); break; }
        for (int k : held) if (v[k].st == V_STORED) {
            if (tag == 3) { v[k].st = V_FORGOTTEN; byp.erase(v[k].p); th[v[k].thr].cur.erase(gen); continue; }
            Th& ow = th[v[k].thr]; if (ow.phase >= 1 && !finished(ow.fid)) { label("destroyed while the owner exits"); continue; }   // the exiting thread may be cleaning it up
            bad(P15, "a thread_specific_ptr was destroyed without cleaning up a value");
        }
    }
    struct Fn {
        int id; int magic;
        explicit Fn(int i) : id(i), magic(0x5a5a) { W->fn_live++; W->fn[i].live++; } Fn(const Fn& f) : id(f.id), magic(f.magic) { HarnessScope hs; W->fn_live++; W->fn[id].live++; }
        ~Fn() { HarnessScope hs; if (magic != 0x5a5a) W->bad(P16 | P19, "a function object was destroyed twice"); magic = 0; W->fn_live--; W->fn[id].live--; }
        void operator()() const { HarnessScope hs; if (magic != 0x5a5a) fail("an at_thread_exit function object was called after it was destroyed"); W->on_fn(id); }
    };
    void at_exit() {
        if (self() == 0) return;
        u32 many = draw(48) == 47 ? 5 + draw(40) : 1; for (u32 k = 0; k < many; ++k) at_exit1();
    }
    void at_exit1() {
        Th& t = me();
        int id = (int)fn.size(); fn.push_back(FnInfo{ self(), t.phase, false, 0 }); t.stack.push_back(id);
        if (tracing()) note(fmt("at_thread_exit(function %d)", id));
        Fail failing(warm); bool threw = false, may = false;
        { Fn f(id); if (failing) failing.begin(1 + draw(3)); try { SUTV(bs::at_thread_exit(f)); } catch (const std::exception&) { threw = true; if (fn[id].live != 1) bad(P16, "at_thread_exit failed and leaked its function object"); } may = failing.end(); }
        if (threw) { if (!may) fail("at_thread_exit threw for no reason"); label("bad_alloc"); fn[id].called = true; t.stack.pop_back(); }
    }
    void notify_reg() {
        Th& t = me(); auto it = slots.find(t.fid); if (it == slots.end()) return;
        int s = it->second + 4 * (int)draw(3); if (reg[s].thr >= 0) { for (int k = 0; k < 3 && reg[s].thr >= 0; ++k) s = (s + 4) % NP; if (reg[s].thr >= 0) return; label("several notifications registered"); }
        Pair& p = *pr[s];
        if (tracing()) note(fmt("notify_all_at_thread_exit(pair %d)", s));
        Fail failing(warm); bool threw = false;
        bs::unique_lock<bs::mutex> lk(p.m, bs::defer_lock); SUTV(lk.lock()); entered(s);
        reg[s].thr = self(); reg[s].active = true; for (size_t k = 0; k < wi.size(); ++k) if (wi[k].in && wi[k].pair == s) reg[s].must.push_back((int)k);
        if (!reg[s].must.empty()) nontrivial_if(P17);
        label(t.phase ? "notify registered during exit" : "notify registered");
        t.cell.write(2, "data written before notify_all_at_thread_exit");
        if (failing) { reg[s] = Reg(); failing.begin(1 + draw(2)); }
        try { SUTV(bs::notify_all_at_thread_exit(*p.c, boost::move(lk))); } catch (const std::exception&) { threw = true; }
        const bool may = failing.end();
        if (lk.owns_lock()) bad(P17, "notify_all_at_thread_exit left the lock owning");
        if (threw) { if (!may) fail("notify_all_at_thread_exit threw for no reason"); label("bad_alloc"); if (held_by_me(p.m)) bad(P17, "notify_all_at_thread_exit failed and left the mutex locked"); }
        else if (failing) { reg[s].thr = self(); reg[s].active = true; }
    }
    std::map<int, int> slots;
    // somebody locked the mutex of pair s
    void entered(int s) {
        Reg& r = reg[s]; if (!r.active) return;
        Th& t = th[r.thr];
        if (t.phase == 0) bad(P17, "the mutex given to notify_all_at_thread_exit was released before the thread exited");
        for (auto& f : fn) if (f.thr == r.thr && !f.called) bad(P17, "the mutex was released before all at_thread_exit functions of the thread were called");
        for (auto& x : v) if (x.thr == r.thr && x.st == V_STORED && x.tag != 3 && !dying(x.gen)) bad(P17, "the mutex was released before all thread-specific values of the thread were cleaned up");
        r.active = false; t.cell.read("data of the exited thread, read by a notified thread"); label("mutex handed over at exit");
    }
    bool dying(int gen) { for (auto& t : th) for (int g : t.second.destroys) if (g == gen) return true; return false; }
    void waiter(const std::vector<int>& prog) {
        for (int s : prog) {
            Pair& p = *pr[s]; bs::unique_lock<bs::mutex> lk(p.m, bs::defer_lock); SUTV(lk.lock()); entered(s);
            int id = (int)wi.size(); wi.push_back(WInst{ s, true, false });
            if (tracing()) note(fmt("wait on pair %d", s));
            SUTV(p.c->wait(lk)); wi[id].in = false; wi[id].ret = true; entered(s);
            if (tracing()) note(fmt("woken on pair %d", s));
            SUTV(lk.unlock());
        }
    }
    // ---- one random operation of the current thread
    void op(bool in_callback) {
        Th& t = me(); t.used = true;
        static const u32 w14[] = { 6, 9, 4, 2, 3, 3, 2, 0 }, w15[] = { 2, 9, 2, 3, 3, 4, 2, 0 }, w16[] = { 1, 3, 1, 1, 1, 1, 9, 0 }, w17[] = { 0, 3, 0, 0, 1, 1, 3, 4 }, w19[] = { 3, 6, 2, 4, 4, 3, 3, 1 };
        const u32* w = focus & P14 ? w14 : focus & P15 ? w15 : focus & P16 ? w16 : focus & P17 ? w17 : w19;
        u32 k = draw_w(w, 8); int s = (int)draw(4); Obj& o = o_(s); (void)in_callback;
        switch (k) {
        case 0: if (o.p) get(o); break;
        case 1: if (o.p) set(o, false, false); else create(s); break;
        case 2: if (o.p) { u32 q = draw(3); set(o, q == 0, q == 1); } break;
        case 3: destroy(s); break;
        case 4: create(s); break;
        case 5: if (o.p) release(o); break;
        case 6: at_exit(); break;
        default: notify_reg(); break;
        }
    }
};
Val::~Val() { HarnessScope hs; W->on_cleanup(this, 0); }

void settle(World& w, bool all) {
    // threads that finished: everything they stored must be cleaned up, every function called
    for (int f = 1; f < nfibers(); ++f) {
        auto it = w.th.find(f); if (it == w.th.end()) continue; Th& t = it->second;
        if (!finished(f)) continue;
        for (auto& x : w.fn) if (x.thr == f && !x.called) w.bad(P16, x.phase ? "a function registered during thread exit was never called" : "an at_thread_exit function was never called");
        for (auto& x : w.v) if (x.thr == f && x.st == V_STORED) { if (x.tag == 3) { x.st = V_FORGOTTEN; w.byp.erase(x.p); } else w.bad(P15, t.phase ? "a thread exited without cleaning up a value it stored" : "?"); }
        t.cur.clear();
    }
    for (int s = 0; s < World::NP; ++s) if (w.reg[s].thr >= 0 && finished(w.reg[s].thr)) {
        for (int k : w.reg[s].must) if (!w.wi[k].ret) w.bad(P17, "a thread that was waiting was not notified when the registered thread exited");
        if (w.reg[s].active && w.pr[s]) { if (is_locked(w.pr[s]->m)) w.bad(P17, "the mutex given to notify_all_at_thread_exit is still locked after the thread exited"); SUTV(w.pr[s]->m.lock()); w.entered(s); SUTV(w.pr[s]->m.unlock()); }
    }
    (void)all;
}
void body(u32 focus) {
    draw_faults(); cfg.race_check = focus & P19; cfg.eintr_pct = focus & P17 ? cfg.eintr_pct : 0;
    World w; W = &w; w.focus = focus; w.deep = draw(3) == 2; w.budget = (int)draw(w.deep ? 16 : 7);
    const bool warm = draw(2); w.warm = warm; size_t base = 0;
    // other objects of the program, so that keys are not always small or fresh
    std::vector<TSP*> pad; { u32 np = draw(32) != 31 ? 0 : draw(12) == 11 ? 250 + draw(20) : draw(2) ? 60 + draw(10) : 1 + draw(40); for (u32 k = 0; k < np; ++k) { TSP* q = nullptr; SUTV(q = new TSP); pad.push_back(q); } if (np) label("many objects"); u32 gone = np ? draw(4) : 0; for (u32 k = 0; k < gone && !pad.empty(); ++k) { u32 i = draw((u32)pad.size()); TSP* q = pad[i]; pad.erase(pad.begin() + i); SUTV(delete q); } }
    if (warm) {   // bring the library's tables to the size this case needs, to see leaks
        SUTV({ std::vector<TSP*> x; for (int k = 0; k < 12; ++k) x.push_back(new TSP); for (TSP* p : x) p->reset(0); for (TSP* p : x) delete p; });
        base = live_allocs();
    }
    for (int k = 0; k < World::NP; ++k) { SUTV(w.pr[k] = new Pair); }
    const bool one_cv = focus & P17 && draw(6) == 5; if (one_cv) { for (int k = 4; k < World::NP; ++k) w.pr[k]->c = &w.pr[k & 3]->own; label("one condition variable, several mutexes"); }   // those waiting all use the first mutex
    u32 ns = draw(4); for (u32 k = 0; k < ns; ++k) w.create((int)k);
    int waves = 1 + (int)draw(2); bool all = true;
    for (int wave = 0; wave < waves; ++wave) {
        u32 nt = focus & (P16 | P17) ? 1 + draw(2) : 1 + draw(3);
        for (u32 i = 0; i < nt; ++i) {
            u32 n = 1 + draw(focus & P17 ? 5 : 6);
            for (int k = 0; k < 4; ++k) hb_release(&w.o[k]);
            int chain = draw(20) == 19 ? 1 + (int)draw(40) : 0;
            int fid = spawn(fmt("T%d.%u", wave, i).c_str(), [&w, n, chain] { w.me().chain = chain; for (u32 k = 0; k < n; ++k) w.op(false); Th& t = w.me(); t.phase = 1; });
            w.slots[fid] = (int)(wave * 2 + i) & 3; if (wave * 2 + i >= 4) w.slots.erase(fid);
        }
        if (focus & P17) { u32 nw = 1 + draw(2); for (u32 i = 0; i < nw; ++i) { std::vector<int> p; u32 n = 1 + draw(2); for (u32 k = 0; k < n; ++k) { int q = (int)draw(4) % (int)(wave * 2 + nt) & 3; q += 4 * (int)draw(3); if (one_cv) q &= 3; p.push_back(q); } spawn(fmt("W%d.%u", wave, i).c_str(), [&w, p] { w.waiter(p); }); } }
        all = run_all();
        for (int f = 1; f < nfibers(); ++f) if (!finished(f)) { bool waiting = false; if (!strcmp(block_kind(f), "cond")) waiting = true; if (!waiting || w.th.count(f)) fail(fmt("a thread is stuck in thread-specific storage calls (blocked in %s)", block_kind(f))); }
        settle(w, all);
    }
    for (int r = 0; r < 12 && !all; ++r) { for (int k = 0; k < World::NP; ++k) SUTV(w.pr[k]->c->notify_all()); all = run_all(); }
    if (!all) fail("a waiting thread was never woken");
    settle(w, all);
    w.budget = 0;
    for (int k = 0; k < 4; ++k) { w.o[k].inuse = 0; w.destroy(k); }
    for (auto& x : w.v) if (x.st == V_STORED) w.bad(P15, "a value was never cleaned up");
    for (int k = World::NP; k-- > 0; ) SUTV(delete w.pr[k]);
    for (TSP* q : pad) SUTV(delete q);
    if (w.fn_live) w.bad(P16 | P19, "function objects given to at_thread_exit were leaked");
    if (focus & P19) {
        bool multi = false; int users = 0; for (auto& t : w.th) if (t.second.used) users++; multi = users > 1; if (multi) nontrivial();
        if (warm && live_allocs() > base) fail(fmt("%zu allocations of the library are left after all threads exited and all objects were destroyed", live_allocs() - base));
    }
    for (auto& x : w.v) if (x.p && x.st == V_RELEASED) {}
}
void c14() { body(P14); } void c15() { body(P15); } void c16() { body(P16); } void c17() { body(P17); } void c19() { body(P19); }
}
int main(int c, char** v) {
    static const Prop p[] = {
        { "C14", "a stored value was read back", c14 },
        { "C15", "a cleanup ran", c15 },
        { "C16", "an at_thread_exit function ran", c16 },
        { "C17", "a thread was waiting when notify_all_at_thread_exit was called", c17 },
        { "C19", "several threads used thread-specific storage, or a value was cleaned up by thread exit or destruction", c19 },
    };
    return driver_main(c, v, p, 5);
}
