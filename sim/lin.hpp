// Linearizability search (Wing & Gong style, memoised) over "steps".
// An operation is one or more steps; each step must take effect atomically inside [lo, hi] (global stamps),
// steps of one operation take effect in order. Optional steps (of operations that never returned) may be left out.
#ifndef VERIF_LIN_HPP
#define VERIF_LIN_HPP
#include "engine.hpp"
#include <unordered_set>
#include <string>
#include <vector>
namespace lin {
using sim::u64; using sim::i64; using sim::u32;
static const u64 INF = ~0ull;
struct Step { int op; int kind; i64 arg; u64 lo, hi; bool optional; int fid; };

// Spec: struct { typedef ... State (convertible with enc()); bool apply(State&, const Step&) ; u64 enc(const State&); bool final(const State&) }
template<class Spec> struct Search {
    const std::vector<Step>& st; const Spec& sp; std::unordered_set<std::string> seen; u64 nodes = 0; u64 mandatory = 0; bool exhausted = false;
    std::vector<u64> pred; // bitmask of steps that must precede (order of real time among mandatory; same-op order)
    std::vector<u64> later; // later steps of the same operation: once one is done, this (optional) step cannot happen any more
    u64 mandatory_all() const { u64 m = 0; for (size_t i = 0; i < st.size(); ++i) if (!st[i].optional) m |= 1ull << i; return m; }
    Search(const std::vector<Step>& s, const Spec& p) : st(s), sp(p) {
        for (size_t i = 0; i < st.size(); ++i) {
            if (!st[i].optional) mandatory |= 1ull << i;
            u64 m = 0;
            for (size_t j = 0; j < st.size(); ++j) if (j != i) {
                if (st[j].hi < st[i].lo) m |= 1ull << j;
                if (st[j].op == st[i].op && j < i && !st[j].optional) m |= 1ull << j;
            }
            pred.push_back(m & mandatory_all());
            u64 l = 0; for (size_t j = i + 1; j < st.size(); ++j) if (st[j].op == st[i].op) l |= 1ull << j;
            later.push_back(l);
        }
    }
    // an optional step must still happen before its hi: not after a step that could only start later
    bool expired(size_t i, u64 done) const { for (size_t j = 0; j < st.size(); ++j) if ((done >> j & 1) && st[j].lo > st[i].hi) return true; return false; }
    bool go(u64 done, const typename Spec::State& s) {
        if ((done & mandatory) == mandatory && sp.final_ok(s)) return true;
        if (++nodes > 400000) { exhausted = true; return true; }   // give up silently (counted): never an alarm
        std::string key((const char*)&done, 8); key += sp.enc(s);
        if (!seen.insert(key).second) return false;
        for (size_t i = 0; i < st.size(); ++i) {
            if (done >> i & 1) continue;
            if ((pred[i] & ~done) || (later[i] & done)) continue;
            if (st[i].optional && expired(i, done)) continue;
            typename Spec::State t = s;
            if (!sp.apply(t, st[i])) continue;
            if (go(done | 1ull << i, t)) return true;
        }
        return false;
    }
};
template<class Spec> bool linearizable(const std::vector<Step>& st, const Spec& sp) {
    if (st.size() > 62) { sim::label("lin:too-long"); return true; }
    Search<Spec> s(st, sp);
    bool r = s.go(0, sp.init());
    if (s.exhausted) sim::label("lin:gave-up");
    return r;
}
}
#endif
