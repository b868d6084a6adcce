// Condition variables behind one interface (C06, C07), so that each lock type is compiled once.
#ifndef P_CV_HPP
#define P_CV_HPP
#include "common.hpp"

struct CallWait { u32 cv; bool timed; bool pred; Tmo t; };
// result of one waiting call
struct WaitOut { bool ok; TmoRun tr; };
struct LockErr { int what; };                 // thrown by the generated lock type
// the lock a waiter hands to the waiting call
struct Handle { virtual ~Handle() {} static void operator delete(void* p, size_t n) { forget(p, n); ::operator delete(p); } virtual void wait(const CallWait&, WaitOut&, const std::function<bool()>& pred) = 0; virtual bool owns() = 0; virtual void unlock() = 0; };
struct Env {
    virtual ~Env() {}
    virtual const char* name() = 0;
    virtual bool shared() { return false; }   // waiters share the lock
    virtual bool rec() { return false; }      // generated lock type with counters and failures
    virtual Handle* acquire() = 0;            // lock for a waiter
    virtual void lock_n() = 0;                // exclusive lock for a notifier
    virtual void unlock_n() = 0;
    virtual void notify(u32 cv, bool all) = 0;
};
// counters and failures of the generated lock type
struct RecStat { int owner = -1; u32 unlocks = 0, locks = 0; int fail_unlock = 0, fail_lock = 0; bool threw_lock = false, threw_unlock = false; };
extern RecStat recstat[40];                   // per waiter fiber slot
Env* make_env(u32 k);                         // dispatches to make_env_<k>
#endif
