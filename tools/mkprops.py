#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
I = "include/boost/sync/"
D = I + "detail/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": mech,
                          "observe_at": observe or [], "hook_needed": hook}})
def m(name, where): return {"name": name, "where": where}
def st(name, meaning, where): return {"name": name, "meaning": meaning, "where": where}

prop("C01", "Exclusive mutexes give mutual exclusion and never get stuck",
 "For mutex, timed_mutex and spin_mutex, at most one thread at a time is between a successful lock/try_lock/timed lock and its unlock, and everything done before an unlock is visible to the next owner. try_lock and timed locks never report success while another thread owns the mutex, and never report failure unless another thread owned it at some moment during the call (for a timed lock: until its deadline). Once every owner has unlocked, every thread blocked in lock gets the mutex; no unlock is lost.",
 ["schedules", "programs", "configurations", "fault_sequences"],
 "every number of threads, every program of lock/try_lock/timed lock/unlock calls, every interleaving down to single atomic operations, with injected signals and weak-CAS failures; native and emulated (cond-based) timed_mutex, spin and pthread backends",
 "the mutex tests run one fixed two-thread program per type under whatever interleaving the OS gives, and never look at memory ordering",
 [D+"mutexes/mutex_posix.hpp", D+"mutexes/timed_mutex_posix.hpp", D+"mutexes/spin_mutex.hpp", D+"pthread.hpp", D+"pthread_mutex_locks.hpp"],
 [m("pthread mutex wrappers", D+"mutexes/mutex_posix.hpp"), m("test_and_set(acquire)/clear(release)", D+"mutexes/spin_mutex.hpp"), m("m_is_locked + cond emulation", D+"mutexes/timed_mutex_posix.hpp")],
 [st("state", "spin flag", D+"mutexes/spin_mutex.hpp"), st("m_is_locked", "emulated ownership", D+"mutexes/timed_mutex_posix.hpp")],
 ["lock/try_lock/timed_lock/try_lock_for/try_lock_until return values", "a race-detected datum written inside the critical section"])

prop("C02", "Shared spin mutex: one writer or many readers, accurately reported",
 "A shared_spin_mutex is never held exclusively while it is held in any other way, any number of readers may hold it at once, and everything a holder did before releasing is visible to the next conflicting holder. try_lock_shared fails only if the mutex was held exclusively at some moment of the call, try_lock fails only if it was held in some way, and neither succeeds in conflict with a holder. Once conflicting holders have released, blocked lock and lock_shared calls complete.",
 ["schedules", "programs"],
 "every program of exclusive/shared lock, try and unlock calls by every number of threads, under every interleaving of their atomic operations and weak-CAS failure pattern",
 "the only test checks single-threaded transitions; reader/reader and reader/writer races and visibility are never exercised",
 [D+"mutexes/shared_spin_mutex.hpp", I+"mutexes/shared_spin_mutex.hpp"],
 [m("compare_exchange on the reader count / locked bit", D+"mutexes/shared_spin_mutex.hpp")],
 [st("state", "0 unlocked, 0x80000000 writer, else reader count", D+"mutexes/shared_spin_mutex.hpp")],
 ["lock/try/unlock return values", "race-detected data read by readers and written by writers"])

prop("C03", "Semaphore conserves permits and loses no wakeups",
 "At every moment the number of completed waits on a semaphore is at most its initial value plus the number of posts begun, and the history of post/wait/try_wait/timed waits is linearizable to a counter: a wait succeeds by taking one permit, and try_wait (or an expired timed wait) fails only if the counter was zero at some moment of the call. No thread stays blocked in wait while a permit is available.",
 ["schedules", "programs", "configurations", "fault_sequences"],
 "every initial value, every program of post/wait/try_wait/timed_wait/wait_for/wait_until calls by several threads, every interleaving, spurious wakeup and EINTR, for the native (POSIX) and the emulated semaphore",
 "tests post and wait in one or two threads with one timing; they do not explore interleavings, interruption, timeouts racing posts, or the emulated backend",
 [D+"semaphore/semaphore_posix.hpp", D+"semaphore/semaphore_emulation.hpp", I+"semaphore.hpp"],
 [m("sem_* with EINTR retry", D+"semaphore/semaphore_posix.hpp"), m("mutex+cond+counter", D+"semaphore/semaphore_emulation.hpp")],
 [st("m_sem / m_count", "available permits", D+"semaphore/")],
 ["return values of waits", "set of threads still blocked at quiescence"])

prop("C04", "Auto-reset event: each post releases exactly one waiter or leaves one signal",
 "A post releases one thread waiting on the auto_reset_event if there is one not already released (a thread counts as waiting from some moment after it enters the call), otherwise it leaves the event signalled until exactly one wait completes; posting an already signalled event changes nothing, so at most one signal is ever stored beyond those owed to threads already waiting (fewer than 1024 posts being outstanding at once). A wait, try_wait or timed wait that returns success consumed exactly one such signal, and try_wait or a timed-out wait reports failure only if no signal was available to it at some moment of the call (a signal that a concurrent wait has taken is not). No thread stays blocked while the event is signalled, and no signal is lost when a wait times out.",
 ["schedules", "programs", "configurations", "fault_sequences"],
 "every program of post/wait/try_wait/timed waits by several threads, every interleaving of atomic operations and futex/semaphore/condition calls, EINTR, spurious wakeups and timeouts; futex, semaphore-based and emulated implementations",
 "tests cover a post before or after a wait with one waiter; races between several posts, waiters, timeouts and try_wait are not explored",
 [D+"events/auto_reset_event_futex.hpp", D+"events/auto_reset_event_semaphore.hpp", D+"events/auto_reset_event_emulation.hpp", D+"futex.hpp"],
 [m("packed waiter/post counters with CAS and futex", D+"events/auto_reset_event_futex.hpp"), m("counter + semaphore", D+"events/auto_reset_event_semaphore.hpp"), m("mutex + cond + flag", D+"events/auto_reset_event_emulation.hpp")],
 [st("m_state", "22 bits of waiters, 10 bits of pending posts", D+"events/auto_reset_event_futex.hpp")],
 ["return values of waits", "signal left after all threads finish", "threads still blocked at quiescence"])

prop("C05", "Manual-reset event is a level-triggered flag that wakes all waiters",
 "The history of set/reset/wait/try_wait/timed waits of a manual_reset_event is linearizable to a boolean flag: waits succeed only at a moment the flag was set, try_wait and timed-out waits fail only if it was clear at some moment of the call, and no wait consumes the signal. When the flag is set and is not reset, every blocked thread returns and every later wait returns at once.",
 ["schedules", "programs", "configurations", "fault_sequences"],
 "every program of set/reset/wait/try_wait/timed waits by several threads, every interleaving, spurious wakeup, EINTR and timeout; futex and emulated implementations",
 "tests set the event once for two waiters; set/reset races and waiters racing with set are left to chance",
 [D+"events/manual_reset_event_futex.hpp", D+"events/manual_reset_event_emulation.hpp", D+"futex.hpp"],
 [m("post bit + waiter count + futex broadcast", D+"events/manual_reset_event_futex.hpp"), m("mutex + cond + flag", D+"events/manual_reset_event_emulation.hpp")],
 [st("m_state", "bit 0 signalled, rest waiter count", D+"events/manual_reset_event_futex.hpp")],
 ["return values of waits", "threads still blocked at quiescence"])

prop("C06", "condition_variable releases the mutex atomically and loses no notification",
 "For every waiting call of condition_variable (wait, timed_wait, wait_for, wait_until, with and without predicate), releasing the mutex and starting to wait are one atomic step, so a notify made after the caller released the mutex can always wake it: notify_one wakes at least one and notify_all wakes all threads waiting at that point. Every return, including by exception or timeout, leaves the caller owning the mutex; a predicate is only evaluated with the mutex held, a predicate wait re-evaluates it after every wakeup and after a timeout, and returns normally only the value it has at that moment (true for untimed waits), a timeout is reported only after the deadline, and a timed wait ends at its one overall deadline however often it is woken.",
 ["schedules", "programs", "fault_sequences", "inputs"],
 "every program of waiters and notifiers over one or several condition variables with mutex or timed_mutex, every time type, interleaving, spurious wakeup, injected OS error and timeout, including predicates that throw",
 "tests check one waiter and one notifier with a fixed schedule",
 [D+"condition_variables/condition_variable_posix.hpp", D+"pthread.hpp", I+"traits/is_condition_variable_compatible.hpp"],
 [m("pthread_cond_wait/timedwait on the mutex' native handle", D+"condition_variables/condition_variable_posix.hpp"), m("predicate loops re-checking after timeout", D+"condition_variables/condition_variable_posix.hpp")],
 None, ["ownership of the mutex after every call", "return values", "threads still blocked after a notify"])

prop("C07", "condition_variable_any gives the same guarantees for any lock type",
 "condition_variable_any gives the guarantees of condition_variable for every lock type with lock and unlock (spin, shared, user-defined, unique_lock of any mutex): the caller's lock is released exactly once and re-acquired exactly once per wait, it is held whenever a predicate runs (after every wakeup and timeout) and on every return including by exception, and a notification issued after the release is never lost. A call never deadlocks through its internal locking, and relative predicate waits honour one overall deadline.",
 ["schedules", "programs", "fault_sequences", "inputs"],
 "every program of waiters and notifiers using generated lock types (including ones whose lock/unlock throw), every waiting overload and time type, interleaving, spurious wakeup and OS error",
 "tests use one lock type, one notifier, no faults",
 [D+"condition_variables/condition_variable_any_generic.hpp"],
 [m("internal mutex held across the user's unlock; relocker", D+"condition_variables/condition_variable_any_generic.hpp")],
 None, ["lock/unlock calls on the user's lock", "return values", "threads still blocked after a notify"])

prop("C08", "Timed operations never report a timeout before the deadline",
 "No timed operation (mutex lock, semaphore wait, event wait, condition wait; relative or absolute, any supported time type or clock) reports a timeout while the clock the deadline was given in still shows a time before the deadline. For a relative timeout the deadline is the time of the call plus the duration, rounded by no more than the resolution of the type given. This holds also when clocks are set while threads wait: an absolute deadline is judged by its own clock (setting the system clock forward does not end a wait for a steady clock's deadline; setting it back delays a wait for a system clock's one); relative times are measured with the system clock.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "every duration and time point (sub-nanosecond boundaries, second rollover, coarse and fine units, floating-point and user-defined clocks), every interleaving, early kernel wakeup, EINTR, clock drift between clocks and clocks set meanwhile, in every backend",
 "tests measure a handful of round timeouts against the real clock with wide tolerance",
 [D+"time_units.hpp", I+"support/std_chrono.hpp", I+"support/boost_chrono.hpp", I+"support/posix_time.hpp", D+"mutexes/timed_mutex_posix.hpp", D+"semaphore/semaphore_posix.hpp", D+"events/auto_reset_event_futex.hpp", D+"events/manual_reset_event_futex.hpp", D+"condition_variables/condition_variable_posix.hpp"],
 [m("absolute system_time_point deadlines", D+"time_units.hpp"), m("re-check loop for foreign clocks", "priv_timed_wait(chrono_time_point)")],
 None, ["virtual clock at the return of every timed-out call"])

prop("C09", "Timed operations end at their deadline whatever interrupts them",
 "A timed operation whose condition does not become true returns as soon as its deadline passes, however often it is interrupted by signals, woken spuriously, or woken by notifications that other threads consumed; interruptions never restart the full timeout. A zero, negative or already expired timeout never blocks, and a timed operation whose condition is already true succeeds even if the deadline has passed (for mutexes, semaphores and events).",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "every timeout value including zero, negative, past and very distant ones, every time type and overload, every sequence of EINTR, spurious wakeups, notifications and event pulses, in every backend",
 "no test injects interruptions or spurious wakeups; negative and past timeouts are only partly tried",
 [D+"time_units.hpp", D+"events/auto_reset_event_futex.hpp", D+"events/manual_reset_event_futex.hpp", D+"semaphore/semaphore_emulation.hpp", D+"semaphore/semaphore_posix.hpp", D+"condition_variables/condition_variable_posix.hpp", D+"condition_variables/condition_variable_any_generic.hpp", D+"mutexes/timed_mutex_posix.hpp"],
 [m("deadline computed once, remaining time recomputed", "priv_timed_wait / priv_timed_lock"), m("EINTR retry loops", D+"semaphore/semaphore_posix.hpp")],
 None, ["virtual time spent blocked beyond the deadline"])

prop("C10", "All time types denote the same instant",
 "A timeout given as a std::chrono, boost::chrono, Boost.DateTime or timespec value makes every timed operation behave exactly as the same instant or duration given in any other supported type: conversion is exact to the type's own resolution (never off by more than one nanosecond), keeps sign and order, and handles second rollover, negative durations, pre-epoch and distant times without overflow or garbage: durations, calendar times and timespecs that do not fit in 64 bits of nanoseconds act as the far future or the long past. Durations of every ratio and representation convert consistently.",
 ["inputs", "configurations"],
 "every value of every supported duration/time-point type (for time points of clocks other than the system's: in the clock's own unit, any value; in coarser ones, within 64 bits of nanoseconds), every ratio, integer and floating-point representation, and every sum/difference of them",
 "tests use a few small round positive values",
 [D+"time_units.hpp", D+"time_traits.hpp", I+"support/std_chrono.hpp", I+"support/boost_chrono.hpp", I+"support/posix_time.hpp", I+"support/boost_date_time.hpp"],
 [m("to_sync_unit conversions", I+"support/"), m("carry/borrow arithmetic", D+"time_units.hpp")],
 [st("m_value", "normalised timespec", D+"time_units.hpp")],
 ["timespec handed to the OS", "arithmetic on the converted values"])

prop("C11", "Semaphores and events publish data to the threads they release",
 "Everything a thread did before a semaphore post, an auto_reset_event post or a manual_reset_event set is visible to a thread after its wait, try_wait or timed wait consumes or observes that signal, including when the post found the event already signalled. This must hold by the C++ memory model on any hardware, not just because of stronger hardware ordering.",
 ["schedules", "programs", "configurations"],
 "every pattern of posting and waiting threads passing data, every interleaving, path (fast, slow, timed, failed-then-retried) and backend",
 "tests run on x86 where missing ordering does not show, and pass no data",
 [D+"events/auto_reset_event_futex.hpp", D+"events/auto_reset_event_semaphore.hpp", D+"events/manual_reset_event_futex.hpp", D+"semaphore/semaphore_posix.hpp", D+"semaphore/semaphore_emulation.hpp"],
 [m("release on post/set, acquire on successful wait", D+"events/")],
 None, ["happens-before (vector clocks) between data written before post and read after wait"])

prop("C12", "Lock objects track ownership exactly and report misuse",
 "unique_lock, shared_lock, upgrade_lock, lock_guard, shared_lock_guard and unlock_guard call the mutex exactly as their ownership demands: owns_lock and mutex always tell the truth, each acquired lock is released exactly once (by unlock, release, destruction, move or swap), and nothing is released that was not acquired, also when the mutex throws. Locking with no mutex, locking when already owned and unlocking when not owned raise lock_error with operation_not_permitted, resource_deadlock_would_occur and operation_not_permitted respectively, and change nothing.",
 ["inputs", "histories", "fault_sequences"],
 "every sequence of construction (all tags and timed forms), lock/try/timed/unlock/release/move/swap/destroy operations over several lock objects and mutexes, with mutexes that refuse or throw at any call",
 "tests check each operation once on a fresh object",
 [I+"locks/unique_lock.hpp", I+"locks/shared_lock.hpp", I+"locks/upgrade_lock.hpp", I+"locks/lock_guard.hpp", I+"locks/shared_lock_guard.hpp", I+"locks/unlock_guard.hpp", I+"exceptions/lock_error.hpp"],
 [m("m_mutex/m_is_locked pair", I+"locks/unique_lock.hpp"), m("throwing misuse checks", I+"locks/")],
 [st("m_is_locked", "ownership flag", I+"locks/")],
 ["calls received by a recording mutex", "owns_lock/mutex/operator bool", "exception type and code"])

prop("C13", "Lock conversions transfer ownership without a gap",
 "Converting between unique, shared and upgrade locks (by construction or try-conversion, timed or not) performs exactly the corresponding mutex transition, never releasing and re-acquiring; on success the source no longer owns and the destination owns in the new mode, and on failure or exception the source is unchanged and the destination owns nothing and refers to no mutex. A lock that does not own converts to a lock of the same mutex that does not own, without touching the mutex.",
 ["inputs", "histories", "fault_sequences"],
 "every pair of lock types with a conversion, every ownership state of the source, every outcome (success, refusal, exception) of the mutex operation, in any sequence with other lock operations",
 "tests convert fresh locks once with a mutex that always succeeds",
 [I+"locks/unique_lock.hpp", I+"locks/shared_lock.hpp", I+"locks/upgrade_lock.hpp"],
 [m("converting constructors and try_to_lock conversions", I+"locks/")],
 None, ["calls received by a recording upgrade mutex", "owns_lock/mutex of source and destination"])

prop("C14", "thread_specific_ptr gives every thread its own value per object",
 "For every thread, get on a thread_specific_ptr returns the value that thread last stored in that object with reset (or null if it never did, or released it, or the object is new), whatever other threads and other thread_specific_ptr objects do, including objects created after others were destroyed. (While the thread's values are being cleaned up at its exit, get may return null.) release and reset return or dispose of exactly that value and nothing else.",
 ["histories", "schedules", "programs", "configurations"],
 "every history of creating, destroying, setting, releasing, resetting and reading any number of thread-specific pointers in any number of threads, also inside cleanup functions, with default, custom and null cleanup; pthread-key and compiler-TLS builds",
 "tests use one or two pointers that live for the whole program",
 [I+"thread_specific/thread_specific_ptr.hpp", "src/tss_manager.hpp", "src/tss_pthread.cpp", D+"tss.hpp"],
 [m("per-thread value vector indexed by recycled keys", "src/tss_manager.hpp")],
 [st("m_freed_keys", "keys for reuse", "src/tss_manager.hpp"), st("m_storage", "values of one thread", "src/tss_manager.hpp")],
 ["get() in every thread"])

prop("C15", "Every thread-specific value is cleaned up exactly once",
 "Each non-null value stored in a thread_specific_ptr is passed to that object's cleanup exactly once, when it is replaced by reset with a different value, when its thread exits, or when the object is destroyed, whichever comes first, and is never passed to another object's cleanup; released values are never cleaned up. No cleanup runs for null, values stored during thread exit by cleanup code are cleaned up too, and a null cleanup function disables cleanup without losing track of others.",
 ["histories", "schedules", "programs", "configurations"],
 "every history of stores, releases, thread exits and object destruction in any order and in any thread, including stores made inside cleanup functions and objects destroyed while other threads hold values; pthread-key and compiler-TLS builds",
 "tests exercise a thread exiting with one value set",
 ["src/tss_manager.hpp", "src/tss_pthread.cpp", I+"thread_specific/thread_specific_ptr.hpp"],
 [m("destroy_thread_context loops until storage is empty", "src/tss_manager.hpp"), m("delete_key collects values of all threads", "src/tss_manager.hpp")],
 [st("m_storage_cleanup", "cleanup function per key", "src/tss_manager.hpp")],
 ["cleanup calls with their argument and object"])

prop("C16", "at_thread_exit functions run once, in reverse order, in the exiting thread",
 "Every function registered with at_thread_exit is called exactly once, by the thread that registered it, when that thread exits, in the reverse order of registration, and before that thread's thread-specific values are cleaned up. Functions registered by such functions, or by thread-specific cleanups, during thread exit are called too, at a later point of the same thread exit. The registered function object is destroyed after its call and nothing is leaked.",
 ["histories", "schedules", "programs", "configurations"],
 "every number of registrations, nested registrations to any depth, use of thread-specific pointers inside the functions, several threads; pthread-key and compiler-TLS builds",
 "tests register one or a few functions and check that they ran",
 [I+"thread_specific/at_thread_exit.hpp", "src/tss_manager.hpp", "src/tss_pthread.cpp"],
 [m("m_at_exit_functions drained in reverse until empty", "src/tss_manager.hpp")],
 [st("m_at_exit_functions", "registered functions", "src/tss_manager.hpp")],
 ["order and thread of calls", "copies of the function object left alive"])

prop("C17", "notify_all_at_thread_exit wakes waiters after the thread's cleanup is done",
 "After notify_all_at_thread_exit the given mutex stays locked until the calling thread exits; once all its at_thread_exit functions and thread-specific cleanups have run, the mutex is unlocked and all threads waiting on the condition variable are notified, for every registration. If the call fails with an exception, the mutex is unlocked and nothing is registered. A waiter that re-acquires the mutex therefore observes everything the exiting thread and its cleanups did, and never misses the notification.",
 ["histories", "schedules", "programs", "configurations"],
 "every combination of registrations, at-exit functions, thread-specific values (also ones stored during exit), number of waiters and exit order; pthread-key and compiler-TLS builds",
 "the test uses one waiter, one registration and no thread-specific state",
 [I+"condition_variables/notify_all_at_thread_exit.hpp", "src/tss_manager.hpp", "src/tss_pthread.cpp"],
 [m("m_notify_at_exit processed last", "src/tss_manager.hpp")],
 [st("m_notify_at_exit", "pending notifications", "src/tss_manager.hpp")],
 ["when the mutex becomes free relative to cleanups", "waiters still blocked after exit"])

prop("C18", "OS failures surface as the documented exception and change nothing",
 "When an operating system primitive fails, the operation throws the documented exception (lock_error from locking, wait_error from waiting on a condition, resource_error from construction, overflow_error from posting beyond the semaphore's greatest count) carrying the OS error code, never reports success, and leaves ownership, counters and events as they were, nothing leaked; interruption by a signal alone is never reported as an error, a failure or a success. Exception objects derive from the documented bases, keep their message and code, and the API can be built with either system_error flavour.",
 ["fault_sequences", "inputs", "configurations"],
 "every primitive operation and every error code and interruption pattern injected at every OS call; boost and std system_error builds, builds with and without the pthread EINTR workaround",
 "tests never make an OS call fail",
 [D+"mutexes/mutex_posix.hpp", D+"mutexes/timed_mutex_posix.hpp", D+"semaphore/semaphore_posix.hpp", D+"condition_variables/condition_variable_posix.hpp", D+"pthread.hpp", I+"exceptions/lock_error.hpp", I+"exceptions/wait_error.hpp", I+"exceptions/resource_error.hpp", I+"exceptions/overflow_error.hpp", I+"exceptions/runtime_exception.hpp", D+"throw_exception.hpp", D+"system_error.hpp"],
 [m("status checks and BOOST_SYNC_DETAIL_THROW", D), m("EINTR retry", D+"pthread.hpp")],
 None, ["exception type and code()", "state of the object afterwards"])

prop("C19", "Thread-specific storage is safe under concurrent use",
 "Creating and destroying thread_specific_ptr objects, storing and reading values, registering exit functions and thread exit may happen in any number of threads at once (a given object is destroyed only when no thread is inside a call on it) without data races, memory corruption, leaks or deadlock. Cleanup functions may themselves use any of these facilities without deadlock.",
 ["schedules", "histories", "programs", "configurations"],
 "every interleaving of key creation/destruction, set/get, at_thread_exit registration and thread exit in several threads, including from within cleanup functions; pthread-key and compiler-TLS builds",
 "tests never destroy a thread_specific_ptr or create one while other threads use theirs, and run without a race detector",
 ["src/tss_manager.hpp", "src/tss_pthread.cpp"],
 [m("manager mutex guarding contexts, storage and cleanup table", "src/tss_manager.hpp")],
 [st("m_mutex", "guards shared manager state", "src/tss_manager.hpp")],
 ["happens-before on every memory access of the manager", "allocations left", "threads still blocked"])

prop("C20", "An object may be destroyed as soon as its last use has taken effect",
 "A mutex (mutex, timed_mutex, spin_mutex, shared_spin_mutex) may be destroyed by a thread that has locked and unlocked it after every other thread's last unlock, and a semaphore or event by a thread whose wait, try_wait or timed wait took or observed the last signal, even if the unlock, post or set call in the other thread has not returned yet: once a call has had its effect it no longer accesses the object (waking threads on its address excepted). A condition_variable may be destroyed once every thread waiting on it has been notified, before their calls return. Nothing is accessed after destruction and nothing is left behind.",
 ["schedules", "histories", "configurations"],
 "every interleaving of the last unlock/post/set/notify with the thread that is released by it and destroys the object; futex, POSIX semaphore, emulated and spin implementations",
 "tests destroy objects only after joining all threads",
 [D+"events/auto_reset_event_futex.hpp", D+"events/auto_reset_event_semaphore.hpp", D+"events/auto_reset_event_emulation.hpp", D+"events/manual_reset_event_futex.hpp", D+"events/manual_reset_event_emulation.hpp", D+"semaphore/semaphore_posix.hpp", D+"semaphore/semaphore_emulation.hpp", D+"mutexes/mutex_posix.hpp", D+"mutexes/timed_mutex_posix.hpp", D+"mutexes/spin_mutex.hpp", D+"mutexes/shared_spin_mutex.hpp", D+"condition_variables/condition_variable_posix.hpp"],
 [m("the effect of unlock/post/set is the last access to the object, or is made under the object's lock", D)],
 None, ["accesses to the memory of a destroyed object"])

prop("C21", "Waiting threads sleep",
 "A thread that waits for something which is not available (lock or timed lock of mutex and timed_mutex, wait or timed wait of semaphore, auto_reset_event and manual_reset_event, every form of wait of condition_variable and condition_variable_any) is put to sleep by the operating system: after at most a bounded time of trying it does not spin, and how often it wakes up is bounded by the number of signals, notifications, interruptions and clock changes it meets, not by how long it waits. (Locks of spin mutexes, which spin by design, are excepted.)",
 ["schedules", "inputs", "fault_sequences", "configurations"],
 "every history of signals, stolen or withdrawn wakeups, interruptions and timeouts before and during the wait, every number of waiting threads, every time type and every length of the wait, with and without a predicate; futex, POSIX and emulated backends",
 "tests look at results only: a wait that burns a processor until it is released gives the same results",
 [D+"futex.hpp", D+"events/auto_reset_event_futex.hpp", D+"events/auto_reset_event_semaphore.hpp", D+"events/auto_reset_event_emulation.hpp", D+"events/manual_reset_event_futex.hpp", D+"events/manual_reset_event_emulation.hpp", D+"semaphore/semaphore_posix.hpp", D+"semaphore/semaphore_emulation.hpp", D+"mutexes/mutex_posix.hpp", D+"mutexes/timed_mutex_posix.hpp", D+"condition_variables/condition_variable_posix.hpp", D+"condition_variables/condition_variable_any_generic.hpp"],
 [m("expected value passed to the futex is the state just seen", D+"events/"), m("remaining time recomputed and passed on in full", "priv_timed_wait"), m("wait loops re-check after every wakeup", D)],
 None, ["simulated threads that spin, and wakeups per waiting call, while nothing else can run"])

# files of the other systems' backends, which run as flavours on models of their kernel objects
W = [D+"mutexes/basic_mutex_windows.hpp", D+"mutexes/mutex_windows.hpp", D+"mutexes/timed_mutex_windows.hpp"]
V = [D+"condition_variables/basic_condition_variable_windows.hpp", D+"condition_variables/condition_variable_windows.hpp"]
VA = [D+"condition_variables/condition_variable_any_windows.hpp"]
E = [D+"events/basic_event_windows.hpp", D+"events/auto_reset_event_windows.hpp", D+"events/manual_reset_event_windows.hpp"]
SE = [D+"semaphore/semaphore_windows.hpp", D+"semaphore/semaphore_dispatch.hpp"]
T = ["src/tss_windows.cpp", "src/tss_windows_hooks.hpp"]
MORE = {"C01": W, "C03": SE, "C04": E[:2], "C05": [E[0], E[2]], "C06": V, "C07": V + VA, "C08": W[2:] + E[:1] + SE + V[:1] + [D+"waitable_timer.hpp"], "C09": W[2:] + E[:1] + SE + V[:1], "C10": W[2:] + E[:1] + SE + V[:1],
        "C11": E + SE, "C21": W[2:] + E + SE + V + VA, "C14": T[:1], "C15": T, "C16": T, "C17": T, "C19": T[:1]}
for p in P:
    p["anchors"]["files"] += [f for f in MORE.get(p["id"], []) if f not in p["anchors"]["files"]]

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
