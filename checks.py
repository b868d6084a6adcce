"""What each check builds and runs. A flavour is one build of a harness: a backend or configuration of the library."""
WRAPS = ("pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_clocklock pthread_mutex_unlock "
         "pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast "
         "pthread_once pthread_key_create pthread_key_delete pthread_getspecific pthread_setspecific pthread_self "
         "sem_init sem_destroy sem_post sem_wait sem_trywait sem_timedwait sem_clockwait sem_getvalue syscall "
         "clock_gettime gettimeofday time sched_yield nanosleep clock_nanosleep usleep abort memcpy memmove memset __cxa_allocate_exception __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort").split()
L = "/usr/lib/x86_64-linux-gnu/lib"
LIBS = [L + "boost_chrono.a", L + "boost_system.a", L + "boost_context.a", "-lpthread"]

UNITS = {
    "p_mutex": [{"file": "p_mutex.cpp"}],
    "p_locks": [{"file": "p_locks.cpp"}],
    "p_err": [{"file": "p_err.cpp"}],
    "p_tss": [{"file": "p_tss.cpp"}, {"file": "@repo/src/tss_pthread.cpp", "objcopy": ["--rename-section", ".bss=sut_bss", "--rename-section", ".data=sut_data"]}],
    "p_tss_win": [{"file": "p_tss.cpp"}, {"file": "@repo/src/tss_windows.cpp", "objcopy": ["--rename-section", ".bss=sut_bss", "--rename-section", ".data=sut_data"]}],
    "p_life": [{"file": "p_life.cpp"}],
    "p_sync": [{"file": "p_sync.cpp"}],
    "p_cv": [{"file": "p_cv.cpp"}] + [{"file": "p_cv_op.cpp", "defs": ["-DOBJ=%d" % k]} for k in range(1, 9)],
    "p_time": [{"file": "p_time.cpp"}] + [{"file": "p_time_op.cpp", "defs": ["-DOBJ=%d" % k]} for k in range(1, 7)],
}

def fl(name, unit, cases, *defs, required=False): return {"name": name, "unit": unit, "cases": cases, "defs": list(defs), "required": required}
SIM = ["threads are simulated as fibers; every atomic operation, OS call and harness step is a schedule point and other code runs between them",
       "interleavings are sequentially consistent, with store buffers in a quarter of the cases; weaker memory orders are judged by a vector-clock happens-before model, not by executing other reorderings",
       "pthread, semaphore, futex and clock calls are models of the documented behaviour of Linux, with spurious wakeups, EINTR and delays"]
GEN = "each case draws a program, arguments, schedule (random walk, priority-based or few-preemption) and fault pattern from a seeded choice tape; non-trivial: "

SEQ = "each case draws a sequence of operations, arguments and failures of the mutex from a seeded choice tape and compares every step with a model; non-trivial: "

# other systems, on models of their kernel objects
DARWIN = ["-I@verif/sim/shim_darwin", "-include", "@verif/sim/shim_darwin/prelude_darwin.hpp", "-DTM_EMU"]
WIN = ["-I@verif/sim/shim_win", "-include", "@verif/sim/shim_win/prelude_win.hpp", "--param", "tsan-distinguish-volatile=1"]
WIN6 = WIN + ["-DBOOST_USE_WINAPI_VERSION=0x0600"]; WIN5 = WIN + ["-DBOOST_USE_WINAPI_VERSION=0x0501"]
BA = ["-include", "@verif/sim/boost_atomic.hpp"]
def sync_flavors(n): return [fl("default", "p_sync", n, required=True), fl("pthread", "p_sync", n // 2, "-DBOOST_SYNC_USE_PTHREAD"), fl("emulated", "p_sync", n // 2, "-DEMU")] + [fl("darwin", "p_sync", n // 4, *DARWIN), fl("windows", "p_sync", n // 4, *WIN6)]
def time_flavors(n): return [fl("default", "p_time", n, required=True), fl("pthread", "p_time", n // 3, "-DBOOST_SYNC_USE_PTHREAD"), fl("emulated", "p_time", n // 3, "-DEMU", "-DTM_EMU"), fl("darwin", "p_time", n // 6, *DARWIN), fl("windows", "p_time", n // 12, *WIN6)]

def tss_flavors(n): return [fl("default", "p_tss", n, required=True), fl("compiler_tls", "p_tss", n // 3, "-DBOOST_SYNC_USE_COMPILER_TLS"), fl("windows", "p_tss_win", n // 4, *WIN6), fl("windows_xp", "p_tss_win", n // 4, *WIN5)]
TSS = SIM + ["thread exit is modelled as glibc does it: destructors of pthread keys run in up to four rounds; __thread variables are kept per simulated thread",
             "memory can run out only once the library's tables exist (the library deliberately aborts when it cannot make them)"]

CHECKS = {
 "C01": {"rule": GEN + "a lock call found the mutex taken, failed, slept or overlapped another call", "assumptions": SIM,
   "flavors": [fl("default", "p_mutex", 1600000, required=True), fl("timed_mutex_emulated", "p_mutex", 600000, "-DTM_EMU"), fl("pthread_eintr", "p_mutex", 400000, "-DBOOST_SYNC_HAS_PTHREAD_EINTR_BUG"), fl("ttas_spin", "p_mutex", 400000, "-DATOMIC_BOOL_LOCKFREE=2"), fl("cxx03_init", "p_mutex", 200000, "-DTM_EMU", "-DBOOST_NO_CXX11_UNIFIED_INITIALIZATION_SYNTAX"), fl("boost_atomic", "p_mutex", 300000, *BA), fl("windows", "p_mutex", 400000, *WIN6)]},
 "C02": {"rule": GEN + "a lock call found the mutex taken, failed, or overlapped another call", "assumptions": SIM,
   "flavors": [fl("default", "p_mutex", 3000000, required=True), fl("boost_atomic", "p_mutex", 600000, *BA)]},
 "C03": {"rule": GEN + "a wait slept, failed or overlapped another thread's call", "assumptions": SIM, "flavors": sync_flavors(3000000)},
 "C04": {"rule": GEN + "a wait slept, failed or overlapped another thread's call", "assumptions": SIM + ["fewer than 1024 posts are outstanding at once (width of the futex implementation's post counter)"], "flavors": sync_flavors(1200000) + [fl("boost_atomic", "p_sync", 400000, *BA)]},
 "C05": {"rule": GEN + "a wait slept, failed or overlapped another thread's call", "assumptions": SIM, "flavors": sync_flavors(3000000)},
 "C06": {"rule": GEN + "a waiting call slept", "assumptions": SIM, "flavors": [fl("default", "p_cv", 4000000, required=True), fl("pthread_eintr", "p_cv", 1000000, "-DBOOST_SYNC_HAS_PTHREAD_EINTR_BUG", "-DBOOST_NO_CXX11_UNIFIED_INITIALIZATION_SYNTAX"), fl("windows", "p_cv", 800000, *WIN6)]},
 "C07": {"rule": GEN + "a waiting call slept", "assumptions": SIM, "flavors": [fl("default", "p_cv", 3200000, required=True), fl("timed_mutex_emulated", "p_cv", 600000, "-DTM_EMU"), fl("pthread_eintr", "p_cv", 600000, "-DBOOST_SYNC_HAS_PTHREAD_EINTR_BUG"), fl("windows", "p_cv", 600000, *WIN6)]},
 "C08": {"rule": GEN + "a timed call slept, timed out, or found its condition true", "assumptions": SIM, "flavors": time_flavors(9000000)},
 "C09": {"rule": GEN + "a timed call slept, timed out, or found its condition true", "assumptions": SIM, "flavors": time_flavors(9000000)},
 "C10": {"rule": GEN + "the timed call slept until its deadline, or the value was zero or negative", "assumptions": SIM, "flavors": time_flavors(16000000) + [fl("posix_time_ns", "p_time", 3000000, "-DBOOST_DATE_TIME_POSIX_TIME_STD_CONFIG")]},
 "C21": {"rule": GEN + "a thread was asleep in a waiting call while time went by or until the end", "assumptions": SIM + ["spinning for up to 4000 steps before sleeping, and 100 wakeups beyond those caused by signals and interruptions, are not judged"],
   "flavors": [fl("default", "p_time", 4000000, required=True), fl("pthread", "p_time", 1300000, "-DBOOST_SYNC_USE_PTHREAD"), fl("emulated", "p_time", 1300000, "-DEMU", "-DTM_EMU"), fl("pthread_eintr", "p_time", 600000, "-DBOOST_SYNC_HAS_PTHREAD_EINTR_BUG", "-DTM_EMU"), fl("darwin", "p_time", 600000, *DARWIN), fl("windows", "p_time", 400000, *WIN6)]},
 "C11": {"rule": GEN + "a wait succeeded and data published before its signal was read", "assumptions": SIM, "flavors": sync_flavors(6000000) + [fl("boost_atomic", "p_sync", 1000000, *BA)]},
 "C12": {"rule": SEQ + "an operation ran on a lock object or guard after its construction", "assumptions": ["one thread; the mutex is a recording mutex with every lockable operation, which refuses or throws when the case says so"],
   "flavors": [fl("default", "p_locks", 4000000, required=True), fl("std_system_error", "p_locks", 1000000, "-DBOOST_SYNC_USE_STD_SYSTEM_ERROR"), fl("move_emulation", "p_locks", 1000000, "-DBOOST_NO_CXX11_RVALUE_REFERENCES")]},
 "C13": {"rule": SEQ + "a lock that owned its mutex was converted", "assumptions": ["one thread; the mutex is a recording mutex with every transition, which refuses or throws when the case says so"],
   "flavors": [fl("default", "p_locks", 4000000, required=True), fl("std_system_error", "p_locks", 1000000, "-DBOOST_SYNC_USE_STD_SYSTEM_ERROR"), fl("move_emulation", "p_locks", 1000000, "-DBOOST_NO_CXX11_RVALUE_REFERENCES")]},
 "C14": {"rule": GEN + "a thread read back a value it had stored", "assumptions": TSS, "flavors": tss_flavors(2400000)},
 "C15": {"rule": GEN + "a cleanup function ran", "assumptions": TSS, "flavors": tss_flavors(2400000)},
 "C16": {"rule": GEN + "a function registered with at_thread_exit ran", "assumptions": TSS, "flavors": tss_flavors(2400000)},
 "C17": {"rule": GEN + "a thread was waiting when notify_all_at_thread_exit was called", "assumptions": TSS, "flavors": tss_flavors(2400000)},
 "C18": {"rule": "each case draws an object, operations on it, and an error code or burst of interruptions injected at a drawn system call, or builds and throws exception objects; non-trivial: a system call failed or was interrupted, or an exception object was examined", "assumptions": ["system calls fail before they do anything, with any error code POSIX or Linux documents for them (and some unknown ones); errors that only undefined behaviour causes (for instance EINVAL from sem_wait) are not injected"] + SIM[2:],
   "flavors": [fl("default", "p_err", 2400000, required=True), fl("pthread", "p_err", 800000, "-DBOOST_SYNC_USE_PTHREAD"), fl("emulated", "p_err", 800000, "-DEMU", "-DTM_EMU"), fl("no_initializers", "p_err", 800000, "-DEMU", "-DTM_EMU", "-DNO_INIT"),
               fl("pthread_eintr", "p_err", 1200000, "-DBOOST_SYNC_HAS_PTHREAD_EINTR_BUG"), fl("emulated_eintr", "p_err", 600000, "-DBOOST_SYNC_HAS_PTHREAD_EINTR_BUG", "-DEMU"), fl("std_system_error", "p_err", 800000, "-DBOOST_SYNC_USE_STD_SYSTEM_ERROR")]},
 "C19": {"rule": GEN + "several threads used thread-specific storage, or a value was cleaned up by thread exit or destruction", "assumptions": TSS, "flavors": tss_flavors(1200000)},
 "C20": {"rule": GEN + "the object was destroyed while another thread's last call on it had taken effect and was still returning", "assumptions": SIM + ["memory of destroyed objects is kept and every later access of the library to it is reported (waking threads on a futex address does not access it)"],
   "flavors": [fl("default", "p_life", 3000000, required=True), fl("pthread", "p_life", 1500000, "-DBOOST_SYNC_USE_PTHREAD"), fl("emulated", "p_life", 1500000, "-DEMU"), fl("ttas_spin", "p_life", 400000, "-DATOMIC_BOOL_LOCKFREE=2"), fl("pthread_eintr", "p_life", 600000, "-DBOOST_SYNC_HAS_PTHREAD_EINTR_BUG")]},
}

NOTES = {
 "technique": "stateful property-based testing under a simulated scheduler, clock and OS (generated programs, schedules and faults; linearizability / happens-before oracle; shrinking)",
 "note": "Searches, does not prove: a fixed number of seeded cases per backend, each judged in full by the oracle. Trusts the simulator's models of pthread, semaphore, futex and clock calls and its sequentially consistent interleaving with a vector-clock happens-before check.",
}
