#ifndef VERIF_INTERLOCKED
#define VERIF_INTERLOCKED
inline long verif_cas(long volatile* p, long x, long c) { __atomic_compare_exchange_n(p, &c, x, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
#define BOOST_INTERLOCKED_COMPARE_EXCHANGE(p, x, c) verif_cas((p), (x), (c))
#define BOOST_INTERLOCKED_EXCHANGE(p, v) __atomic_exchange_n((long volatile*)(p), (long)(v), __ATOMIC_SEQ_CST)
#define BOOST_INTERLOCKED_EXCHANGE_ADD(p, v) __atomic_fetch_add((long volatile*)(p), (long)(v), __ATOMIC_SEQ_CST)
#define BOOST_INTERLOCKED_INCREMENT(p) __atomic_add_fetch((long volatile*)(p), 1, __ATOMIC_SEQ_CST)
#define BOOST_INTERLOCKED_DECREMENT(p) __atomic_sub_fetch((long volatile*)(p), 1, __ATOMIC_SEQ_CST)
#endif
