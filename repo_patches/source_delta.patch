From 25b9d6c3455805ec00ce8d5dcf5784c01e23e3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:42 +0000
Subject: [PATCH 01/30] fix: manual_reset_event (futex) waits until time points
 of arbitrary clocks did not compile

priv_timed_wait for chrono_time_point called the public timed_wait with an
internal unit type, for which no overload exists.
---
 include/boost/sync/detail/events/manual_reset_event_futex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/sync/detail/events/manual_reset_event_futex.hpp b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
index cb8b5c6..362a7d2 100644
--- a/include/boost/sync/detail/events/manual_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
@@ -193,7 +193,7 @@ private:
         time_point now = clock::now();
         do
         {
-            if (timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
         }
-- 
2.43.0


From db56ad51638c6a686b0e5eebc5f84442f1a30b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:28 +0000
Subject: [PATCH 02/30] fix: time arithmetic with negative and very long
 durations

system_duration::subsecond_fraction is unsigned, so system_time_point(dur) and
operator+= computed garbage seconds for negative durations (an expired relative
timeout blocked practically forever), and adding a very long duration to the
nanoseconds overflowed.
---
 include/boost/sync/detail/time_units.hpp | 33 +++++++++++++++++-------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/include/boost/sync/detail/time_units.hpp b/include/boost/sync/detail/time_units.hpp
index e7fe6fe..5613489 100644
--- a/include/boost/sync/detail/time_units.hpp
+++ b/include/boost/sync/detail/time_units.hpp
@@ -172,8 +172,16 @@ public:
     //! Creates time point from duration since 1970-Jan-01
     explicit system_time_point(system_duration dur) BOOST_NOEXCEPT
     {
-        m_value.tv_sec = static_cast< ::time_t >(dur.get() / subsecond_fraction);
-        m_value.tv_nsec = dur.get() % subsecond_fraction;
+        // Note: subsecond_fraction is unsigned, make sure the arithmetics is signed so that negative durations are supported
+        int64_t sec = dur.get() / static_cast< int64_t >(subsecond_fraction);
+        int64_t nsec = dur.get() % static_cast< int64_t >(subsecond_fraction);
+        if (nsec < 0)
+        {
+            nsec += static_cast< int64_t >(subsecond_fraction);
+            --sec;
+        }
+        m_value.tv_sec = static_cast< ::time_t >(sec);
+        m_value.tv_nsec = static_cast< long >(nsec);
     }
 
     native_type const& get() const BOOST_NOEXCEPT { return m_value; }
@@ -195,15 +203,22 @@ public:
 
     system_time_point& operator+= (system_duration const& dur) BOOST_NOEXCEPT
     {
-        int64_t nsec = static_cast< int64_t >(m_value.tv_nsec) + dur.get();
-        int64_t tv_nsec = nsec % system_duration::subsecond_fraction;
-        if (tv_nsec < 0)
+        // Note: subsecond_fraction is unsigned, make sure the arithmetics is signed so that negative durations are supported.
+        // Seconds and nanoseconds are added separately in order to avoid overflow with very long durations.
+        int64_t sec = dur.get() / static_cast< int64_t >(subsecond_fraction);
+        int64_t nsec = static_cast< int64_t >(m_value.tv_nsec) + dur.get() % static_cast< int64_t >(subsecond_fraction);
+        if (nsec < 0)
+        {
+            nsec += static_cast< int64_t >(subsecond_fraction);
+            --sec;
+        }
+        else if (nsec >= static_cast< int64_t >(subsecond_fraction))
         {
-            tv_nsec += subsecond_fraction;
-            --m_value.tv_sec;
+            nsec -= static_cast< int64_t >(subsecond_fraction);
+            ++sec;
         }
-        m_value.tv_nsec = static_cast< long >(tv_nsec);
-        m_value.tv_sec += nsec / system_duration::subsecond_fraction;
+        m_value.tv_nsec = static_cast< long >(nsec);
+        m_value.tv_sec += static_cast< ::time_t >(sec);
 
         return *this;
     }
-- 
2.43.0


From 34b3190cd359e3abf530d30a0ac0035d19607a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:27 +0000
Subject: [PATCH 03/30] fix: futex events: do not restart relative timeouts
 after interruption

The relative overloads of auto_reset_event and manual_reset_event passed the
full duration to the kernel again after every EINTR, value change or stolen
wakeup, so the wait could last arbitrarily longer than requested. Convert to
an absolute deadline once.
---
 .../detail/events/auto_reset_event_futex.hpp  | 49 ++-----------------
 .../events/manual_reset_event_futex.hpp       | 36 ++------------
 2 files changed, 7 insertions(+), 78 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index 1ca2db1..2dbc202 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -223,54 +223,11 @@ private:
         if (this->try_wait())
             return true;
 
-        sync::detail::system_duration::native_type time_left = dur.get();
-        if (time_left <= 0)
+        if (dur.get() <= 0)
             return false;
 
-        // Add one waiter
-        unsigned int old_state = m_state.fetch_add(1, detail::atomic_ns::memory_order_relaxed);
-        while (true)
-        {
-            unsigned int posts = old_state >> wait_count_bits;
-            if (posts == 0)
-            {
-                ++old_state; // account for the waiter added above
-
-                while (true)
-                {
-                    const int status = sync::detail::linux_::futex_timedwait(reinterpret_cast< int* >(&m_state), old_state, time_left);
-                    if (status != 0)
-                    {
-                        const int err = errno;
-                        switch (err)
-                        {
-                        case ETIMEDOUT:
-                            return on_wait_timed_out();
-
-                        case EINTR:       // signal received
-                        case EWOULDBLOCK: // another thread changed the state
-                            break;
-
-                        default:
-                            BOOST_ASSERT(false);
-                        }
-                    }
-
-                    old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
-                    posts = old_state >> wait_count_bits;
-                    if (BOOST_LIKELY(posts > 0))
-                        break;
-                }
-            }
-
-            // Remove one post and one waiter from the counters
-            if (BOOST_LIKELY(m_state.compare_exchange_weak(old_state, old_state - (post_count_one + 1u), detail::atomic_ns::memory_order_acquire, detail::atomic_ns::memory_order_relaxed)))
-                break;
-
-            detail::pause();
-        }
-
-        return true;
+        // Convert to absolute timeout so that the timeout is not restarted when the wait is interrupted
+        return priv_timed_wait(sync::detail::system_time_point::now() + dur);
     }
 
     template< typename TimePoint >
diff --git a/include/boost/sync/detail/events/manual_reset_event_futex.hpp b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
index 362a7d2..f54e3e0 100644
--- a/include/boost/sync/detail/events/manual_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
@@ -149,39 +149,11 @@ private:
         if (this->try_wait())
             return true;
 
-        unsigned int old_state = m_state.add(wait_count_one, boost::memory_order_relaxed);
-        while ((old_state & post_bit) == 0u)
-        {
-            sync::detail::system_duration::native_type time_left = dur.get();
-            if (time_left <= 0)
-            {
-                m_state.opaque_sub(wait_count_one, boost::memory_order_relaxed);
-                return false;
-            }
-
-            // Check that system time resolution is nanoseconds
-            BOOST_STATIC_ASSERT(sync::detail::system_duration::subsecond_fraction == 1000000000u);
-            do
-            {
-                const int status = sync::detail::linux_::futex_timedwait(reinterpret_cast< int* >(&m_state.value()), old_state, time_left);
-                if (status != 0)
-                {
-                    const int err = errno;
-                    if (BOOST_LIKELY(err == ETIMEDOUT))
-                    {
-                        m_state.opaque_sub(wait_count_one, boost::memory_order_relaxed);
-                        return false;
-                    }
-                }
-
-                old_state = m_state.load(boost::memory_order_relaxed);
-            }
-            while ((old_state & post_bit) == 0u);
-        }
+        if (dur.get() <= 0)
+            return false;
 
-        m_state.opaque_sub(wait_count_one, boost::memory_order_acquire);
-
-        return true;
+        // Convert to absolute timeout so that the timeout is not restarted when the wait is interrupted
+        return priv_timed_wait(sync::detail::system_time_point::now() + dur);
     }
 
     template< typename TimePoint >
-- 
2.43.0


From db91bd9c40511285717519339cf9c32d6f8b9b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:17 +0000
Subject: [PATCH 04/30] fix: condition_variable_any: honour one deadline in
 relative predicate waits

timed_wait and wait_for with a predicate passed the whole relative timeout to
every inner wait, so each wakeup with a false predicate restarted the timeout.
Compute the absolute deadline once, as condition_variable does.
---
 .../condition_variable_any_generic.hpp        | 25 ++++++++++++++++---
 include/boost/sync/detail/time_units.hpp      | 15 +++++++++++
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp b/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp
index 30fe69e..e4a371d 100644
--- a/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp
+++ b/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp
@@ -21,6 +21,7 @@
 #include <boost/core/enable_if.hpp>
 #include <boost/sync/detail/config.hpp>
 #include <boost/sync/detail/time_traits.hpp>
+#include <boost/sync/detail/time_units.hpp>
 #include <boost/sync/locks/lock_guard.hpp>
 #include <boost/sync/locks/unique_lock.hpp>
 #include <boost/sync/mutexes/mutex.hpp>
@@ -113,9 +114,9 @@ public:
         return m_cond.timed_wait(internal_lock, t);
     }
 
-    template< typename Lock, typename Time, typename Predicate >
-    typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type
-    timed_wait(Lock& lock, Time const& t, Predicate pred)
+    template< typename Lock, typename TimePoint, typename Predicate >
+    typename detail::enable_if_tag< TimePoint, detail::time_point_tag, bool >::type
+    timed_wait(Lock& lock, TimePoint const& t, Predicate pred)
     {
         while (!pred())
         {
@@ -125,6 +126,20 @@ public:
         return true;
     }
 
+    template< typename Lock, typename Duration, typename Predicate >
+    typename detail::enable_if_tag< Duration, detail::time_duration_tag, bool >::type
+    timed_wait(Lock& lock, Duration const& t, Predicate pred)
+    {
+        // Convert to absolute timeout so that the timeout is not restarted on every wakeup
+        const sync::detail::system_time_point abs_timeout = sync::detail::system_time_point::now() + sync::detail::time_traits< Duration >::to_sync_unit(t);
+        while (!pred())
+        {
+            if (!this->timed_wait(lock, abs_timeout))
+                return pred();
+        }
+        return true;
+    }
+
     template< typename Lock, typename TimePoint >
     typename detail::enable_if_tag< TimePoint, detail::time_point_tag, sync::cv_status >::type
     wait_until(Lock& lock, TimePoint const& abs_time)
@@ -161,9 +176,11 @@ public:
     typename detail::enable_if_tag< Duration, detail::time_duration_tag, bool >::type
     wait_for(Lock& lock, Duration const& rel_time, Predicate pred)
     {
+        // Convert to absolute timeout so that the timeout is not restarted on every wakeup
+        const sync::detail::system_time_point abs_timeout = sync::detail::system_time_point::now() + sync::detail::time_traits< Duration >::to_sync_unit(rel_time);
         while (!pred())
         {
-            if (this->wait_for(lock, rel_time) != sync::cv_status::no_timeout)
+            if (this->wait_until(lock, abs_timeout) != sync::cv_status::no_timeout)
                 return pred();
         }
         return true;
diff --git a/include/boost/sync/detail/time_units.hpp b/include/boost/sync/detail/time_units.hpp
index 5613489..78a8fe5 100644
--- a/include/boost/sync/detail/time_units.hpp
+++ b/include/boost/sync/detail/time_units.hpp
@@ -17,6 +17,7 @@
 #include <time.h>
 #include <boost/cstdint.hpp>
 #include <boost/sync/detail/config.hpp>
+#include <boost/sync/detail/time_traits.hpp>
 
 #if defined(BOOST_SYNC_DETAIL_PLATFORM_WINAPI)
 #include <boost/winapi/time.hpp>
@@ -248,6 +249,20 @@ public:
 
 #endif
 
+template< >
+struct time_traits< system_time_point >
+{
+    typedef time_point_tag tag;
+    typedef system_time_point unit_type;
+
+    static BOOST_CONSTEXPR_OR_CONST bool is_specialized = true;
+
+    static system_time_point const& to_sync_unit(system_time_point const& point) BOOST_NOEXCEPT
+    {
+        return point;
+    }
+};
+
 template< typename TimePoint >
 class chrono_time_point :
     public TimePoint
-- 
2.43.0


From 332bb104c4536ae0bdc183a4ea0220bc0d5a4379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:21 +0000
Subject: [PATCH 05/30] fix: emulated semaphore and events: do not restart
 relative timeouts on wakeups

The emulated primitives passed the whole relative timeout to every inner
condition variable wait.
---
 .../events/auto_reset_event_emulation.hpp     | 26 +++++++++++-------
 .../events/manual_reset_event_emulation.hpp   | 27 ++++++++++---------
 .../detail/semaphore/semaphore_emulation.hpp  | 26 +++++++++++-------
 3 files changed, 47 insertions(+), 32 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_emulation.hpp b/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
index 358e368..5ff7b62 100644
--- a/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
@@ -75,16 +75,9 @@ public:
     typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
-        while (!m_is_set)
-        {
-            if (!m_cond.timed_wait(lock, timeout))
-            {
-                if (!m_is_set)
-                    return false;
-                else
-                    break;
-            }
-        }
+        // The predicate form converts relative timeouts to absolute once, so that they are not restarted on every wakeup
+        if (!m_cond.timed_wait(lock, timeout, is_set(m_is_set)))
+            return false;
 
         m_is_set = false;
         return true;
@@ -102,6 +95,19 @@ public:
         return timed_wait(abs_time);
     }
 
+private:
+    //! Predicate for timed waits
+    struct is_set
+    {
+        typedef bool result_type;
+
+        explicit is_set(bool const& flag) : m_flag(flag) {}
+        bool operator() () const { return m_flag; }
+
+    private:
+        bool const& m_flag;
+    };
+
 private:
     sync::mutex m_mutex;
     sync::condition_variable m_cond;
diff --git a/include/boost/sync/detail/events/manual_reset_event_emulation.hpp b/include/boost/sync/detail/events/manual_reset_event_emulation.hpp
index b6183af..7feb197 100644
--- a/include/boost/sync/detail/events/manual_reset_event_emulation.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_emulation.hpp
@@ -76,18 +76,8 @@ public:
     typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
-        while (!m_is_set)
-        {
-            if (!m_cond.timed_wait(lock, timeout))
-            {
-                if (!m_is_set)
-                    return false;
-                else
-                    break;
-            }
-        }
-
-        return true;
+        // The predicate form converts relative timeouts to absolute once, so that they are not restarted on every wakeup
+        return m_cond.timed_wait(lock, timeout, is_set(m_is_set));
     }
 
     template< typename Duration >
@@ -102,6 +92,19 @@ public:
         return timed_wait(abs_time);
     }
 
+private:
+    //! Predicate for timed waits
+    struct is_set
+    {
+        typedef bool result_type;
+
+        explicit is_set(bool const& flag) : m_flag(flag) {}
+        bool operator() () const { return m_flag; }
+
+    private:
+        bool const& m_flag;
+    };
+
 private:
     sync::mutex m_mutex;
     sync::condition_variable m_cond;
diff --git a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
index db69570..2828598 100644
--- a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
@@ -71,16 +71,9 @@ public:
     typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
-        while (m_count == 0)
-        {
-            if (!m_cond.timed_wait(lock, timeout))
-            {
-                if (m_count == 0)
-                    return false;
-                else
-                    break;
-            }
-        }
+        // The predicate form converts relative timeouts to absolute once, so that they are not restarted on every wakeup
+        if (!m_cond.timed_wait(lock, timeout, is_posted(m_count)))
+            return false;
 
         --m_count;
         return true;
@@ -98,6 +91,19 @@ public:
         return timed_wait(abs_time);
     }
 
+private:
+    //! Predicate for timed waits
+    struct is_posted
+    {
+        typedef bool result_type;
+
+        explicit is_posted(unsigned int const& count) : m_count(count) {}
+        bool operator() () const { return m_count > 0; }
+
+    private:
+        unsigned int const& m_count;
+    };
+
 private:
     sync::mutex m_mutex;
     sync::condition_variable m_cond;
-- 
2.43.0


From 037b1dcb1a76bba336beb6de2361055c8167c1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:46 +0000
Subject: [PATCH 06/30] fix: emulated auto_reset_event: keep one post per
 blocked thread

With a single flag, two posts made before the first released thread ran woke
only one of two blocked threads. Count posts and waiters as the other
implementations do.
---
 .../events/auto_reset_event_emulation.hpp     | 57 +++++++++++++------
 1 file changed, 41 insertions(+), 16 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_emulation.hpp b/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
index 5ff7b62..02ebf4a 100644
--- a/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
@@ -37,17 +37,18 @@ class auto_reset_event
     BOOST_DELETED_FUNCTION(auto_reset_event& operator= (auto_reset_event const&));
 
 public:
-    auto_reset_event() : m_is_set(false)
+    auto_reset_event() : m_posts(0u), m_waiters(0u)
     {
     }
 
     void post()
     {
         sync::lock_guard< sync::mutex > lock(m_mutex);
-        const bool already_signaled = m_is_set;
+        // Every blocked thread is owed its own post, and one more post leaves the event signalled
+        const bool already_signaled = m_posts > m_waiters;
         if (!already_signaled)
         {
-            m_is_set = true;
+            ++m_posts;
             m_cond.notify_one();
         }
     }
@@ -56,18 +57,23 @@ public:
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
 
-        while (!m_is_set)
-            m_cond.wait(lock);
+        if (m_posts == 0u)
+        {
+            waiter_guard guard(m_waiters);
+            do
+                m_cond.wait(lock);
+            while (m_posts == 0u);
+        }
 
-        m_is_set = false;
+        --m_posts;
     }
 
     bool try_wait()
     {
         sync::lock_guard< sync::mutex > lock(m_mutex);
-        const bool res = m_is_set;
+        const bool res = m_posts > 0u;
         if (res)
-            m_is_set = false;
+            --m_posts;
         return res;
     }
 
@@ -76,10 +82,14 @@ public:
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
         // The predicate form converts relative timeouts to absolute once, so that they are not restarted on every wakeup
-        if (!m_cond.timed_wait(lock, timeout, is_set(m_is_set)))
-            return false;
+        if (m_posts == 0u)
+        {
+            waiter_guard guard(m_waiters);
+            if (!m_cond.timed_wait(lock, timeout, is_posted(m_posts)))
+                return false;
+        }
 
-        m_is_set = false;
+        --m_posts;
         return true;
     }
 
@@ -97,21 +107,36 @@ public:
 
 private:
     //! Predicate for timed waits
-    struct is_set
+    struct is_posted
     {
         typedef bool result_type;
 
-        explicit is_set(bool const& flag) : m_flag(flag) {}
-        bool operator() () const { return m_flag; }
+        explicit is_posted(unsigned int const& posts) : m_posts(posts) {}
+        bool operator() () const { return m_posts > 0u; }
+
+    private:
+        unsigned int const& m_posts;
+    };
 
+    //! Accounts for a blocked thread
+    class waiter_guard
+    {
     private:
-        bool const& m_flag;
+        unsigned int& m_waiters;
+
+    public:
+        explicit waiter_guard(unsigned int& waiters) BOOST_NOEXCEPT : m_waiters(waiters) { ++m_waiters; }
+        ~waiter_guard() { --m_waiters; }
+
+        BOOST_DELETED_FUNCTION(waiter_guard(waiter_guard const&))
+        BOOST_DELETED_FUNCTION(waiter_guard& operator= (waiter_guard const&))
     };
 
 private:
     sync::mutex m_mutex;
     sync::condition_variable m_cond;
-    bool m_is_set;
+    unsigned int m_posts; // never more than m_waiters + 1
+    unsigned int m_waiters;
 };
 
 } // namespace abi
-- 
2.43.0


From 2e9b3f9eee4226833f607f5def4c15e1cef5aee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:36 +0000
Subject: [PATCH 07/30] fix: semaphore-based auto_reset_event: do not store
 extra signals when a wait fails

A failing try_wait or timed wait left the waiter count with a plain decrement.
Posts made for that waiter in the meantime then remained in the semaphore in
addition to the one signal the event may hold. Withdraw the waiter only while
it has not been posted, otherwise consume the post.
---
 .../events/auto_reset_event_semaphore.hpp     | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
index ec8a449..0162dd8 100644
--- a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
@@ -77,8 +77,7 @@ public:
         if (wait_successful)
             return true;
 
-        m_state.fetch_add(-1, detail::atomic_ns::memory_order_relaxed);
-        return false;
+        return on_wait_failed();
     }
 
     template< typename Time >
@@ -90,8 +89,7 @@ public:
         if (wait_successful)
             return true;
 
-        m_state.fetch_add(-1, detail::atomic_ns::memory_order_relaxed);
-        return false;
+        return on_wait_failed();
     }
 
     template< typename Duration >
@@ -106,6 +104,29 @@ public:
         return timed_wait(abs_time);
     }
 
+private:
+    // Withdraws the waiter that has not received a post. Returns true if a post has been made for it in the meantime.
+    bool on_wait_failed()
+    {
+        while (true)
+        {
+            int32_t old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
+            if (old_state > 0)
+            {
+                if (m_state.compare_exchange_weak(old_state, old_state - 1, detail::atomic_ns::memory_order_relaxed, detail::atomic_ns::memory_order_relaxed))
+                    return false;
+            }
+            else if (m_sem.try_wait())
+            {
+                // All waiters, including this one, have been posted
+                return true;
+            }
+
+            // A concurrent post is about to release the semaphore, or another waiter has just acquired it
+            detail::pause();
+        }
+    }
+
 private:
     semaphore m_sem;
     detail::atomic_ns::atomic< int32_t > m_state;
-- 
2.43.0


From fe9af6b7aa6deaf51d8d8b8b5f8b1b296564d773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:53 +0000
Subject: [PATCH 08/30] fix: auto_reset_event: publish data of posts that find
 the event already signalled

A release fence without a following store synchronizes with nothing, so a
thread that consumed the signal did not see what was written before a post
that was absorbed. Store the unchanged state with release semantics.
---
 .../detail/events/auto_reset_event_futex.hpp  | 10 +++++----
 .../events/auto_reset_event_semaphore.hpp     | 21 +++++++------------
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index 2dbc202..8f52ce5 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -67,14 +67,16 @@ public:
             {
                 if (m_state.compare_exchange_weak(old_state, old_state + post_count_one, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
                     break;
-
-                detail::pause();
             }
             else
             {
-                detail::atomic_ns::atomic_thread_fence(detail::atomic_ns::memory_order_release);
-                return; // the event is already set (enough times so that all waiters are released and the event is still left signalled)
+                // The event is already set (enough times so that all waiters are released and the event is still left signalled).
+                // The state is still stored so that the thread that resets the event synchronizes with this post.
+                if (m_state.compare_exchange_weak(old_state, old_state, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
+                    return;
             }
+
+            detail::pause();
         }
 
         if (waiters > 0)
diff --git a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
index 0162dd8..3fd6191 100644
--- a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
@@ -43,24 +43,19 @@ public:
     void post() BOOST_NOEXCEPT
     {
         int32_t old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
-        if (old_state >= 0)
+        for (;;)
         {
-            for (;;)
+            // If the event is already set, the state is still stored so that the thread that resets the event synchronizes with this post
+            const int32_t new_state = old_state >= 0 ? old_state - 1 : old_state;
+            if (m_state.compare_exchange_weak(old_state, new_state, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
             {
-                if (m_state.compare_exchange_weak(old_state, old_state - 1, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
-                {
+                if (new_state != old_state)
                     m_sem.post();
-                    return; // avoid unnecessary fence
-                }
-
-                if (old_state < 0)
-                    break; // someone else has set the auto_reset_event with no waiters
-
-                detail::pause();
+                return;
             }
-        }
 
-        detail::atomic_ns::atomic_thread_fence(detail::atomic_ns::memory_order_release);
+            detail::pause();
+        }
     }
 
     void wait()
-- 
2.43.0


From 17714e4b806ed4fd07e377757717c6181ae44ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:01 +0000
Subject: [PATCH 09/30] fix: shared_spin_mutex: try_lock_shared must not fail
 because of other readers

A reader arriving or leaving between the load and the compare-exchange made
try_lock_shared fail although nobody held the mutex exclusively.
---
 .../sync/detail/mutexes/shared_spin_mutex.hpp   | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp b/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
index 87ccfac..67c7232 100644
--- a/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
+++ b/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
@@ -104,15 +104,16 @@ public:
 
     bool try_lock_shared() BOOST_NOEXCEPT
     {
-        /* with the mask, the cas will fail, locked exclusively */
-        uint32_t current_state    = state.load(detail::atomic_ns::memory_order_acquire) & reader_mask;
-        const uint32_t next_state = current_state + 1;
+        uint32_t current_state = state.load(detail::atomic_ns::memory_order_relaxed);
 
-        if ( state.compare_exchange_strong(current_state, next_state, detail::atomic_ns::memory_order_acquire,
-                                           detail::atomic_ns::memory_order_relaxed) )
-            return true;
-        else
-            return false;
+        /* only fail if locked exclusively, retry if other readers have changed the state */
+        while ( current_state != locked_state ) {
+            if ( state.compare_exchange_weak(current_state, current_state + 1, detail::atomic_ns::memory_order_acquire,
+                                             detail::atomic_ns::memory_order_relaxed) )
+                return true;
+            detail::pause();
+        }
+        return false;
     }
 
     void unlock_shared() BOOST_NOEXCEPT
-- 
2.43.0


From 21b9f09ea11591f850536a6ad50ad5a220bd6016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:22 +0000
Subject: [PATCH 10/30] fix: condition_variable must not resume a timed wait on
 a foreign clock, losing notifications

---
 .../condition_variables/condition_variable_posix.hpp     | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/boost/sync/detail/condition_variables/condition_variable_posix.hpp b/include/boost/sync/detail/condition_variables/condition_variable_posix.hpp
index a2078c6..392c4b7 100644
--- a/include/boost/sync/detail/condition_variables/condition_variable_posix.hpp
+++ b/include/boost/sync/detail/condition_variables/condition_variable_posix.hpp
@@ -233,12 +233,13 @@ private:
         typedef TimePoint time_point;
         typedef typename time_point::clock clock;
         typedef typename time_point::duration duration;
-        time_point now = clock::now();
-        while (now < t.get())
+        time_point const now = clock::now();
+        if (now < t.get())
         {
-            if (priv_timed_wait(lock, sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)) == sync::cv_status::no_timeout)
+            // Do not resume waiting if the wait ended before the deadline according to the clock: the mutex was released
+            // while returning from the wait, and a notification issued at that time would be lost.
+            if (priv_timed_wait(lock, sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)) == sync::cv_status::no_timeout || clock::now() < t.get())
                 return sync::cv_status::no_timeout;
-            now = clock::now();
         }
         return sync::cv_status::timeout;
     }
-- 
2.43.0


From 2b1cc90aabc273c87731ead6b9fe3730cd37a5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:38 +0000
Subject: [PATCH 11/30] fix: lock_error must accept errc values when
 BOOST_SYNC_USE_STD_SYSTEM_ERROR is defined

---
 include/boost/sync/exceptions/lock_error.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/sync/exceptions/lock_error.hpp b/include/boost/sync/exceptions/lock_error.hpp
index 0bd7042..5cdf5c3 100644
--- a/include/boost/sync/exceptions/lock_error.hpp
+++ b/include/boost/sync/exceptions/lock_error.hpp
@@ -44,6 +44,14 @@ public:
     {
     }
 
+    lock_error(sync::detail::errc_t sys_err, const char* what) : runtime_exception(static_cast< int >(sys_err), what)
+    {
+    }
+
+    lock_error(sync::detail::errc_t sys_err, std::string const& what) : runtime_exception(static_cast< int >(sys_err), what)
+    {
+    }
+
     ~lock_error() BOOST_NOEXCEPT_OR_NOTHROW
     {
     }
-- 
2.43.0


From a6ebdefaf6b0ba99dc11c4a26aae52b6ee2a6ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:38 +0000
Subject: [PATCH 12/30] fix: lock conversions must not access private members
 of other lock types

---
 include/boost/sync/locks/shared_lock.hpp  | 4 ++--
 include/boost/sync/locks/unique_lock.hpp  | 2 +-
 include/boost/sync/locks/upgrade_lock.hpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/sync/locks/shared_lock.hpp b/include/boost/sync/locks/shared_lock.hpp
index b825433..f034cc0 100644
--- a/include/boost/sync/locks/shared_lock.hpp
+++ b/include/boost/sync/locks/shared_lock.hpp
@@ -104,7 +104,7 @@ public:
 
     // Conversion from unique locking
     explicit shared_lock(BOOST_RV_REF(unique_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_and_lock_shared();
@@ -112,7 +112,7 @@ public:
     }
 
     explicit shared_lock(BOOST_RV_REF(upgrade_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_upgrade_and_lock_shared();
diff --git a/include/boost/sync/locks/unique_lock.hpp b/include/boost/sync/locks/unique_lock.hpp
index 98bd74a..4844d90 100644
--- a/include/boost/sync/locks/unique_lock.hpp
+++ b/include/boost/sync/locks/unique_lock.hpp
@@ -103,7 +103,7 @@ public:
     }
 
     explicit unique_lock(BOOST_RV_REF(upgrade_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_upgrade_and_lock();
diff --git a/include/boost/sync/locks/upgrade_lock.hpp b/include/boost/sync/locks/upgrade_lock.hpp
index 765fe24..8fe0645 100644
--- a/include/boost/sync/locks/upgrade_lock.hpp
+++ b/include/boost/sync/locks/upgrade_lock.hpp
@@ -103,7 +103,7 @@ public:
     }
 
     explicit upgrade_lock(BOOST_RV_REF(unique_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_and_lock_upgrade();
-- 
2.43.0


From 31a990fe07d15e4a1322713ac3e19ee6bc3664d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:38 +0000
Subject: [PATCH 13/30] fix: unlock_guard constructor must let exceptions of
 unlock() out instead of terminating

---
 include/boost/sync/locks/unlock_guard.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/sync/locks/unlock_guard.hpp b/include/boost/sync/locks/unlock_guard.hpp
index 94b19c9..2a8e3a6 100644
--- a/include/boost/sync/locks/unlock_guard.hpp
+++ b/include/boost/sync/locks/unlock_guard.hpp
@@ -42,7 +42,7 @@ private:
     mutex_type& m_lockable;
 
 public:
-    explicit unlock_guard(mutex_type& m) BOOST_NOEXCEPT : m_lockable(m)
+    explicit unlock_guard(mutex_type& m) : m_lockable(m)
     {
         m.unlock();
     }
-- 
2.43.0


From b015cdd1aefc6311a820b85927bb506fec575bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:40 +0000
Subject: [PATCH 14/30] fix: thread-specific storage: synchronize key deletion
 with other threads setting values and exiting

---
 src/tss_manager.hpp | 53 +++++++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/src/tss_manager.hpp b/src/tss_manager.hpp
index 6cd7648..9e684bc 100644
--- a/src/tss_manager.hpp
+++ b/src/tss_manager.hpp
@@ -66,11 +66,17 @@ public:
         };
 
     private:
+        //! The mutex protects size of the storage. Other threads clear elements of the storage when they delete keys.
+        sync::mutex& m_mutex;
         std::vector< void* > m_storage;
         std::vector< at_exit_entry > m_at_exit_functions;
         std::vector< notify_at_exit_entry > m_notify_at_exit;
 
     public:
+        explicit thread_context(sync::mutex& mtx) : m_mutex(mtx)
+        {
+        }
+
         void* get_value(thread_specific_key key) const BOOST_NOEXCEPT
         {
             if (key < m_storage.size())
@@ -82,7 +88,10 @@ public:
         void set_value(thread_specific_key key, void* value)
         {
             if (key >= m_storage.size())
+            {
+                sync::lock_guard< sync::mutex > lock(m_mutex);
                 m_storage.resize(key + 1, static_cast< void* >(NULL));
+            }
             m_storage[key] = value;
         }
 
@@ -139,7 +148,7 @@ public:
 
     thread_context* create_thread_context()
     {
-        thread_context* p = new thread_context();
+        thread_context* p = new thread_context(m_mutex);
 
         sync::lock_guard< mutex_type > lock(m_mutex);
         m_thread_contexts.push_back(*p);
@@ -162,20 +171,8 @@ public:
         }
 
         // Destroy TLS
-        while (!p->m_storage.empty())
+        while (destroy_storage(p))
         {
-            std::vector< void* > storage;
-            storage.swap(p->m_storage);
-            for (thread_specific_key key = 0, n = static_cast< thread_specific_key >(storage.size()); key < n; ++key)
-            {
-                void* const value = storage[key];
-                if (value)
-                {
-                    const at_thread_exit_callback cleanup = m_storage_cleanup[key].cleanup;
-                    if (cleanup)
-                        cleanup(value);
-                }
-            }
         }
 
         // Notify about thread termination. This must be performed last, after all TLS variables are destroyed.
@@ -254,6 +251,34 @@ public:
         }
     }
 
+private:
+    //! Calls cleanup functions for the values in the storage, returns \c true if any were called
+    bool destroy_storage(thread_context* p)
+    {
+        bool cleaned_up = false;
+        for (thread_specific_key key = 0; key < p->m_storage.size(); ++key)
+        {
+            void* value;
+            at_thread_exit_callback cleanup;
+            {
+                // The key may be concurrently deleted, in which case the value is cleaned up by the deleting thread
+                sync::lock_guard< mutex_type > lock(m_mutex);
+                value = p->m_storage[key];
+                p->m_storage[key] = NULL;
+                cleanup = m_storage_cleanup[key].cleanup;
+            }
+
+            if (value && cleanup)
+            {
+                cleaned_up = true;
+                cleanup(value);
+            }
+        }
+
+        return cleaned_up;
+    }
+
+public:
     BOOST_DELETED_FUNCTION(tss_manager(tss_manager const&))
     BOOST_DELETED_FUNCTION(tss_manager& operator= (tss_manager const&))
 };
-- 
2.43.0


From 76e6d78146bc6f01ff0169d06adec286964e9b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:40 +0000
Subject: [PATCH 15/30] fix: keep thread-specific storage usable in functions
 called at thread exit

---
 src/tss_manager.hpp | 24 +++++++++++----------
 src/tss_pthread.cpp | 51 ++++++++++++++++++++++++---------------------
 2 files changed, 40 insertions(+), 35 deletions(-)

diff --git a/src/tss_manager.hpp b/src/tss_manager.hpp
index 9e684bc..6a03a02 100644
--- a/src/tss_manager.hpp
+++ b/src/tss_manager.hpp
@@ -158,22 +158,24 @@ public:
 
     void destroy_thread_context(thread_context* p) BOOST_NOEXCEPT
     {
-        // Run cleanup functions
-        while (!p->m_at_exit_functions.empty())
+        // The functions called below may register more functions to call and set TLS values, repeat until there are none
+        do
         {
-            std::vector< thread_context::at_exit_entry > at_exit_functions;
-            at_exit_functions.swap(p->m_at_exit_functions);
-
-            for (std::vector< thread_context::at_exit_entry >::reverse_iterator it = at_exit_functions.rbegin(), end = at_exit_functions.rend(); it != end; ++it)
+            // Run cleanup functions
+            while (!p->m_at_exit_functions.empty())
             {
-                it->callback(it->context);
+                std::vector< thread_context::at_exit_entry > at_exit_functions;
+                at_exit_functions.swap(p->m_at_exit_functions);
+
+                for (std::vector< thread_context::at_exit_entry >::reverse_iterator it = at_exit_functions.rbegin(), end = at_exit_functions.rend(); it != end; ++it)
+                {
+                    it->callback(it->context);
+                }
             }
-        }
 
-        // Destroy TLS
-        while (destroy_storage(p))
-        {
+            // Destroy TLS
         }
+        while (destroy_storage(p) || !p->m_at_exit_functions.empty());
 
         // Notify about thread termination. This must be performed last, after all TLS variables are destroyed.
         for (std::vector< thread_context::notify_at_exit_entry >::const_iterator it = p->m_notify_at_exit.begin(), end = p->m_notify_at_exit.end(); it != end; ++it)
diff --git a/src/tss_pthread.cpp b/src/tss_pthread.cpp
index 29d57ca..dabbeed 100644
--- a/src/tss_pthread.cpp
+++ b/src/tss_pthread.cpp
@@ -41,13 +41,40 @@ static BOOST_SYNC_DETAIL_TLS tss_manager::thread_context* tss_context = NULL;
 static pthread_key_t tss_key;
 #endif
 
+#if defined(BOOST_SYNC_DETAIL_TLS)
+
+BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCEPT
+{
+    return tss_context;
+}
+BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
+{
+    tss_context = p;
+}
+
+#else // defined(BOOST_SYNC_DETAIL_TLS)
+
+BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCEPT
+{
+    return static_cast< tss_manager::thread_context* >(pthread_getspecific(tss_key));
+}
+BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
+{
+    pthread_setspecific(tss_key, p);
+}
+
+#endif // defined(BOOST_SYNC_DETAIL_TLS)
+
 extern "C" {
 
 static void tss_cleanup(void* p)
 {
     if (tss_manager::thread_context* ctx = static_cast< tss_manager::thread_context* >(p))
     {
+        // Functions called in the process may use thread-specific storage of this thread
+        set_thread_context(ctx);
         tss_mgr->destroy_thread_context(ctx);
+        set_thread_context(NULL);
     }
 }
 
@@ -70,30 +97,6 @@ static void init_tss()
 
 } // extern "C"
 
-#if defined(BOOST_SYNC_DETAIL_TLS)
-
-BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCEPT
-{
-    return tss_context;
-}
-BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
-{
-    tss_context = p;
-}
-
-#else // defined(BOOST_SYNC_DETAIL_TLS)
-
-BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCEPT
-{
-    return static_cast< tss_manager::thread_context* >(pthread_getspecific(tss_key));
-}
-BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
-{
-    pthread_setspecific(tss_key, p);
-}
-
-#endif // defined(BOOST_SYNC_DETAIL_TLS)
-
 } // namespace
 
 BOOST_SYNC_API void add_thread_exit_notify_entry(sync::mutex& mtx, sync::condition_variable& cond)
-- 
2.43.0


From 2c049df44822a31cd17a4ca74109ce8e1bb14a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:51 +0000
Subject: [PATCH 16/30] fix: call functions and clean up at thread exit when
 BOOST_SYNC_USE_COMPILER_TLS is defined

---
 src/tss_pthread.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tss_pthread.cpp b/src/tss_pthread.cpp
index dabbeed..767e93f 100644
--- a/src/tss_pthread.cpp
+++ b/src/tss_pthread.cpp
@@ -37,9 +37,9 @@ static pthread_once_t init_tss_once_flag = PTHREAD_ONCE_INIT;
 static tss_manager* tss_mgr = NULL;
 #if defined(BOOST_SYNC_DETAIL_TLS)
 static BOOST_SYNC_DETAIL_TLS tss_manager::thread_context* tss_context = NULL;
-#else
-static pthread_key_t tss_key;
 #endif
+//! The key is needed to be called at thread termination, even if the context pointer is stored in the compiler-supported TLS
+static pthread_key_t tss_key;
 
 #if defined(BOOST_SYNC_DETAIL_TLS)
 
@@ -49,6 +49,7 @@ BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCE
 }
 BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
 {
+    pthread_setspecific(tss_key, p);
     tss_context = p;
 }
 
@@ -89,10 +90,8 @@ static void init_tss()
         std::abort();
     }
 
-#if !defined(BOOST_SYNC_DETAIL_TLS)
     if (pthread_key_create(&tss_key, &tss_cleanup) != 0)
         std::abort();
-#endif
 }
 
 } // extern "C"
-- 
2.43.0


From 626199704bf639485e2cb9178cd609da739a2565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:26 +0000
Subject: [PATCH 17/30] fix: semaphore::try_wait must not report failure when
 interrupted by a signal

---
 .../sync/detail/semaphore/semaphore_posix.hpp | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/boost/sync/detail/semaphore/semaphore_posix.hpp b/include/boost/sync/detail/semaphore/semaphore_posix.hpp
index 53b525e..9456a5c 100644
--- a/include/boost/sync/detail/semaphore/semaphore_posix.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_posix.hpp
@@ -100,20 +100,25 @@ public:
 
     bool try_wait()
     {
-        const int status = sem_trywait(&m_sem);
-        if (status == 0)
-            return true;
-
-        switch (errno)
+        for (;;)
         {
-        case EINTR:
-        case EAGAIN:
-            return false;
+            const int status = sem_trywait(&m_sem);
+            if (status == 0)
+                return true;
 
-        case EINVAL:
-        default:
-            BOOST_ASSERT(false);
-            return false;
+            switch (errno)
+            {
+            case EAGAIN:
+                return false;
+
+            case EINTR: // interrupted by a signal handler
+                continue;
+
+            case EINVAL:
+            default:
+                BOOST_ASSERT(false);
+                return false;
+            }
         }
     }
 
-- 
2.43.0


From a075f4d5fbf79eb185665e3e26b010a5e0724bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:41 +0000
Subject: [PATCH 18/30] fix: emulated semaphore: report overflow instead of
 wrapping the counter around

---
 include/boost/sync/detail/semaphore/semaphore_emulation.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
index 2828598..1bbc860 100644
--- a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
@@ -10,12 +10,16 @@
 #ifndef BOOST_SYNC_DETAIL_SEMAPHORE_SEMAPHORE_EMULATION_HPP_INCLUDED_
 #define BOOST_SYNC_DETAIL_SEMAPHORE_SEMAPHORE_EMULATION_HPP_INCLUDED_
 
+#include <limits>
 #include <boost/core/enable_if.hpp>
 #include <boost/sync/detail/config.hpp>
 #include <boost/sync/detail/time_traits.hpp>
 #include <boost/sync/locks/lock_guard.hpp>
 #include <boost/sync/locks/unique_lock.hpp>
 #include <boost/sync/mutexes/mutex.hpp>
+#include <boost/sync/exceptions/overflow_error.hpp>
+#include <boost/sync/detail/system_error.hpp>
+#include <boost/sync/detail/throw_exception.hpp>
 #include <boost/sync/condition_variables/condition_variable.hpp>
 #include <boost/sync/detail/header.hpp>
 
@@ -44,6 +48,8 @@ public:
     void post()
     {
         sync::lock_guard< sync::mutex > lock(m_mutex);
+        if (BOOST_UNLIKELY(m_count == (std::numeric_limits< unsigned int >::max)()))
+            BOOST_SYNC_DETAIL_THROW(overflow_error, (static_cast< int >(sync::detail::system_ns::errc::value_too_large))("semaphore post failed: semaphore counter overflow"));
         ++m_count;
         m_cond.notify_one();
     }
-- 
2.43.0


From cf9161430254e5b7590ed95f3a473375e07f91f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:15 +0000
Subject: [PATCH 19/30] fix: emulated timed_mutex: do not leak the mutex when
 the constructor fails

---
 include/boost/sync/detail/mutexes/timed_mutex_posix.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp b/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp
index 13c0ac4..1c6d9cd 100644
--- a/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp
+++ b/include/boost/sync/detail/mutexes/timed_mutex_posix.hpp
@@ -104,7 +104,10 @@ public:
 #if !defined(BOOST_SYNC_DETAIL_PTHREAD_HAS_TIMEDLOCK)
         res = pthread_cond_init(&m_cond, NULL);
         if (BOOST_UNLIKELY(res != 0))
+        {
+            BOOST_VERIFY(sync::detail::posix::pthread_mutex_destroy(&m_mutex) == 0);
             BOOST_SYNC_DETAIL_THROW(resource_error, (res)("timed_mutex constructor failed in pthread_cond_init"));
+        }
         m_is_locked = false;
 #endif
     }
-- 
2.43.0


From 6f1c479335ddafbb245ba609e21e826cb0bb9667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:04 +0000
Subject: [PATCH 20/30] fix: accept chrono time points coarser than the
 resolution of their clock

Waiting until e.g. a time_point< steady_clock, milliseconds > did not compile,
because the current time of the clock was stored in the type of the time point.
---
 include/boost/sync/support/boost_chrono.hpp | 3 ++-
 include/boost/sync/support/std_chrono.hpp   | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/sync/support/boost_chrono.hpp b/include/boost/sync/support/boost_chrono.hpp
index 7c275a6..d8c7c01 100644
--- a/include/boost/sync/support/boost_chrono.hpp
+++ b/include/boost/sync/support/boost_chrono.hpp
@@ -51,7 +51,8 @@ template< typename Clock, typename Duration >
 struct time_traits< boost::chrono::time_point< Clock, Duration > >
 {
     typedef time_point_tag tag;
-    typedef chrono_time_point< boost::chrono::time_point< Clock, Duration > > unit_type;
+    // The time point is compared with Clock::now(), so its duration must be able to represent the clock resolution
+    typedef chrono_time_point< boost::chrono::time_point< Clock, typename boost::common_type< Duration, typename Clock::duration >::type > > unit_type;
 
     static BOOST_CONSTEXPR_OR_CONST bool is_specialized = true;
 
diff --git a/include/boost/sync/support/std_chrono.hpp b/include/boost/sync/support/std_chrono.hpp
index 8b81a63..244351c 100644
--- a/include/boost/sync/support/std_chrono.hpp
+++ b/include/boost/sync/support/std_chrono.hpp
@@ -15,6 +15,7 @@
 
 #include <ratio>
 #include <chrono>
+#include <type_traits>
 #include <boost/sync/detail/config.hpp>
 #include <boost/sync/detail/time_traits.hpp>
 #include <boost/sync/detail/time_units.hpp>
@@ -49,7 +50,8 @@ template< typename Clock, typename Duration >
 struct time_traits< std::chrono::time_point< Clock, Duration > >
 {
     typedef time_point_tag tag;
-    typedef chrono_time_point< std::chrono::time_point< Clock, Duration > > unit_type;
+    // The time point is compared with Clock::now(), so its duration must be able to represent the clock resolution
+    typedef chrono_time_point< std::chrono::time_point< Clock, typename std::common_type< Duration, typename Clock::duration >::type > > unit_type;
 
     static BOOST_CONSTEXPR_OR_CONST bool is_specialized = true;
 
-- 
2.43.0


From fbc465d501943528f74d7e56de548b2b22c77fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:48 +0000
Subject: [PATCH 21/30] fix: report failure to store the thread context instead
 of losing the thread's exit functions and values

If pthread_setspecific failed (ENOMEM), at_thread_exit, notify_all_at_thread_exit and
thread_specific_ptr::reset returned normally, but the functions were never called,
the mutex was never unlocked and the values were lost.
---
 src/tss_pthread.cpp | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/tss_pthread.cpp b/src/tss_pthread.cpp
index 767e93f..2ef37f8 100644
--- a/src/tss_pthread.cpp
+++ b/src/tss_pthread.cpp
@@ -21,6 +21,8 @@
 #include <cstdlib>
 #include <pthread.h>
 #include <boost/sync/detail/tss.hpp>
+#include <boost/sync/detail/throw_exception.hpp>
+#include <boost/sync/exceptions/resource_error.hpp>
 #include <boost/sync/condition_variables/notify_all_at_thread_exit.hpp>
 #include "tss_manager.hpp"
 #include <boost/sync/detail/header.hpp>
@@ -47,10 +49,12 @@ BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCE
 {
     return tss_context;
 }
-BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
+BOOST_FORCEINLINE int set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
 {
-    pthread_setspecific(tss_key, p);
-    tss_context = p;
+    int const res = pthread_setspecific(tss_key, p);
+    if (BOOST_LIKELY(res == 0))
+        tss_context = p;
+    return res;
 }
 
 #else // defined(BOOST_SYNC_DETAIL_TLS)
@@ -59,13 +63,27 @@ BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCE
 {
     return static_cast< tss_manager::thread_context* >(pthread_getspecific(tss_key));
 }
-BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
+BOOST_FORCEINLINE int set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
 {
-    pthread_setspecific(tss_key, p);
+    return pthread_setspecific(tss_key, p);
 }
 
 #endif // defined(BOOST_SYNC_DETAIL_TLS)
 
+//! Creates the context of the current thread
+tss_manager::thread_context* create_thread_context()
+{
+    tss_manager::thread_context* const ctx = tss_mgr->create_thread_context();
+    int const res = set_thread_context(ctx);
+    if (BOOST_UNLIKELY(res != 0))
+    {
+        // Without the pointer the context would not be found again and nothing would be called at thread termination
+        tss_mgr->destroy_thread_context(ctx);
+        BOOST_SYNC_DETAIL_THROW(resource_error, (res)("thread-specific storage initialization failed in pthread_setspecific"));
+    }
+    return ctx;
+}
+
 extern "C" {
 
 static void tss_cleanup(void* p)
@@ -104,10 +122,7 @@ BOOST_SYNC_API void add_thread_exit_notify_entry(sync::mutex& mtx, sync::conditi
     tss_manager::thread_context* ctx = get_thread_context();
 
     if (!ctx)
-    {
-        ctx = tss_mgr->create_thread_context();
-        set_thread_context(ctx);
-    }
+        ctx = create_thread_context();
 
     ctx->add_notify_at_exit_entry(&mtx, &cond);
 }
@@ -118,10 +133,7 @@ BOOST_SYNC_API void add_thread_exit_callback(at_thread_exit_callback callback, v
     tss_manager::thread_context* ctx = get_thread_context();
 
     if (!ctx)
-    {
-        ctx = tss_mgr->create_thread_context();
-        set_thread_context(ctx);
-    }
+        ctx = create_thread_context();
 
     ctx->add_at_exit_entry(callback, context);
 }
@@ -157,10 +169,7 @@ BOOST_SYNC_API void set_thread_specific(thread_specific_key key, void* p)
     tss_manager::thread_context* ctx = get_thread_context();
 
     if (!ctx)
-    {
-        ctx = tss_mgr->create_thread_context();
-        set_thread_context(ctx);
-    }
+        ctx = create_thread_context();
 
     ctx->set_value(key, p);
 }
-- 
2.43.0


From 6b8d95bf043983fb26bf87a4ec2c8434eb2ce183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:54 +0000
Subject: [PATCH 22/30] fix: do not wait forever for a time point at or before
 the epoch (dispatch semaphores)

dispatch_walltime returns DISPATCH_TIME_FOREVER for such time points, so that
semaphore::wait_until(system_clock::time_point()), for instance, never timed out.
---
 include/boost/sync/detail/semaphore/semaphore_dispatch.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp b/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
index fad42d7..2a6c873 100644
--- a/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
@@ -119,7 +119,10 @@ private:
     bool priv_timed_wait(sync::detail::system_time_point const& t)
     {
         struct timespec timespec_timeout = t.get();
-        dispatch_time_t timeout = dispatch_walltime( &timespec_timeout, 0 );
+        // Note that dispatch_walltime returns DISPATCH_TIME_FOREVER for time points at or before the epoch
+        dispatch_time_t timeout = DISPATCH_TIME_NOW;
+        if (timespec_timeout.tv_sec > 0 || (timespec_timeout.tv_sec == 0 && timespec_timeout.tv_nsec > 1))
+            timeout = dispatch_walltime( &timespec_timeout, 0 );
         return dispatch_semaphore_wait(m_sem, timeout) == 0;
     }
 
-- 
2.43.0


From 5951614c5355fb7a4e85f2c560814a99acc52d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:54 +0000
Subject: [PATCH 23/30] fix: acquire the memory of the previous owner when a
 Windows mutex is locked after waiting

mark_waiting_and_try_lock and clear_waiting_and_try_lock took the lock with a relaxed
operation, so what the previous owner wrote under the lock was not ordered before
the new owner's accesses.
---
 include/boost/sync/detail/mutexes/basic_mutex_windows.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/sync/detail/mutexes/basic_mutex_windows.hpp b/include/boost/sync/detail/mutexes/basic_mutex_windows.hpp
index 0146dc2..7722974 100644
--- a/include/boost/sync/detail/mutexes/basic_mutex_windows.hpp
+++ b/include/boost/sync/detail/mutexes/basic_mutex_windows.hpp
@@ -131,7 +131,7 @@ public:
         {
             const boost::uint32_t was_locked = (old_count & lock_flag_value);
             const boost::uint32_t new_count = was_locked ? (old_count + 1u) : (old_count | lock_flag_value);
-            if (m_active_count.compare_exchange_weak(old_count, new_count, boost::memory_order_relaxed, boost::memory_order_relaxed))
+            if (m_active_count.compare_exchange_weak(old_count, new_count, boost::memory_order_acquire, boost::memory_order_relaxed))
             {
                 if (was_locked)
                     old_count = new_count;
@@ -147,7 +147,7 @@ public:
         while (true)
         {
             const boost::uint32_t new_count = ((old_count & lock_flag_value) ? old_count : ((old_count - 1u) | lock_flag_value)) & ~static_cast< boost::uint32_t >(event_set_flag_value);
-            if (m_active_count.compare_exchange_weak(old_count, new_count, boost::memory_order_relaxed, boost::memory_order_relaxed))
+            if (m_active_count.compare_exchange_weak(old_count, new_count, boost::memory_order_acquire, boost::memory_order_relaxed))
                 break;
         }
     }
-- 
2.43.0


From 6384d12e22c0581ad94d6a478c18b48a407b1cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:54 +0000
Subject: [PATCH 24/30] fix: read the initialization flag of the waitable timer
 state as volatile

The flag is set by other threads with interlocked operations; a plain read does not
order the following read of the TLS key.
---
 include/boost/sync/detail/waitable_timer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/sync/detail/waitable_timer.hpp b/include/boost/sync/detail/waitable_timer.hpp
index 64cb8e1..edad5ec 100644
--- a/include/boost/sync/detail/waitable_timer.hpp
+++ b/include/boost/sync/detail/waitable_timer.hpp
@@ -302,7 +302,7 @@ inline boost::winapi::HANDLE_ get_waitable_timer()
 {
     waitable_timer_state& state = weak_linkage< waitable_timer_state >::value;
 
-    if (state.initialized != waitable_timer_state::st_initialized)
+    if (const_cast< long volatile& >(state.initialized) != waitable_timer_state::st_initialized)
         state.init();
 
     waitable_timer_state::thread_local_context* p =
-- 
2.43.0


From 483551326c89d829f91d4e0bbea6fcad18b6f3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:54 +0000
Subject: [PATCH 25/30] fix: report failure to store the thread context on
 Windows instead of losing it

As on POSIX: if TlsSetValue failed, functions registered for thread exit were never
called, the mutex was never unlocked and the values were lost.
---
 src/tss_windows.cpp | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/tss_windows.cpp b/src/tss_windows.cpp
index 23bf218..53bd213 100644
--- a/src/tss_windows.cpp
+++ b/src/tss_windows.cpp
@@ -21,6 +21,8 @@
 #include <cstdlib>
 #include <boost/detail/interlocked.hpp>
 #include <boost/sync/detail/tss.hpp>
+#include <boost/sync/detail/throw_exception.hpp>
+#include <boost/sync/exceptions/resource_error.hpp>
 #include <boost/sync/condition_variables/notify_all_at_thread_exit.hpp>
 #include "tss_manager.hpp"
 #include "tss_windows_hooks.hpp"
@@ -111,9 +113,10 @@ BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCE
 {
     return tss_context;
 }
-BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
+BOOST_FORCEINLINE bool set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
 {
     tss_context = p;
+    return true;
 }
 
 #else // defined(BOOST_SYNC_DETAIL_TLS)
@@ -122,13 +125,27 @@ BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCE
 {
     return static_cast< tss_manager::thread_context* >(TlsGetValue(tss_key));
 }
-BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
+BOOST_FORCEINLINE bool set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
 {
-    TlsSetValue(tss_key, p);
+    return !!TlsSetValue(tss_key, p);
 }
 
 #endif // defined(BOOST_SYNC_DETAIL_TLS)
 
+//! Creates the context of the current thread
+tss_manager::thread_context* create_thread_context()
+{
+    tss_manager::thread_context* const ctx = tss_mgr->create_thread_context();
+    if (BOOST_UNLIKELY(!set_thread_context(ctx)))
+    {
+        // Without the pointer the context would not be found again and nothing would be called at thread termination
+        DWORD const err = GetLastError();
+        tss_mgr->destroy_thread_context(ctx);
+        BOOST_SYNC_DETAIL_THROW(resource_error, (err)("thread-specific storage initialization failed in TlsSetValue"));
+    }
+    return ctx;
+}
+
 } // namespace
 
 namespace windows {
@@ -172,10 +189,7 @@ BOOST_SYNC_API void add_thread_exit_notify_entry(sync::mutex& mtx, sync::conditi
     tss_manager::thread_context* ctx = get_thread_context();
 
     if (!ctx)
-    {
-        ctx = tss_mgr->create_thread_context();
-        set_thread_context(ctx);
-    }
+        ctx = create_thread_context();
 
     ctx->add_notify_at_exit_entry(&mtx, &cond);
 }
@@ -186,10 +200,7 @@ BOOST_SYNC_API void add_thread_exit_callback(at_thread_exit_callback callback, v
     tss_manager::thread_context* ctx = get_thread_context();
 
     if (!ctx)
-    {
-        ctx = tss_mgr->create_thread_context();
-        set_thread_context(ctx);
-    }
+        ctx = create_thread_context();
 
     ctx->add_at_exit_entry(callback, context);
 }
@@ -225,10 +236,7 @@ BOOST_SYNC_API void set_thread_specific(thread_specific_key key, void* p)
     tss_manager::thread_context* ctx = get_thread_context();
 
     if (!ctx)
-    {
-        ctx = tss_mgr->create_thread_context();
-        set_thread_context(ctx);
-    }
+        ctx = create_thread_context();
 
     ctx->set_value(key, p);
 }
-- 
2.43.0


From 5310f7bded637e7bc873ddcecd7e836c8aa6c609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:54 +0000
Subject: [PATCH 26/30] fix: account for the time spent when a Windows timed
 wait is woken up without success

timed_mutex::timed_lock and condition_variable::timed_wait with a duration started over
with the full timeout whenever the event or semaphore released them and another thread
had been faster, so that they could block for much longer than asked.
---
 .../condition_variables/basic_condition_variable_windows.hpp    | 2 ++
 include/boost/sync/detail/mutexes/timed_mutex_windows.hpp       | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp b/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
index c6d8789..dfca55c 100644
--- a/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
+++ b/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
@@ -357,6 +357,7 @@ private:
     sync::cv_status priv_timed_wait(waiter_state* state, sync::detail::system_duration t)
     {
         sync::detail::system_duration::native_type time_left = t.get();
+        const sync::detail::system_time_point start = sync::detail::system_time_point::now();
         while (time_left > 0)
         {
             const boost::winapi::DWORD_ dur = time_left > boost::winapi::max_non_infinite_wait ?
@@ -375,6 +376,7 @@ private:
                         return sync::cv_status::no_timeout;
                     }
                 }
+                time_left = t.get() - (sync::detail::system_time_point::now() - start).get();
                 break;
 
             case boost::winapi::wait_timeout: // timeout expired
diff --git a/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp b/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
index de549e9..cfef1a5 100644
--- a/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
+++ b/include/boost/sync/detail/mutexes/timed_mutex_windows.hpp
@@ -171,6 +171,7 @@ private:
         {
             const boost::winapi::HANDLE_ evt = m_mutex.get_event();
             sync::detail::system_duration::native_type time_left = t.get();
+            const sync::detail::system_time_point start = sync::detail::system_time_point::now();
             while (time_left > 0)
             {
                 const boost::winapi::DWORD_ dur = time_left > boost::winapi::max_non_infinite_wait ?
@@ -182,6 +183,7 @@ private:
                     m_mutex.clear_waiting_and_try_lock(old_count);
                     if ((old_count & sync::detail::windows::basic_mutex::lock_flag_value) == 0)
                         return true;
+                    time_left = t.get() - (sync::detail::system_time_point::now() - start).get();
                     break;
 
                 case boost::winapi::wait_timeout:
-- 
2.43.0


From 885ccd96b9b62808fe77a45ce06fb83ad2d12a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:50 +0000
Subject: [PATCH 27/30] fix: condition_variable on Windows must not resume a
 timed wait on a foreign clock, losing notifications

As on POSIX: a notification issued between two waits of the loop was lost.
---
 .../basic_condition_variable_windows.hpp                 | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp b/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
index dfca55c..7c8db09 100644
--- a/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
+++ b/include/boost/sync/detail/condition_variables/basic_condition_variable_windows.hpp
@@ -242,12 +242,13 @@ public:
         typedef TimePoint time_point;
         typedef typename time_point::clock clock;
         typedef typename time_point::duration duration;
-        time_point now = clock::now();
-        while (now < t.get())
+        time_point const now = clock::now();
+        if (now < t.get())
         {
-            if (timed_wait(lock, sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)) == sync::cv_status::no_timeout)
+            // Do not resume waiting if the wait ended before the deadline according to the clock: the lock was released
+            // while returning from the wait, and a notification issued at that time would be lost.
+            if (timed_wait(lock, sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)) == sync::cv_status::no_timeout || clock::now() < t.get())
                 return sync::cv_status::no_timeout;
-            now = clock::now();
         }
         return sync::cv_status::timeout;
     }
-- 
2.43.0


From 56aa540e19d1f16b5a614af9bc4aa65da6fec6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:48 +0000
Subject: [PATCH 28/30] fix: do not report a timeout of a futex-based event
 before its deadline when the system clock is set back

---
 .../sync/detail/events/auto_reset_event_futex.hpp    |  4 +---
 .../sync/detail/events/manual_reset_event_futex.hpp  | 12 ++----------
 2 files changed, 3 insertions(+), 13 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index 8f52ce5..5a94b30 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -190,9 +190,7 @@ private:
                         const int err = errno;
                         switch (err)
                         {
-                        case ETIMEDOUT:
-                            return on_wait_timed_out();
-
+                        case ETIMEDOUT:   // the time left is checked again as the system clock could have been set back during the wait
                         case EINTR:       // signal received
                         case EWOULDBLOCK: // another thread changed the state
                             break;
diff --git a/include/boost/sync/detail/events/manual_reset_event_futex.hpp b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
index f54e3e0..22ee3e9 100644
--- a/include/boost/sync/detail/events/manual_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
@@ -124,16 +124,8 @@ private:
             // Check that system time resolution is nanoseconds
             BOOST_STATIC_ASSERT(sync::detail::system_duration::subsecond_fraction == 1000000000u);
 
-            const int status = sync::detail::linux_::futex_timedwait(reinterpret_cast< int* >(&m_state.value()), old_state, time_left);
-            if (status != 0)
-            {
-                const int err = errno;
-                if (BOOST_LIKELY(err == ETIMEDOUT))
-                {
-                    m_state.opaque_sub(wait_count_one, boost::memory_order_relaxed);
-                    return false;
-                }
-            }
+            // Whatever the reason of the wakeup, the time left is checked again as the system clock could have been set back during the wait
+            sync::detail::linux_::futex_timedwait(reinterpret_cast< int* >(&m_state.value()), old_state, time_left);
 
             old_state = m_state.load(boost::memory_order_relaxed);
         }
-- 
2.43.0


From e94a32ca242dae864d727ee80af8e91a970d317c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:01 +0000
Subject: [PATCH 29/30] fix: saturate timeouts that cannot be represented in 64
 bits of nanoseconds instead of wrapping them around

---
 include/boost/sync/detail/time_units.hpp       | 13 +++++++++++++
 include/boost/sync/support/boost_chrono.hpp    |  8 ++++++++
 include/boost/sync/support/boost_date_time.hpp | 13 +++++++++++--
 include/boost/sync/support/std_chrono.hpp      |  8 ++++++++
 4 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/include/boost/sync/detail/time_units.hpp b/include/boost/sync/detail/time_units.hpp
index 78a8fe5..6d468d5 100644
--- a/include/boost/sync/detail/time_units.hpp
+++ b/include/boost/sync/detail/time_units.hpp
@@ -15,6 +15,7 @@
 #define BOOST_SYNC_DETAIL_TIME_UNITS_HPP_INCLUDED_
 
 #include <time.h>
+#include <limits>
 #include <boost/cstdint.hpp>
 #include <boost/sync/detail/config.hpp>
 #include <boost/sync/detail/time_traits.hpp>
@@ -241,6 +242,18 @@ public:
 
     friend system_duration operator- (system_time_point const& left, system_time_point const& right) BOOST_NOEXCEPT
     {
+        // Saturate the difference if it cannot be represented in nanoseconds
+        uint64_t const max_seconds = static_cast< uint64_t >((std::numeric_limits< int64_t >::max)()) / system_duration::subsecond_fraction - 1u;
+        if (left.m_value.tv_sec >= right.m_value.tv_sec)
+        {
+            if (static_cast< uint64_t >(left.m_value.tv_sec) - static_cast< uint64_t >(right.m_value.tv_sec) > max_seconds)
+                return system_duration((std::numeric_limits< int64_t >::max)());
+        }
+        else if (static_cast< uint64_t >(right.m_value.tv_sec) - static_cast< uint64_t >(left.m_value.tv_sec) > max_seconds)
+        {
+            return system_duration((std::numeric_limits< int64_t >::min)());
+        }
+
         int64_t seconds = static_cast< int64_t >(left.m_value.tv_sec) - static_cast< int64_t >(right.m_value.tv_sec);
         int64_t nseconds = static_cast< int64_t >(left.m_value.tv_nsec) - static_cast< int64_t >(right.m_value.tv_nsec);
         return system_duration(seconds * system_duration::subsecond_fraction + nseconds);
diff --git a/include/boost/sync/support/boost_chrono.hpp b/include/boost/sync/support/boost_chrono.hpp
index d8c7c01..a21bb44 100644
--- a/include/boost/sync/support/boost_chrono.hpp
+++ b/include/boost/sync/support/boost_chrono.hpp
@@ -13,6 +13,7 @@
 #ifndef BOOST_SYNC_SUPPORT_BOOST_CHRONO_HPP_INCLUDED_
 #define BOOST_SYNC_SUPPORT_BOOST_CHRONO_HPP_INCLUDED_
 
+#include <limits>
 #include <boost/ratio/ratio.hpp>
 #include <boost/chrono/duration.hpp>
 #include <boost/chrono/time_point.hpp>
@@ -43,6 +44,13 @@ struct time_traits< boost::chrono::duration< Rep, Period > >
     static system_duration to_sync_unit(boost::chrono::duration< Rep, Period > const& dur) BOOST_NOEXCEPT
     {
         typedef boost::chrono::duration< system_duration::native_type, boost::ratio< 1, system_duration::subsecond_fraction > > system_chrono_duration;
+        // Saturate the duration if it cannot be represented in the native units
+        const double max_seconds = static_cast< double >((std::numeric_limits< system_duration::native_type >::max)() / static_cast< system_duration::native_type >(system_duration::subsecond_fraction));
+        const double seconds = boost::chrono::duration_cast< boost::chrono::duration< double > >(dur).count();
+        if (seconds >= max_seconds)
+            return system_duration((std::numeric_limits< system_duration::native_type >::max)());
+        if (seconds <= -max_seconds)
+            return system_duration((std::numeric_limits< system_duration::native_type >::min)());
         return system_duration(boost::chrono::duration_cast< system_chrono_duration >(dur).count());
     }
 };
diff --git a/include/boost/sync/support/boost_date_time.hpp b/include/boost/sync/support/boost_date_time.hpp
index 68611aa..e91aab8 100644
--- a/include/boost/sync/support/boost_date_time.hpp
+++ b/include/boost/sync/support/boost_date_time.hpp
@@ -13,6 +13,7 @@
 #ifndef BOOST_SYNC_SUPPORT_BOOST_DATE_TIME_HPP_INCLUDED_
 #define BOOST_SYNC_SUPPORT_BOOST_DATE_TIME_HPP_INCLUDED_
 
+#include <limits>
 #include <boost/assert.hpp>
 #include <boost/cstdint.hpp>
 #include <boost/date_time/posix_time/posix_time_types.hpp>
@@ -50,8 +51,16 @@ struct time_traits< T, typename T::_is_boost_date_time_duration >
                 traits_type::ticks_per_second / system_duration::subsecond_fraction :
                 system_duration::subsecond_fraction / traits_type::ticks_per_second
         };
-        return system_duration(static_cast< uint64_t >(traits_type::ticks_per_second) >= system_duration::subsecond_fraction ?
-            dur.ticks() / conversion_ratio : dur.ticks() * conversion_ratio);
+        const system_duration::native_type ticks = dur.ticks();
+        if (static_cast< uint64_t >(traits_type::ticks_per_second) >= system_duration::subsecond_fraction)
+            return system_duration(ticks / conversion_ratio);
+
+        // Saturate the duration if it cannot be represented in the native units
+        if (ticks > (std::numeric_limits< system_duration::native_type >::max)() / conversion_ratio)
+            return system_duration((std::numeric_limits< system_duration::native_type >::max)());
+        if (ticks < (std::numeric_limits< system_duration::native_type >::min)() / conversion_ratio)
+            return system_duration((std::numeric_limits< system_duration::native_type >::min)());
+        return system_duration(ticks * conversion_ratio);
     }
 };
 
diff --git a/include/boost/sync/support/std_chrono.hpp b/include/boost/sync/support/std_chrono.hpp
index 244351c..d3f4822 100644
--- a/include/boost/sync/support/std_chrono.hpp
+++ b/include/boost/sync/support/std_chrono.hpp
@@ -15,6 +15,7 @@
 
 #include <ratio>
 #include <chrono>
+#include <limits>
 #include <type_traits>
 #include <boost/sync/detail/config.hpp>
 #include <boost/sync/detail/time_traits.hpp>
@@ -42,6 +43,13 @@ struct time_traits< std::chrono::duration< Rep, Period > >
     static system_duration to_sync_unit(std::chrono::duration< Rep, Period > const& dur) BOOST_NOEXCEPT
     {
         typedef std::chrono::duration< system_duration::native_type, std::ratio< 1, system_duration::subsecond_fraction > > system_chrono_duration;
+        // Saturate the duration if it cannot be represented in the native units
+        const double max_seconds = static_cast< double >((std::numeric_limits< system_duration::native_type >::max)() / static_cast< system_duration::native_type >(system_duration::subsecond_fraction));
+        const double seconds = std::chrono::duration_cast< std::chrono::duration< double > >(dur).count();
+        if (seconds >= max_seconds)
+            return system_duration((std::numeric_limits< system_duration::native_type >::max)());
+        if (seconds <= -max_seconds)
+            return system_duration((std::numeric_limits< system_duration::native_type >::min)());
         return system_duration(std::chrono::duration_cast< system_chrono_duration >(dur).count());
     }
 };
-- 
2.43.0


From 548142ecdbe320d448d5ce09c9a052827bd9cb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:11 +0000
Subject: [PATCH 30/30] fix: do not wait for a time point of an arbitrary clock
 in the distant past

---
 include/boost/sync/detail/events/auto_reset_event_futex.hpp   | 2 +-
 include/boost/sync/detail/events/basic_event_windows.hpp      | 2 +-
 include/boost/sync/detail/events/manual_reset_event_futex.hpp | 2 +-
 include/boost/sync/detail/semaphore/basic_semaphore_mach.hpp  | 2 +-
 include/boost/sync/detail/semaphore/semaphore_dispatch.hpp    | 2 +-
 include/boost/sync/detail/semaphore/semaphore_posix.hpp       | 2 +-
 include/boost/sync/detail/semaphore/semaphore_windows.hpp     | 2 +-
 include/boost/sync/detail/time_units.hpp                      | 3 +++
 8 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index 5a94b30..a9c666a 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -239,7 +239,7 @@ private:
         time_point now = clock::now();
         do
         {
-            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.time_left(now))))
                 return true;
             now = clock::now();
         }
diff --git a/include/boost/sync/detail/events/basic_event_windows.hpp b/include/boost/sync/detail/events/basic_event_windows.hpp
index 0a78185..5ed5de5 100644
--- a/include/boost/sync/detail/events/basic_event_windows.hpp
+++ b/include/boost/sync/detail/events/basic_event_windows.hpp
@@ -177,7 +177,7 @@ public:
         time_point now = clock::now();
         do
         {
-            if (timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.time_left(now))))
                 return true;
             now = clock::now();
         }
diff --git a/include/boost/sync/detail/events/manual_reset_event_futex.hpp b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
index 22ee3e9..c464504 100644
--- a/include/boost/sync/detail/events/manual_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
@@ -157,7 +157,7 @@ private:
         time_point now = clock::now();
         do
         {
-            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.time_left(now))))
                 return true;
             now = clock::now();
         }
diff --git a/include/boost/sync/detail/semaphore/basic_semaphore_mach.hpp b/include/boost/sync/detail/semaphore/basic_semaphore_mach.hpp
index 19ee1e0..e2c6744 100644
--- a/include/boost/sync/detail/semaphore/basic_semaphore_mach.hpp
+++ b/include/boost/sync/detail/semaphore/basic_semaphore_mach.hpp
@@ -140,7 +140,7 @@ public:
         time_point now = clock::now();
         while (now < t.get())
         {
-            if (timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.time_left(now))))
                 return true;
             now = clock::now();
         }
diff --git a/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp b/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
index 2a6c873..bb9d56c 100644
--- a/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_dispatch.hpp
@@ -135,7 +135,7 @@ private:
         time_point now = clock::now();
         do
         {
-            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.time_left(now))))
                 return true;
             now = clock::now();
         } while (now < t.get());
diff --git a/include/boost/sync/detail/semaphore/semaphore_posix.hpp b/include/boost/sync/detail/semaphore/semaphore_posix.hpp
index 9456a5c..4cb4049 100644
--- a/include/boost/sync/detail/semaphore/semaphore_posix.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_posix.hpp
@@ -180,7 +180,7 @@ private:
         time_point now = clock::now();
         do
         {
-            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.time_left(now))))
                 return true;
             now = clock::now();
         } while (now < t.get());
diff --git a/include/boost/sync/detail/semaphore/semaphore_windows.hpp b/include/boost/sync/detail/semaphore/semaphore_windows.hpp
index 657afce..dab146a 100644
--- a/include/boost/sync/detail/semaphore/semaphore_windows.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_windows.hpp
@@ -185,7 +185,7 @@ private:
         time_point now = clock::now();
         do
         {
-            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.time_left(now))))
                 return true;
             now = clock::now();
         }
diff --git a/include/boost/sync/detail/time_units.hpp b/include/boost/sync/detail/time_units.hpp
index 6d468d5..0f38fba 100644
--- a/include/boost/sync/detail/time_units.hpp
+++ b/include/boost/sync/detail/time_units.hpp
@@ -303,6 +303,9 @@ public:
 
     time_point const& get() const { return m_value; }
 
+    //! Returns the time left until the time point or zero if it has passed. In the latter case the difference may not be representable.
+    duration time_left(time_point const& now) const { return now < m_value ? static_cast< duration >(m_value - now) : duration::zero(); }
+
     static chrono_time_point now() { return chrono_time_point(clock::now()); }
 
     chrono_time_point& operator+= (duration const& dur)
-- 
2.43.0

