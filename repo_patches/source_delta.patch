From 088a3233343619fbeab2f018c1d6819819c77048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:14 +0000
Subject: [PATCH 01/24] fix: keep the scheduling algorithm alive across a
 remote wakeup

schedule_from_remote() released remote_ready_splk_ and then used algo_: the
owning thread may by then have resumed the context, finished and destroyed
its scheduler together with the algorithm.
---
 src/scheduler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 69ae61c..2efa8ab 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -206,11 +206,14 @@ scheduler::schedule_from_remote( context * ctx) noexcept {
     BOOST_ASSERT( ! shutdown_);
     BOOST_ASSERT( nullptr != main_ctx_);
     BOOST_ASSERT( nullptr != dispatcher_ctx_.get() );
+    // keep the sched-algorithm alive: as soon as the lock is released the
+    // owning thread might resume ctx, terminate and destroy this scheduler
+    algo::algorithm::ptr_t algo{ algo_ };
     // push new context to remote ready-queue
     ctx->remote_ready_link( remote_ready_queue_);
     lk.unlock();
     // notify scheduler
-    algo_->notify();
+    algo->notify();
 }
 #endif
 
-- 
2.43.0


From 5d3902edd00c2fb7fc49d087b4f3422b02df2684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:18 +0000
Subject: [PATCH 02/24] fix: do not lose the notification of a waiter resumed
 after its deadline

A fiber notified while blocked in a timed wait, but resumed only after the
deadline, reported a timeout although it had been removed from the wait-queue:
the notification (mutex hand-over, channel slot, notify_one) was lost and other
waiters stayed blocked.  timed mutexes test for ownership before the deadline,
as documented (an expired deadline behaves as try_lock).
---
 include/boost/fiber/waker.hpp |  4 ++++
 src/recursive_timed_mutex.cpp |  6 +++---
 src/timed_mutex.cpp           |  6 +++---
 src/waker.cpp                 | 18 ++++++++++++++----
 4 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/include/boost/fiber/waker.hpp b/include/boost/fiber/waker.hpp
index 7ee8459..d6d9138 100644
--- a/include/boost/fiber/waker.hpp
+++ b/include/boost/fiber/waker.hpp
@@ -49,6 +49,10 @@ public:
         return waker_queue_hook_.is_linked();
     }
 
+    // set (protected by the lock of the wait-queue) if this waker was
+    // removed from the wait-queue by a notification that resumes the fiber
+    bool notified_{ false };
+
     friend bool
     operator==( waker const& lhs, waker const& rhs) noexcept {
         return & lhs == & rhs;
diff --git a/src/recursive_timed_mutex.cpp b/src/recursive_timed_mutex.cpp
index 5958c72..3d01236 100644
--- a/src/recursive_timed_mutex.cpp
+++ b/src/recursive_timed_mutex.cpp
@@ -22,9 +22,6 @@ namespace fibers {
 bool
 recursive_timed_mutex::try_lock_until_( std::chrono::steady_clock::time_point const& timeout_time) noexcept {
     while ( true) {
-        if ( std::chrono::steady_clock::now() > timeout_time) {
-            return false;
-        }
         context * active_ctx = context::active();
         // store this fiber in order to be notified later
         detail::spinlock_lock lk{ wait_queue_splk_ };
@@ -37,6 +34,9 @@ recursive_timed_mutex::try_lock_until_( std::chrono::steady_clock::time_point co
             count_ = 1;
             return true;
         }
+        if ( std::chrono::steady_clock::now() > timeout_time) {
+            return false;
+        }
         if ( ! wait_queue_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {
             return false;
         }
diff --git a/src/timed_mutex.cpp b/src/timed_mutex.cpp
index d0482c5..fa98514 100644
--- a/src/timed_mutex.cpp
+++ b/src/timed_mutex.cpp
@@ -22,15 +22,15 @@ namespace fibers {
 bool
 timed_mutex::try_lock_until_( std::chrono::steady_clock::time_point const& timeout_time) noexcept {
     while ( true) {
-        if ( std::chrono::steady_clock::now() > timeout_time) {
-            return false;
-        }
         context * active_ctx = context::active();
         detail::spinlock_lock lk{ wait_queue_splk_ };
         if ( nullptr == owner_) {
             owner_ = active_ctx;
             return true;
         }
+        if ( std::chrono::steady_clock::now() > timeout_time) {
+            return false;
+        }
         if ( ! wait_queue_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {
             return false;
         }
diff --git a/src/waker.cpp b/src/waker.cpp
index 1444dea..523408e 100644
--- a/src/waker.cpp
+++ b/src/waker.cpp
@@ -40,8 +40,11 @@ wait_queue::suspend_and_wait_until( detail::spinlock_lock & lk,
         if ( w.is_linked()) {
             slist_.remove( w);
         }
+        // the fiber might have been notified before, but resumed after the
+        // deadline: the notification must not get lost
+        const bool notified = w.notified_;
         lk.unlock();
-        return false;
+        return notified;
     }
     return true;
 }
@@ -49,20 +52,27 @@ wait_queue::suspend_and_wait_until( detail::spinlock_lock & lk,
 void
 wait_queue::notify_one() {
     while ( ! slist_.empty() ) {
-        waker & w = slist_.front();
+        waker_with_hook & w = slist_.front();
         slist_.pop_front();
+        // after wake() succeeded `w` must not be accessed anymore
+        w.notified_ = true;
         if ( w.wake()) {
             break;
         }
+        w.notified_ = false;
     }
 }
 
 void
 wait_queue::notify_all() {
     while ( ! slist_.empty() ) {
-        waker & w = slist_.front();
+        waker_with_hook & w = slist_.front();
         slist_.pop_front();
-        w.wake();
+        // after wake() succeeded `w` must not be accessed anymore
+        w.notified_ = true;
+        if ( ! w.wake()) {
+            w.notified_ = false;
+        }
     }
 }
 
-- 
2.43.0


From 690d62ae6dbd9b7d25c243800110e18283083249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:18 +0000
Subject: [PATCH 03/24] fix: read the owner of a mutex in try_lock() only under
 its lock

try_lock() compared owner_ after releasing the spinlock, racing with lock()
and unlock() of fibers running on other threads.
---
 src/mutex.cpp                 | 5 +++--
 src/recursive_mutex.cpp       | 3 ++-
 src/recursive_timed_mutex.cpp | 3 ++-
 src/timed_mutex.cpp           | 5 +++--
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/mutex.cpp b/src/mutex.cpp
index 7b06451..557a7c7 100644
--- a/src/mutex.cpp
+++ b/src/mutex.cpp
@@ -50,13 +50,14 @@ mutex::try_lock() {
                 std::make_error_code( std::errc::resource_deadlock_would_occur),
                 "boost fiber: a deadlock is detected" };
     }
-    if ( nullptr == owner_) {
+    const bool owned = nullptr == owner_;
+    if ( owned) {
         owner_ = active_ctx;
     }
     lk.unlock();
     // let other fiber release the lock
     active_ctx->yield();
-    return active_ctx == owner_;
+    return owned;
 }
 
 void
diff --git a/src/recursive_mutex.cpp b/src/recursive_mutex.cpp
index 9358066..5dfbf24 100644
--- a/src/recursive_mutex.cpp
+++ b/src/recursive_mutex.cpp
@@ -49,10 +49,11 @@ recursive_mutex::try_lock() noexcept {
     } else if ( active_ctx == owner_) {
         ++count_;
     }
+    const bool owned = active_ctx == owner_;
     lk.unlock();
     // let other fiber release the lock
     context::active()->yield();
-    return active_ctx == owner_;
+    return owned;
 }
 
 void
diff --git a/src/recursive_timed_mutex.cpp b/src/recursive_timed_mutex.cpp
index 3d01236..8bc6d37 100644
--- a/src/recursive_timed_mutex.cpp
+++ b/src/recursive_timed_mutex.cpp
@@ -72,10 +72,11 @@ recursive_timed_mutex::try_lock() noexcept {
     } else if ( active_ctx == owner_) {
         ++count_;
     }
+    const bool owned = active_ctx == owner_;
     lk.unlock();
     // let other fiber release the lock
     active_ctx->yield();
-    return active_ctx == owner_;
+    return owned;
 }
 
 void
diff --git a/src/timed_mutex.cpp b/src/timed_mutex.cpp
index fa98514..b70e5d3 100644
--- a/src/timed_mutex.cpp
+++ b/src/timed_mutex.cpp
@@ -65,13 +65,14 @@ timed_mutex::try_lock() {
                 std::make_error_code( std::errc::resource_deadlock_would_occur),
                 "boost fiber: a deadlock is detected" };
     }
-    if ( nullptr == owner_) {
+    const bool owned = nullptr == owner_;
+    if ( owned) {
         owner_ = active_ctx;
     }
     lk.unlock();
     // let other fiber release the lock
     active_ctx->yield();
-    return active_ctx == owner_;
+    return owned;
 }
 
 void
-- 
2.43.0


From 040efef13649aa3d84dd1dc926a34ec2a1faac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 04/24] fix: make the outcome of an unbuffered_channel push
 agree with what happened to its value

The producer decided by closed_/deadline instead of by what happened to its
slot: a consumed value was reported as closed or timeout, a closed channel
kept a pointer to the slot of a producer already gone, a producer with an
expired deadline freed a slot a consumer was reading, close() missed a slot
published concurrently (producer suspended forever), and a slot freed by an
expired deadline was not announced to waiting producers.
---
 include/boost/fiber/unbuffered_channel.hpp | 140 ++++++++++++---------
 1 file changed, 78 insertions(+), 62 deletions(-)

diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index 4b8c807..7becfdc 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -40,9 +40,18 @@ public:
     using value_type = typename std::remove_reference<T>::type;
 
 private:
+    enum class slot_state {
+        pending,
+        consumed,
+        rejected
+    };
+
     struct slot {
-        value_type  value;
-        waker       w;
+        value_type                  value;
+        waker                       w;
+        // set as the very last access to the slot by that one (consumer or
+        // close()) that took it out of the channel
+        std::atomic< slot_state >   state{ slot_state::pending };
 
         slot( value_type const& value_, waker && w) :
             value{ value_ },
@@ -94,6 +103,39 @@ private:
         }
     }
 
+    // wake the producer of a slot taken out of the channel; after that the
+    // slot must not be accessed anymore
+    void release_( slot * s, slot_state state) noexcept {
+        {
+            // the producer holds the lock till it is suspended
+            detail::spinlock_lock lk{ splk_consumers_ };
+            s->w.wake();
+        }
+        s->state.store( state, std::memory_order_release);
+    }
+
+    // called by the producer of `own_slot` after it was resumed
+    channel_op_status finish_push_( slot * own_slot) {
+        slot * s = own_slot;
+        if ( slot_.compare_exchange_strong( s, nullptr, std::memory_order_acq_rel) ) {
+            // value has not been consumed, slot is free again
+            detail::spinlock_lock lk{ splk_producers_ };
+            waiting_producers_.notify_one();
+            return is_closed()
+                ? channel_op_status::closed
+                : channel_op_status::timeout;
+        }
+        // slot was taken, it might still be in use
+        slot_state state = own_slot->state.load( std::memory_order_acquire);
+        while ( slot_state::pending == state) {
+            context::active()->yield();
+            state = own_slot->state.load( std::memory_order_acquire);
+        }
+        return slot_state::consumed == state
+            ? channel_op_status::success
+            : channel_op_status::closed;
+    }
+
 public:
     unbuffered_channel() = default;
 
@@ -111,17 +153,19 @@ public:
     void close() noexcept {
         // set flag
         if ( ! closed_.exchange( true, std::memory_order_acquire) ) {
-            // notify current waiting  
-            slot * s = slot_.load( std::memory_order_acquire);
+            {
+                detail::spinlock_lock lk{ splk_producers_ };
+                waiting_producers_.notify_all();
+            }
+            {
+                detail::spinlock_lock lk{ splk_consumers_ };
+                waiting_consumers_.notify_all();
+            }
+            // reject value of current waiting producer
+            slot * s = try_pop_();
             if ( nullptr != s) {
-                // notify context
-                s->w.wake();
+                release_( s, slot_state::rejected);
             }
-            detail::spinlock_lock lk1{ splk_producers_ };
-            waiting_producers_.notify_all();
-
-            detail::spinlock_lock lk2{ splk_consumers_ };
-            waiting_consumers_.notify_all();
         }
     }
 
@@ -129,23 +173,19 @@ public:
         context * active_ctx = context::active();
         slot s{ value, {} };
         for (;;) {
+            s.w = active_ctx->create_waker();
+            detail::spinlock_lock lk_consumers{ splk_consumers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
                 return channel_op_status::closed;
             }
-            s.w = active_ctx->create_waker();
             if ( try_push_( & s) ) {
-                detail::spinlock_lock lk{ splk_consumers_ };
                 waiting_consumers_.notify_one();
                 // suspend till value has been consumed
-                active_ctx->suspend( lk);
+                active_ctx->suspend( lk_consumers);
                 // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
-                    // channel was closed before value was consumed
-                    return channel_op_status::closed;
-                }
-                // value has been consumed
-                return channel_op_status::success;
+                return finish_push_( & s);
             }
+            lk_consumers.unlock();
             detail::spinlock_lock lk{ splk_producers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
                 return channel_op_status::closed;
@@ -163,23 +203,19 @@ public:
         context * active_ctx = context::active();
         slot s{ std::move( value), {} };
         for (;;) {
+            s.w = active_ctx->create_waker();
+            detail::spinlock_lock lk_consumers{ splk_consumers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
                 return channel_op_status::closed;
             }
-            s.w = active_ctx->create_waker();
             if ( try_push_( & s) ) {
-                detail::spinlock_lock lk{ splk_consumers_ };
                 waiting_consumers_.notify_one();
                 // suspend till value has been consumed
-                active_ctx->suspend( lk);
+                active_ctx->suspend( lk_consumers);
                 // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
-                    // channel was closed before value was consumed
-                    return channel_op_status::closed;
-                }
-                // value has been consumed
-                return channel_op_status::success;
+                return finish_push_( & s);
             }
+            lk_consumers.unlock();
             detail::spinlock_lock lk{ splk_producers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
                 return channel_op_status::closed;
@@ -213,29 +249,19 @@ public:
         slot s{ value, {} };
         std::chrono::steady_clock::time_point timeout_time = detail::convert( timeout_time_);
         for (;;) {
+            s.w = active_ctx->create_waker();
+            detail::spinlock_lock lk_consumers{ splk_consumers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
                 return channel_op_status::closed;
             }
-            s.w = active_ctx->create_waker();
             if ( try_push_( & s) ) {
-                detail::spinlock_lock lk{ splk_consumers_ };
                 waiting_consumers_.notify_one();
                 // suspend this producer
-                if ( ! active_ctx->wait_until(timeout_time, lk, waker(s.w))) {
-                    // clear slot
-                    slot * nil_slot = nullptr, * own_slot = & s;
-                    slot_.compare_exchange_strong( own_slot, nil_slot, std::memory_order_acq_rel);
-                    // resumed, value has not been consumed
-                    return channel_op_status::timeout;
-                }
+                active_ctx->wait_until(timeout_time, lk_consumers, waker(s.w));
                 // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
-                    // channel was closed before value was consumed
-                    return channel_op_status::closed;
-                }
-                // value has been consumed
-                return channel_op_status::success;
+                return finish_push_( & s);
             }
+            lk_consumers.unlock();
             detail::spinlock_lock lk{ splk_producers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
                 return channel_op_status::closed;
@@ -259,29 +285,19 @@ public:
         slot s{ std::move( value), {} };
         std::chrono::steady_clock::time_point timeout_time = detail::convert( timeout_time_);
         for (;;) {
+            s.w = active_ctx->create_waker();
+            detail::spinlock_lock lk_consumers{ splk_consumers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
                 return channel_op_status::closed;
             }
-            s.w = active_ctx->create_waker();
             if ( try_push_( & s) ) {
-                detail::spinlock_lock lk{ splk_consumers_ };
                 waiting_consumers_.notify_one();
                 // suspend this producer
-                if ( ! active_ctx->wait_until(timeout_time, lk, waker(s.w))) {
-                    // clear slot
-                    slot * nil_slot = nullptr, * own_slot = & s;
-                    slot_.compare_exchange_strong( own_slot, nil_slot, std::memory_order_acq_rel);
-                    // resumed, value has not been consumed
-                    return channel_op_status::timeout;
-                }
+                active_ctx->wait_until(timeout_time, lk_consumers, waker(s.w));
                 // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
-                    // channel was closed before value was consumed
-                    return channel_op_status::closed;
-                }
-                // value has been consumed
-                return channel_op_status::success;
+                return finish_push_( & s);
             }
+            lk_consumers.unlock();
             detail::spinlock_lock lk{ splk_producers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
                 return channel_op_status::closed;
@@ -308,7 +324,7 @@ public:
                 }
                 value = std::move( s->value);
                 // notify context
-                s->w.wake();
+                release_( s, slot_state::consumed);
                 return channel_op_status::success;
             }
             detail::spinlock_lock lk{ splk_consumers_ };
@@ -335,7 +351,7 @@ public:
                 // consume value
                 value_type value = std::move( s->value);
                 // notify context
-                s->w.wake();
+                release_( s, slot_state::consumed);
                 return std::move( value);
             }
             detail::spinlock_lock lk{ splk_consumers_ };
@@ -374,7 +390,7 @@ public:
                 // consume value
                 value = std::move( s->value);
                 // notify context
-                s->w.wake();
+                release_( s, slot_state::consumed);
                 return channel_op_status::success;
             }
             detail::spinlock_lock lk{ splk_consumers_ };
-- 
2.43.0


From 3dc488f8104016063be0c0c6e0963988f074c913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 05/24] fix: destroy each element read through a channel
 iterator exactly once

operator++ destroyed the current element twice, leaving a loop early never
destroyed it, and a copied iterator referred to an element that was never
constructed.
---
 include/boost/fiber/buffered_channel.hpp   | 77 +++++++++++++++------
 include/boost/fiber/unbuffered_channel.hpp | 78 ++++++++++++++++------
 2 files changed, 117 insertions(+), 38 deletions(-)

diff --git a/include/boost/fiber/buffered_channel.hpp b/include/boost/fiber/buffered_channel.hpp
index 492486d..82f4644 100644
--- a/include/boost/fiber/buffered_channel.hpp
+++ b/include/boost/fiber/buffered_channel.hpp
@@ -361,15 +361,39 @@ public:
         buffered_channel    *   chan_{ nullptr };
         storage_type            storage_;
 
-        void increment_( bool initial = false) {
-            BOOST_ASSERT( nullptr != chan_);
+        // storage_ contains a value as long as chan_ != nullptr
+        value_type * value_() const noexcept {
+            return reinterpret_cast< value_type * >( const_cast< storage_type * >( std::addressof( storage_) ) );
+        }
+
+        void reset_() noexcept {
+            if ( nullptr != chan_) {
+                value_()->~value_type();
+                chan_ = nullptr;
+            }
+        }
+
+        void copy_( iterator const& other) {
+            if ( nullptr != other.chan_) {
+                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type( * other.value_() );
+                chan_ = other.chan_;
+            }
+        }
+
+        void move_( iterator & other) {
+            if ( nullptr != other.chan_) {
+                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type( std::move( * other.value_() ) );
+                chan_ = other.chan_;
+            }
+        }
+
+        void increment_( buffered_channel< T > * chan) {
+            BOOST_ASSERT( nullptr != chan);
+            reset_();
             try {
-                if ( ! initial) {
-                    reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
-                }
-                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ chan_->value_pop() };
+                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ chan->value_pop() };
+                chan_ = chan;
             } catch ( fiber_error const&) {
-                chan_ = nullptr;
             }
         }
 
@@ -384,18 +408,34 @@ public:
 
         iterator() = default;
 
-        explicit iterator( buffered_channel< T > * chan) noexcept :
-            chan_{ chan } {
-            increment_( true);
+        explicit iterator( buffered_channel< T > * chan) {
+            increment_( chan);
         }
 
-        iterator( iterator const& other) noexcept :
-            chan_{ other.chan_ } {
+        iterator( iterator const& other) {
+            copy_( other);
         }
 
-        iterator & operator=( iterator const& other) noexcept {
-            if ( BOOST_LIKELY( this != & other) ) {
-                chan_ = other.chan_;
+        iterator( iterator && other) {
+            move_( other);
+        }
+
+        ~iterator() {
+            reset_();
+        }
+
+        iterator & operator=( iterator const& other) {
+            if ( this != & other) {
+                reset_();
+                copy_( other);
+            }
+            return * this;
+        }
+
+        iterator & operator=( iterator && other) {
+            if ( this != & other) {
+                reset_();
+                move_( other);
             }
             return * this;
         }
@@ -409,19 +449,18 @@ public:
         }
 
         iterator & operator++() {
-            reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
-            increment_();
+            increment_( chan_);
             return * this;
         }
 
         const iterator operator++( int) = delete;
 
         reference_t operator*() noexcept {
-            return * reinterpret_cast< value_type * >( std::addressof( storage_) );
+            return * value_();
         }
 
         pointer_t operator->() noexcept {
-            return reinterpret_cast< value_type * >( std::addressof( storage_) );
+            return value_();
         }
     };
 
diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index 7becfdc..99630aa 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -413,15 +413,39 @@ public:
         unbuffered_channel  *   chan_{ nullptr };
         storage_type            storage_;
 
-        void increment_( bool initial = false) {
-            BOOST_ASSERT( nullptr != chan_);
+        // storage_ contains a value as long as chan_ != nullptr
+        value_type * value_() const noexcept {
+            return reinterpret_cast< value_type * >( const_cast< storage_type * >( std::addressof( storage_) ) );
+        }
+
+        void reset_() noexcept {
+            if ( nullptr != chan_) {
+                value_()->~value_type();
+                chan_ = nullptr;
+            }
+        }
+
+        void copy_( iterator const& other) {
+            if ( nullptr != other.chan_) {
+                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type( * other.value_() );
+                chan_ = other.chan_;
+            }
+        }
+
+        void move_( iterator & other) {
+            if ( nullptr != other.chan_) {
+                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type( std::move( * other.value_() ) );
+                chan_ = other.chan_;
+            }
+        }
+
+        void increment_( unbuffered_channel< T > * chan) {
+            BOOST_ASSERT( nullptr != chan);
+            reset_();
             try {
-                if ( ! initial) {
-                    reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
-                }
-                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ chan_->value_pop() };
+                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ chan->value_pop() };
+                chan_ = chan;
             } catch ( fiber_error const&) {
-                chan_ = nullptr;
             }
         }
 
@@ -436,18 +460,35 @@ public:
 
         iterator() = default;
 
-        explicit iterator( unbuffered_channel< T > * chan) noexcept :
-            chan_{ chan } {
-            increment_( true);
+        explicit iterator( unbuffered_channel< T > * chan) {
+            increment_( chan);
+        }
+
+        iterator( iterator const& other) {
+            copy_( other);
+        }
+
+        iterator( iterator && other) {
+            move_( other);
         }
 
-        iterator( iterator const& other) noexcept :
-            chan_{ other.chan_ } {
+        ~iterator() {
+            reset_();
         }
 
-        iterator & operator=( iterator const& other) noexcept {
-            if ( this == & other) return * this;
-            chan_ = other.chan_;
+        iterator & operator=( iterator const& other) {
+            if ( this != & other) {
+                reset_();
+                copy_( other);
+            }
+            return * this;
+        }
+
+        iterator & operator=( iterator && other) {
+            if ( this != & other) {
+                reset_();
+                move_( other);
+            }
             return * this;
         }
 
@@ -460,19 +501,18 @@ public:
         }
 
         iterator & operator++() {
-            reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
-            increment_();
+            increment_( chan_);
             return * this;
         }
 
         const iterator operator++( int) = delete;
 
         reference_t operator*() noexcept {
-            return * reinterpret_cast< value_type * >( std::addressof( storage_) );
+            return * value_();
         }
 
         pointer_t operator->() noexcept {
-            return reinterpret_cast< value_type * >( std::addressof( storage_) );
+            return value_();
         }
     };
 
-- 
2.43.0


From 77579ae22c5d71f34a16bf7ce31db980622d1826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 06/24] fix: packaged_task::reset() abandons the previous
 shared state

A future obtained before reset() was left waiting forever instead of
receiving broken_promise.
---
 include/boost/fiber/future/packaged_task.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/fiber/future/packaged_task.hpp b/include/boost/fiber/future/packaged_task.hpp
index 10cef3c..4bf8c0f 100644
--- a/include/boost/fiber/future/packaged_task.hpp
+++ b/include/boost/fiber/future/packaged_task.hpp
@@ -128,6 +128,8 @@ public:
         packaged_task tmp;
         tmp.task_ = task_;
         task_ = tmp.task_->reset();
+        // abandon the previous shared state
+        tmp.obtained_ = obtained_;
         obtained_ = false;
     }
 };
-- 
2.43.0


From a005288926f433469be22c729c9f648c5f95b82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 07/24] fix: allow a remote wakeup of a fiber whose thread is
 shutting down

A thread that terminates runs its detached fibers to completion; while it
does, another thread may legitimately wake one of them. The assertion
aborted the program in that case (and read shutdown_ without
synchronization).
---
 src/scheduler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 2efa8ab..731d9df 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -202,8 +202,9 @@ scheduler::schedule_from_remote( context * ctx) noexcept {
     BOOST_ASSERT( ! ctx->remote_ready_is_linked() );
     BOOST_ASSERT( ! ctx->terminated_is_linked() );
     // protect for concurrent access
+    // note: the owning thread might already be shutting down, it still waits
+    // for its (detached) fibers and they might be woken up by other threads
     detail::spinlock_lock lk{ remote_ready_splk_ };
-    BOOST_ASSERT( ! shutdown_);
     BOOST_ASSERT( nullptr != main_ctx_);
     BOOST_ASSERT( nullptr != dispatcher_ctx_.get() );
     // keep the sched-algorithm alive: as soon as the lock is released the
-- 
2.43.0


From 1a290741c53c4d887375e454b9b2e00600851f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:04 +0000
Subject: [PATCH 08/24] fix: do not access a context in the SPMC queue before
 it has been stolen

context_spmc_queue::steal() asked the context at the top of the queue
whether it is pinned before it won the race for that slot. Another thread
might have dequeued, executed and destroyed the context in the meantime.
Remember the property in the slot instead.
---
 .../boost/fiber/detail/context_spmc_queue.hpp | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/include/boost/fiber/detail/context_spmc_queue.hpp b/include/boost/fiber/detail/context_spmc_queue.hpp
index 5f906cf..f031d7d 100644
--- a/include/boost/fiber/detail/context_spmc_queue.hpp
+++ b/include/boost/fiber/detail/context_spmc_queue.hpp
@@ -43,7 +43,8 @@ class context_spmc_queue {
 private:
     class array {
     private:
-        typedef std::atomic< context * >                atomic_type;
+        // address of the context; the lowest bit is set if the context is pinned
+        typedef std::atomic< std::uintptr_t >           atomic_type;
         typedef atomic_type                             storage_type; 
 
         std::size_t         capacity_;
@@ -54,7 +55,7 @@ private:
             capacity_{ capacity },
             storage_{ new storage_type[capacity_] } {
             for ( std::size_t i = 0; i < capacity_; ++i) {
-                ::new ( static_cast< void * >( std::addressof( storage_[i]) ) ) atomic_type{ nullptr };
+                ::new ( static_cast< void * >( std::addressof( storage_[i]) ) ) atomic_type{ 0 };
             }
         }
 
@@ -69,13 +70,13 @@ private:
             return capacity_;
         }
 
-        void push( std::size_t bottom, context * ctx) noexcept {
+        void push( std::size_t bottom, std::uintptr_t slot) noexcept {
             reinterpret_cast< atomic_type * >(
                 std::addressof( storage_[bottom % capacity_]) )
-                    ->store( ctx, std::memory_order_relaxed);
+                    ->store( slot, std::memory_order_relaxed);
         }
 
-        context * pop( std::size_t top) noexcept {
+        std::uintptr_t pop( std::size_t top) noexcept {
             return reinterpret_cast< atomic_type * >(
                 std::addressof( storage_[top % capacity_]) )
                     ->load( std::memory_order_relaxed);
@@ -130,7 +131,11 @@ public:
             std::swap( a, tmp);
             array_.store( a, std::memory_order_relaxed);
         }
-        a->push( bottom, ctx);
+        std::uintptr_t slot = reinterpret_cast< std::uintptr_t >( ctx);
+        if ( ctx->is_context( type::pinned_context) ) {
+            slot |= 1;
+        }
+        a->push( bottom, slot);
         std::atomic_thread_fence( std::memory_order_release);
         bottom_.store( bottom + 1, std::memory_order_relaxed);
     }
@@ -144,7 +149,7 @@ public:
         context * ctx = nullptr;
         if ( top <= bottom) {
             // queue is not empty
-            ctx = a->pop( bottom);
+            ctx = reinterpret_cast< context * >( a->pop( bottom) & ~ static_cast< std::uintptr_t >( 1) );
             BOOST_ASSERT( nullptr != ctx);
             if ( top == bottom) {
                 // last element dequeued
@@ -171,12 +176,15 @@ public:
         if ( top < bottom) {
             // queue is not empty
             array * a = array_.load( std::memory_order_consume);
-            ctx = a->pop( top);
-            BOOST_ASSERT( nullptr != ctx);
+            std::uintptr_t slot = a->pop( top);
+            BOOST_ASSERT( 0 != slot);
             // do not steal pinned context (e.g. main-/dispatcher-context)
-            if ( ctx->is_context( type::pinned_context) ) {
+            // the context must not be accessed before it is owned: it might
+            // have been dequeued, executed and destroyed in the meantime
+            if ( 0 != ( slot & 1) ) {
                 return nullptr;
             }
+            ctx = reinterpret_cast< context * >( slot);
             if ( ! top_.compare_exchange_strong( top, top + 1,
                                                  std::memory_order_seq_cst,
                                                  std::memory_order_relaxed) ) {
-- 
2.43.0


From f2b71220195c367e0c5078082fc7ba4a651ee653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 09/24] fix: do not register an empty fiber-specific value

fiber_specific_ptr::reset( nullptr), release() and ~fiber_specific_ptr() on a
fiber without a value inserted an entry for nullptr: a custom cleanup function
was later called with nullptr.
---
 src/context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/context.cpp b/src/context.cpp
index 97a45a5..474a495 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -363,7 +363,7 @@ context::set_fss_data( void const * vp,
         } else {
             fss_data_.erase( i);
         }
-    } else {
+    } else if ( nullptr != data) {
         fss_data_.insert(
             std::make_pair(
                 key,
-- 
2.43.0


From 4cca2e643f069a5a682c8b52084fa10e37a51f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 10/24] fix: release the fiber-specific data before the fiber
 is marked terminated

A cleanup function was executed while the context's spinlock was held and after
the joining fibers had been notified: a cleanup function that suspends (e.g.
locks a mutex) blocked the thread forever, and join() could return before the
values were cleaned up.
---
 include/boost/fiber/context.hpp |  2 ++
 src/context.cpp                 | 20 +++++++++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/boost/fiber/context.hpp b/include/boost/fiber/context.hpp
index 82d8484..8dededc 100644
--- a/include/boost/fiber/context.hpp
+++ b/include/boost/fiber/context.hpp
@@ -171,6 +171,8 @@ private:
         policy_{ policy } {
     }
 
+    void release_fss_data_() noexcept;
+
 public:
     class id {
     private:
diff --git a/src/context.cpp b/src/context.cpp
index 474a495..913bc76 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -263,6 +263,10 @@ context::suspend_with_cc() noexcept {
 
 boost::context::fiber
 context::terminate() noexcept {
+    // release fiber-specific-data
+    // must happen before splk_ is locked and the joining fibers are notified,
+    // the cleanup functions might suspend this fiber
+    release_fss_data_();
     // protect for concurrent access
     std::unique_lock< detail::spinlock > lk{ splk_ };
     // mark as terminated
@@ -270,11 +274,6 @@ context::terminate() noexcept {
     // notify all waiting fibers
     wait_queue_.notify_all();
     BOOST_ASSERT( wait_queue_.empty() );
-    // release fiber-specific-data
-    for ( fss_data_t::value_type & data : fss_data_) {
-        data.second.do_cleanup();
-    }
-    fss_data_.clear();
     // switch to another context
     return get_scheduler()->terminate( lk, this);
 }
@@ -371,6 +370,17 @@ context::set_fss_data( void const * vp,
     }
 }
 
+void
+context::release_fss_data_() noexcept {
+    // a cleanup function might access fiber-specific-data too
+    while ( ! fss_data_.empty() ) {
+        fss_data_t::iterator i = fss_data_.begin();
+        fss_data data = i->second;
+        fss_data_.erase( i);
+        data.do_cleanup();
+    }
+}
+
 void
 context::set_properties( fiber_properties * props) noexcept {
     delete properties_;
-- 
2.43.0


From 8fe957944804a073d771e39a60b979fc5fc27e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 11/24] fix: release the fiber-specific data of the main
 context at thread exit

The values stored by the main fiber of a thread were never cleaned up.
---
 src/scheduler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 731d9df..2e0a1c0 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -101,6 +101,9 @@ scheduler::~scheduler() {
     BOOST_ASSERT( nullptr != main_ctx_);
     BOOST_ASSERT( nullptr != dispatcher_ctx_.get() );
     BOOST_ASSERT( context::active() == main_ctx_);
+    // the main-context exits together with its thread, release its
+    // fiber-specific-data
+    main_ctx_->release_fss_data_();
     // signal dispatcher-context termination
     shutdown_ = true;
     // resume pending fibers
-- 
2.43.0


From 472a17c514d96d2c6a63afd344f4dfe8425ffdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 12/24] fix: do not try to steal if there is no other scheduler
 to steal from

With a single thread (or a single logical cpu in the NUMA node) pick_next()
looped forever looking for an id different from its own.
---
 src/algo/work_stealing.cpp      | 3 ++-
 src/numa/algo/work_stealing.cpp | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/algo/work_stealing.cpp b/src/algo/work_stealing.cpp
index ae9ece8..3a8a9fe 100644
--- a/src/algo/work_stealing.cpp
+++ b/src/algo/work_stealing.cpp
@@ -62,7 +62,8 @@ work_stealing::pick_next() noexcept {
         if ( ! victim->is_context( type::pinned_context) ) {
             context::active()->attach( victim);
         }
-    } else {
+    } else if ( 1 < thread_count_) {
+        // there is at least one other scheduler to steal from
         std::uint32_t id = 0;
         std::size_t count = 0, size = schedulers_.size();
         static thread_local std::minstd_rand generator{ std::random_device{}() };
diff --git a/src/numa/algo/work_stealing.cpp b/src/numa/algo/work_stealing.cpp
index d3653d6..4ff27aa 100644
--- a/src/numa/algo/work_stealing.cpp
+++ b/src/numa/algo/work_stealing.cpp
@@ -112,7 +112,8 @@ work_stealing::pick_next() noexcept {
             0, static_cast< std::uint32_t >( local_cpus_.size() - 1) };
         std::uniform_int_distribution< std::uint32_t > remote_distribution{
             0, static_cast< std::uint32_t >( remote_cpus_.size() - 1) };
-        do {
+        // nothing to steal if this is the only logical cpu of the local NUMA node
+        while ( 1 < size && nullptr == victim && count < size) {
             do {
                 ++count;
                 // random selection of one logical cpu
@@ -124,7 +125,7 @@ work_stealing::pick_next() noexcept {
             // schedulers_[cpu_id] should never contain a nullptr
             BOOST_ASSERT( nullptr != schedulers_[cpu_id]);
             victim = schedulers_[cpu_id]->steal();
-        } while ( nullptr == victim && count < size);
+        }
         if ( nullptr != victim) {
             boost::context::detail::prefetch_range( victim, sizeof( context) );
             BOOST_ASSERT( ! victim->is_context( type::pinned_context) );
-- 
2.43.0


From c2afac834ff44a983ab61d57e9d6f6588994a76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 13/24] fix: unlock() of the futex based spinlocks must release

The uncontended unlock decremented the value with acquire ordering only: the
critical section was not ordered before the next one (data race).
---
 include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp | 2 +-
 include/boost/fiber/detail/spinlock_ttas_futex.hpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp b/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
index 172b2b4..1628a8c 100644
--- a/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
@@ -125,7 +125,7 @@ public:
     }
 
     void unlock() noexcept {
-        if ( 1 != value_.fetch_sub( 1, std::memory_order_acquire) ) {
+        if ( 1 != value_.fetch_sub( 1, std::memory_order_release) ) {
             value_.store( 0, std::memory_order_release);
             futex_wake( & value_);
         }
diff --git a/include/boost/fiber/detail/spinlock_ttas_futex.hpp b/include/boost/fiber/detail/spinlock_ttas_futex.hpp
index f7a2f68..3aefdc1 100644
--- a/include/boost/fiber/detail/spinlock_ttas_futex.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_futex.hpp
@@ -116,7 +116,7 @@ public:
     }
 
     void unlock() noexcept {
-        if ( 1 != value_.fetch_sub( 1, std::memory_order_acquire) ) {
+        if ( 1 != value_.fetch_sub( 1, std::memory_order_release) ) {
             value_.store( 0, std::memory_order_release);
             futex_wake( & value_);
         }
-- 
2.43.0


From b74a3039975b137a9f047316ccdb8275517c4cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 14/24] fix: numa::topology() returns an empty topology if the
 list of online cpus is missing

std::stoul() threw on the empty string before the check for an empty list of
cpus was reached.
---
 src/numa/linux/topology.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/numa/linux/topology.cpp b/src/numa/linux/topology.cpp
index 8555afb..21add8e 100644
--- a/src/numa/linux/topology.cpp
+++ b/src/numa/linux/topology.cpp
@@ -104,6 +104,10 @@ std::set< std::uint32_t > ids_from_line( std::string const& content) {
     al::split( v1, content, al::is_any_of(",") );
     for ( std::string entry : v1) {
         al::trim( entry);
+        if ( entry.empty() ) {
+            // empty list, e.g. the file is missing
+            continue;
+        }
         std::vector< std::string > v2;
         al::split( v2, entry, al::is_any_of("-") );
         BOOST_ASSERT( ! v2.empty() );
-- 
2.43.0


From fc9a6d9bdaafe4e68efc3d750341961ecbce4331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 15/24] fix: a fiber may change its properties before it was
 ready for the first time

The properties of a fiber launched with launch::dispatch are not associated
with an algorithm till the fiber becomes ready: the assertion in notify()
failed although the algorithm is not involved for a running fiber.
---
 src/properties.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index f59ae3a..b69bbd4 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -20,7 +20,6 @@ namespace fibers {
 
 void
 fiber_properties::notify() noexcept {
-    BOOST_ASSERT( nullptr != algo_);
     // Application code might change an important property for any fiber at
     // any time. The fiber in question might be ready, running or waiting.
     // Significantly, only a fiber which is ready but not actually running is
@@ -28,6 +27,7 @@ fiber_properties::notify() noexcept {
     // with a change to a fiber it's not currently tracking: it will do the
     // right thing next time the fiber is passed to its awakened() method.
     if ( ctx_->ready_is_linked() ) {
+        BOOST_ASSERT( nullptr != algo_);
         dynamic_cast< algo::algorithm_with_properties_base * >( algo_)->
             property_change_( ctx_, this);
     }
-- 
2.43.0


From 1e2d5eb1195451ef6bed0e447c40787311ed8c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:32 +0000
Subject: [PATCH 16/24] fix: release the stack if launching a fiber throws

---
 include/boost/fiber/context.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/boost/fiber/context.hpp b/include/boost/fiber/context.hpp
index 8dededc..6e7e036 100644
--- a/include/boost/fiber/context.hpp
+++ b/include/boost/fiber/context.hpp
@@ -501,15 +501,21 @@ static intrusive_ptr< context > make_worker_context_with_properties( launch poli
     void * stack_bottom = reinterpret_cast< void * >(
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
     const std::size_t size = reinterpret_cast< uintptr_t >( storage) - reinterpret_cast< uintptr_t >( stack_bottom);
-    // placement new of context on top of fiber's stack
-    return intrusive_ptr< context >{ 
-            new ( storage) context_t{
-                policy,
-                properties,
-                boost::context::preallocated{ storage, size, sctx },
-                std::forward< StackAlloc >( salloc),
-                std::forward< Fn >( fn),
-                std::forward< Arg >( arg) ... } };
+    try {
+        // placement new of context on top of fiber's stack
+        return intrusive_ptr< context >{ 
+                new ( storage) context_t{
+                    policy,
+                    properties,
+                    boost::context::preallocated{ storage, size, sctx },
+                    std::forward< StackAlloc >( salloc),
+                    std::forward< Fn >( fn),
+                    std::forward< Arg >( arg) ... } };
+    } catch (...) {
+        // copying/moving the fiber-function or its arguments failed
+        salloc.deallocate( sctx);
+        throw;
+    }
 }
 
 template< typename StackAlloc, typename Fn, typename ... Arg >
-- 
2.43.0


From fc65e97f5237b19f179e7a63be2c4c2970b652f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:34 +0000
Subject: [PATCH 17/24] fix: publish a resized SPMC queue with release ordering

---
 include/boost/fiber/detail/context_spmc_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/fiber/detail/context_spmc_queue.hpp b/include/boost/fiber/detail/context_spmc_queue.hpp
index f031d7d..66838f2 100644
--- a/include/boost/fiber/detail/context_spmc_queue.hpp
+++ b/include/boost/fiber/detail/context_spmc_queue.hpp
@@ -129,7 +129,7 @@ public:
             array * tmp = a->resize( bottom, top);
             old_arrays_.push_back( a);
             std::swap( a, tmp);
-            array_.store( a, std::memory_order_relaxed);
+            array_.store( a, std::memory_order_release);
         }
         std::uintptr_t slot = reinterpret_cast< std::uintptr_t >( ctx);
         if ( ctx->is_context( type::pinned_context) ) {
-- 
2.43.0


From 320578381ae0bec75746e94f5d934c58fada419f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 18/24] fix: a stealer of the SPMC queue may meet an empty slot
 after a resize

---
 include/boost/fiber/detail/context_spmc_queue.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/fiber/detail/context_spmc_queue.hpp b/include/boost/fiber/detail/context_spmc_queue.hpp
index 66838f2..9ae8f71 100644
--- a/include/boost/fiber/detail/context_spmc_queue.hpp
+++ b/include/boost/fiber/detail/context_spmc_queue.hpp
@@ -176,8 +176,9 @@ public:
         if ( top < bottom) {
             // queue is not empty
             array * a = array_.load( std::memory_order_consume);
+            // might be 0 if the queue has been resized since top was read,
+            // dequeuing fails in this case
             std::uintptr_t slot = a->pop( top);
-            BOOST_ASSERT( 0 != slot);
             // do not steal pinned context (e.g. main-/dispatcher-context)
             // the context must not be accessed before it is owned: it might
             // have been dequeued, executed and destroyed in the meantime
@@ -191,6 +192,7 @@ public:
                 // lose the race
                 return nullptr;
             }
+            BOOST_ASSERT( nullptr != ctx);
         }
         return ctx;
     }
-- 
2.43.0


From ab72349e7da9b8ed2d17dc48c84be01f6dc4b09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 19/24] fix: timed_mutex: timed attempts by the owner raise
 lock_error as documented

try_lock_for() and try_lock_until() of timed_mutex are documented to raise
lock_error (resource_deadlock_would_occur) if the calling fiber already owns
the mutex, as lock() and try_lock() do. They silently waited for the deadline
instead and returned false.
---
 include/boost/fiber/timed_mutex.hpp | 2 +-
 src/timed_mutex.cpp                 | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/boost/fiber/timed_mutex.hpp b/include/boost/fiber/timed_mutex.hpp
index 3cdb91d..304f830 100644
--- a/include/boost/fiber/timed_mutex.hpp
+++ b/include/boost/fiber/timed_mutex.hpp
@@ -40,7 +40,7 @@ private:
     wait_queue                  wait_queue_{};
     context                 *   owner_{ nullptr };
 
-    bool try_lock_until_( std::chrono::steady_clock::time_point const& timeout_time) noexcept;
+    bool try_lock_until_( std::chrono::steady_clock::time_point const& timeout_time);
 
 public:
     timed_mutex() = default;
diff --git a/src/timed_mutex.cpp b/src/timed_mutex.cpp
index b70e5d3..503b565 100644
--- a/src/timed_mutex.cpp
+++ b/src/timed_mutex.cpp
@@ -20,10 +20,15 @@ namespace boost {
 namespace fibers {
 
 bool
-timed_mutex::try_lock_until_( std::chrono::steady_clock::time_point const& timeout_time) noexcept {
+timed_mutex::try_lock_until_( std::chrono::steady_clock::time_point const& timeout_time) {
     while ( true) {
         context * active_ctx = context::active();
         detail::spinlock_lock lk{ wait_queue_splk_ };
+        if ( BOOST_UNLIKELY( active_ctx == owner_) ) {
+            throw lock_error{
+                    std::make_error_code( std::errc::resource_deadlock_would_occur),
+                    "boost fiber: a deadlock is detected" };
+        }
         if ( nullptr == owner_) {
             owner_ = active_ctx;
             return true;
-- 
2.43.0


From 0104dff474eef645354bc0b14b3fdb824488c81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:18 +0000
Subject: [PATCH 20/24] fix: unbuffered_channel: wake the producer if moving
 its value out throws

---
 include/boost/fiber/unbuffered_channel.hpp | 26 +++++++++++++++-------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index 99630aa..f05035b 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -114,6 +114,17 @@ private:
         s->state.store( state, std::memory_order_release);
     }
 
+    // the producer of a slot taken out of the channel has to be woken even if
+    // moving its value throws
+    struct release_guard {
+        unbuffered_channel  *   chan;
+        slot                *   s;
+
+        ~release_guard() {
+            chan->release_( s, slot_state::consumed);
+        }
+    };
+
     // called by the producer of `own_slot` after it was resumed
     channel_op_status finish_push_( slot * own_slot) {
         slot * s = own_slot;
@@ -322,9 +333,9 @@ public:
                     detail::spinlock_lock lk{ splk_producers_ };
                     waiting_producers_.notify_one();
                 }
+                // notifies context
+                release_guard guard{ this, s };
                 value = std::move( s->value);
-                // notify context
-                release_( s, slot_state::consumed);
                 return channel_op_status::success;
             }
             detail::spinlock_lock lk{ splk_consumers_ };
@@ -348,11 +359,10 @@ public:
                     detail::spinlock_lock lk{ splk_producers_ };
                     waiting_producers_.notify_one();
                 }
+                // notifies context
+                release_guard guard{ this, s };
                 // consume value
-                value_type value = std::move( s->value);
-                // notify context
-                release_( s, slot_state::consumed);
-                return std::move( value);
+                return std::move( s->value);
             }
             detail::spinlock_lock lk{ splk_consumers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
@@ -388,9 +398,9 @@ public:
                     waiting_producers_.notify_one();
                 }
                 // consume value
+                // notifies context
+                release_guard guard{ this, s };
                 value = std::move( s->value);
-                // notify context
-                release_( s, slot_state::consumed);
                 return channel_op_status::success;
             }
             detail::spinlock_lock lk{ splk_consumers_ };
-- 
2.43.0


From 21e13303ef50f3558e681f0ff33a79483b757817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:44 +0000
Subject: [PATCH 21/24] fix: hip/waitfor.hpp: use namespace hip (as documented)
 and an include guard of its own

---
 include/boost/fiber/hip/waitfor.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/fiber/hip/waitfor.hpp b/include/boost/fiber/hip/waitfor.hpp
index e05099e..a568e5e 100644
--- a/include/boost/fiber/hip/waitfor.hpp
+++ b/include/boost/fiber/hip/waitfor.hpp
@@ -4,8 +4,8 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          http://www.boost.org/LICENSE_1_0.txt)
 
-#ifndef BOOST_FIBERS_CUDA_WAITFOR_H
-#define BOOST_FIBERS_CUDA_WAITFOR_H
+#ifndef BOOST_FIBERS_HIP_WAITFOR_H
+#define BOOST_FIBERS_HIP_WAITFOR_H
 
 #include <initializer_list>
 #include <mutex>
@@ -30,7 +30,7 @@
 
 namespace boost {
 namespace fibers {
-namespace cuda {
+namespace hip {
 namespace detail {
 
 template< typename Rendezvous >
@@ -136,4 +136,4 @@ std::vector< std::tuple< hipStream_t, hipError_t > > waitfor_all( hipStream_t st
 #  include BOOST_ABI_SUFFIX
 #endif
 
-#endif // BOOST_FIBERS_CUDA_WAITFOR_H
+#endif // BOOST_FIBERS_HIP_WAITFOR_H
-- 
2.43.0


From 8097f3f96b7b250d239a3c6d305142b1724a2966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:15 +0000
Subject: [PATCH 22/24] fix: waitfor_all: notify before releasing the lock, the
 rendezvous might be gone afterwards

---
 include/boost/fiber/cuda/waitfor.hpp | 4 ++--
 include/boost/fiber/hip/waitfor.hpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/fiber/cuda/waitfor.hpp b/include/boost/fiber/cuda/waitfor.hpp
index 262efd9..d6bdad5 100644
--- a/include/boost/fiber/cuda/waitfor.hpp
+++ b/include/boost/fiber/cuda/waitfor.hpp
@@ -56,7 +56,7 @@ public:
         st_ = st;
         status_ = status;
         done_ = true;
-        lk.unlock();
+        // the rendezvous might be gone as soon as the lock is released
         cv_.notify_one();
     }
 
@@ -95,7 +95,7 @@ public:
         stx_.erase( st);
         results_.push_back( std::make_tuple( st, status) );
         if ( stx_.empty() ) {
-            lk.unlock();
+            // the rendezvous might be gone as soon as the lock is released
             cv_.notify_one();
         }
     }
diff --git a/include/boost/fiber/hip/waitfor.hpp b/include/boost/fiber/hip/waitfor.hpp
index a568e5e..fb8ce95 100644
--- a/include/boost/fiber/hip/waitfor.hpp
+++ b/include/boost/fiber/hip/waitfor.hpp
@@ -56,7 +56,7 @@ public:
         st_ = st;
         status_ = status;
         done_ = true;
-        lk.unlock();
+        // the rendezvous might be gone as soon as the lock is released
         cv_.notify_one();
     }
 
@@ -95,7 +95,7 @@ public:
         stx_.erase( st);
         results_.push_back( std::make_tuple( st, status) );
         if ( stx_.empty() ) {
-            lk.unlock();
+            // the rendezvous might be gone as soon as the lock is released
             cv_.notify_one();
         }
     }
-- 
2.43.0


From 57558e581b06b1b131d695555fc9ad79c928a40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:20 +0000
Subject: [PATCH 23/24] fix: waitfor_all: do not iterate over the set the
 callbacks modify

---
 include/boost/fiber/cuda/waitfor.hpp | 3 ++-
 include/boost/fiber/hip/waitfor.hpp  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/fiber/cuda/waitfor.hpp b/include/boost/fiber/cuda/waitfor.hpp
index d6bdad5..3240579 100644
--- a/include/boost/fiber/cuda/waitfor.hpp
+++ b/include/boost/fiber/cuda/waitfor.hpp
@@ -79,7 +79,8 @@ public:
     many_streams_rendezvous( std::initializer_list< cudaStream_t > l) :
             stx_{ l } {
         results_.reserve( stx_.size() );
-        for ( cudaStream_t st : stx_) {
+        // stx_ is modified by the callbacks, which might run already
+        for ( cudaStream_t st : std::set< cudaStream_t >{ l }) {
             unsigned int flags = 0;
             cudaError_t status = ::cudaStreamAddCallback( st, trampoline< many_streams_rendezvous >, this, flags);
             if ( cudaSuccess != status) {
diff --git a/include/boost/fiber/hip/waitfor.hpp b/include/boost/fiber/hip/waitfor.hpp
index fb8ce95..aa9c64d 100644
--- a/include/boost/fiber/hip/waitfor.hpp
+++ b/include/boost/fiber/hip/waitfor.hpp
@@ -79,7 +79,8 @@ public:
     many_streams_rendezvous( std::initializer_list< hipStream_t > l) :
             stx_{ l } {
         results_.reserve( stx_.size() );
-        for ( hipStream_t st : stx_) {
+        // stx_ is modified by the callbacks, which might run already
+        for ( hipStream_t st : std::set< hipStream_t >{ l }) {
             unsigned int flags = 0;
             hipError_t status = ::hipStreamAddCallback( st, trampoline< many_streams_rendezvous >, this, flags);
             if ( hipSuccess != status) {
-- 
2.43.0


From 1e3259ed41e5d0010942bf13f7bd519ec7ec3792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:01 +0000
Subject: [PATCH 24/24] fix: keep the shared state of a future alive while its
 waiters are notified

---
 include/boost/fiber/future/detail/shared_state.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/fiber/future/detail/shared_state.hpp b/include/boost/fiber/future/detail/shared_state.hpp
index 9661e08..dbe1bdc 100644
--- a/include/boost/fiber/future/detail/shared_state.hpp
+++ b/include/boost/fiber/future/detail/shared_state.hpp
@@ -46,6 +46,8 @@ protected:
 
     void mark_ready_and_notify_( std::unique_lock< mutex > & lk) noexcept {
         BOOST_ASSERT( lk.owns_lock() );
+        // as soon as the result is ready, others might release their references
+        intrusive_ptr< shared_state_base > guard{ this };
         ready_ = true;
         lk.unlock();
         waiters_.notify_all();
-- 
2.43.0

