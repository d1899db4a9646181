From 01d0802da1fc0ec1c598ec8d3974894a01c1e7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 01/12] fix: propagate a failure to build the worker's stack
 from worker_init

The context was destroyed but the exception swallowed, the thread was then
marked as an initialised worker without a stack or a context.
---
 include/libfork/core/ext/tls.hpp | 1 +
 single_header/libfork.hpp        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/libfork/core/ext/tls.hpp b/include/libfork/core/ext/tls.hpp
index eaae831..b1b4937 100644
--- a/include/libfork/core/ext/tls.hpp
+++ b/include/libfork/core/ext/tls.hpp
@@ -111,6 +111,7 @@ inline namespace ext {
     impl::tls::thread_stack.construct();
   } LF_CATCH_ALL {
     impl::tls::thread_context.destroy();
+    LF_RETHROW;
   }
 
   impl::tls::has_stack = true;
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 13906b5..9a656d7 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -2578,6 +2578,7 @@ inline namespace ext {
     impl::tls::thread_stack.construct();
   } LF_CATCH_ALL {
     impl::tls::thread_context.destroy();
+    LF_RETHROW;
   }
 
   impl::tls::has_stack = true;
-- 
2.43.0


From d441530d7f14d2f093dc995b4c9435c65366bcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:06 +0000
Subject: [PATCH 02/12] fix: release the root task on its own stack when a
 scheduler throws

schedule(...) gave up the stack holding the coroutine before submitting it, so
if the submission threw the frame was deallocated from another stack and the
original one leaked.
---
 include/libfork/core/sync_wait.hpp | 15 +++++++++++++--
 single_header/libfork.hpp          | 15 +++++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/libfork/core/sync_wait.hpp b/include/libfork/core/sync_wait.hpp
index 5784057..aea17a7 100644
--- a/include/libfork/core/sync_wait.hpp
+++ b/include/libfork/core/sync_wait.hpp
@@ -278,8 +278,19 @@ schedule(Sch &&sch, F &&fun, Args &&...args) -> future<async_result_t<F, Args...
   // We will pass a pointer to this to .schedule()
   share_state->node.construct(std::bit_cast<impl::submit_t *>(await.get()));
 
-  // Schedule upholds the strong exception guarantee hence, if it throws `await` cleans up.
-  std::forward<Sch>(sch).schedule(share_state->node.data());
+  // clang-format off
+
+  // Schedule upholds the strong exception guarantee hence, if it throws `await` cleans up. For this
+  // the coroutine's stack, which was released above, must be this thread's stack again.
+  LF_TRY {
+    std::forward<Sch>(sch).schedule(share_state->node.data());
+  } LF_CATCH_ALL {
+    *impl::tls::thread_stack = impl::stack{await->stacklet()};
+    LF_RETHROW;
+  }
+
+  // clang-format on
+
   // If -^ didn't throw then we release ownership of the coroutine, it will be cleaned up by the worker.
   impl::ignore_t{} = await.release();
 
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 9a656d7..e9d3714 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -4827,8 +4827,19 @@ schedule(Sch &&sch, F &&fun, Args &&...args) -> future<async_result_t<F, Args...
   // We will pass a pointer to this to .schedule()
   share_state->node.construct(std::bit_cast<impl::submit_t *>(await.get()));
 
-  // Schedule upholds the strong exception guarantee hence, if it throws `await` cleans up.
-  std::forward<Sch>(sch).schedule(share_state->node.data());
+  // clang-format off
+
+  // Schedule upholds the strong exception guarantee hence, if it throws `await` cleans up. For this
+  // the coroutine's stack, which was released above, must be this thread's stack again.
+  LF_TRY {
+    std::forward<Sch>(sch).schedule(share_state->node.data());
+  } LF_CATCH_ALL {
+    *impl::tls::thread_stack = impl::stack{await->stacklet()};
+    LF_RETHROW;
+  }
+
+  // clang-format on
+
   // If -^ didn't throw then we release ownership of the coroutine, it will be cleaned up by the worker.
   impl::ignore_t{} = await.release();
 
-- 
2.43.0


From 53ff97b9a630b9118895075ee83bf8c11b3c1354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:27 +0000
Subject: [PATCH 03/12] fix: reject co_new requests whose size in bytes
 overflows

count * sizeof(T) could wrap around, the returned span was then far larger than
the memory allocated for it.
---
 include/libfork/core/impl/awaitables.hpp | 8 ++++++++
 single_header/libfork.hpp                | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/libfork/core/impl/awaitables.hpp b/include/libfork/core/impl/awaitables.hpp
index a7859b1..05454dc 100644
--- a/include/libfork/core/impl/awaitables.hpp
+++ b/include/libfork/core/impl/awaitables.hpp
@@ -12,9 +12,12 @@
 #include <atomic>      // for memory_order_acquire, atomic_thread_fence
 #include <bit>         // for bit_cast
 #include <coroutine>   // for coroutine_handle, noop_coroutine, suspend_...
+#include <cstddef>     // for size_t, ptrdiff_t
 #include <cstdint>     // for uint16_t
 #include <iterator>    // for iter_difference_t
+#include <limits>      // for numeric_limits
 #include <memory>      // for operator==, uninitialized_default_construct_n
+#include <new>         // for bad_array_new_length
 #include <span>        // for span
 #include <type_traits> // for remove_cvref_t
 #include <utility>     // for exchange
@@ -194,6 +197,11 @@ struct alloc_awaitable : std::suspend_never {
 
     LF_ASSERT(stack->top() == self->stacklet()); // Must own the stack.
 
+    // The size in bytes must fit in an object and leave room for the stack's bookkeeping.
+    if (request.count > static_cast<std::size_t>(std::numeric_limits<std::ptrdiff_t>::max()) / sizeof(T)) {
+      LF_THROW(std::bad_array_new_length());
+    }
+
     T *ptr = static_cast<T *>(stack->allocate(request.count * sizeof(T)));
 
     using int_t = std::iter_difference_t<T *>;
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index e9d3714..9b88ddd 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -5097,9 +5097,12 @@ using extern_ret_ptr_t = typename detail::extern_ret_ptr_impl<R>::type;
 #include <atomic>      // for memory_order_acquire, atomic_thread_fence
 #include <bit>         // for bit_cast
 #include <coroutine>   // for coroutine_handle, noop_coroutine, suspend_...
+#include <cstddef>     // for size_t, ptrdiff_t
 #include <cstdint>     // for uint16_t
 #include <iterator>    // for iter_difference_t
+#include <limits>      // for numeric_limits
 #include <memory>      // for operator==, uninitialized_default_construct_n
+#include <new>         // for bad_array_new_length
 #include <span>        // for span
 #include <type_traits> // for remove_cvref_t
 #include <utility>     // for exchange
@@ -5265,6 +5268,11 @@ struct alloc_awaitable : std::suspend_never {
 
     LF_ASSERT(stack->top() == self->stacklet()); // Must own the stack.
 
+    // The size in bytes must fit in an object and leave room for the stack's bookkeeping.
+    if (request.count > static_cast<std::size_t>(std::numeric_limits<std::ptrdiff_t>::max()) / sizeof(T)) {
+      LF_THROW(std::bad_array_new_length());
+    }
+
     T *ptr = static_cast<T *>(stack->allocate(request.count * sizeof(T)));
 
     using int_t = std::iter_difference_t<T *>;
-- 
2.43.0


From 103413ebe021fad999d7045c80bb66e6ab9ab98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 04/12] fix: widen the steal and join counters of a frame to 32
 bits

With 16 bit counters a scope whose continuation was stolen 2^16 times (for
example a loop of as many forks) resumed the parent before all its children had
completed, or never.
---
 include/libfork/core/impl/awaitables.hpp | 30 ++++++------
 include/libfork/core/impl/frame.hpp      | 20 ++++----
 include/libfork/core/impl/promise.hpp    |  4 +-
 include/libfork/core/impl/utility.hpp    |  6 +--
 single_header/libfork.hpp                | 60 ++++++++++++------------
 5 files changed, 60 insertions(+), 60 deletions(-)

diff --git a/include/libfork/core/impl/awaitables.hpp b/include/libfork/core/impl/awaitables.hpp
index 05454dc..4d3d58d 100644
--- a/include/libfork/core/impl/awaitables.hpp
+++ b/include/libfork/core/impl/awaitables.hpp
@@ -13,7 +13,7 @@
 #include <bit>         // for bit_cast
 #include <coroutine>   // for coroutine_handle, noop_coroutine, suspend_...
 #include <cstddef>     // for size_t, ptrdiff_t
-#include <cstdint>     // for uint16_t
+#include <cstdint>     // for uint32_t
 #include <iterator>    // for iter_difference_t
 #include <limits>      // for numeric_limits
 #include <memory>      // for operator==, uninitialized_default_construct_n
@@ -31,7 +31,7 @@
 #include "libfork/core/impl/frame.hpp"        // for frame
 #include "libfork/core/impl/stack.hpp"        // for stack
 #include "libfork/core/impl/unique_frame.hpp" // for unique_frame, frame_deleter
-#include "libfork/core/impl/utility.hpp"      // for k_u16_max, checked_cast
+#include "libfork/core/impl/utility.hpp"      // for k_u32_max, checked_cast
 #include "libfork/core/invocable.hpp"         // for ignore_t
 #include "libfork/core/macro.hpp"             // for LF_ASSERT, LF_LOG, LF_FORCEINLINE, LF_THROW
 #include "libfork/core/scheduler.hpp"         // for context_switcher
@@ -113,7 +113,7 @@ struct context_switch_awaitable {
     // steals then we do not own the stack this coroutine is on and the resumer should not
     // take the stack otherwise, we should give-it-up and the resumer should take it.
 
-    std::uint16_t steals = std::bit_cast<frame *>(unwrap(&self))->load_steals();
+    std::uint32_t steals = std::bit_cast<frame *>(unwrap(&self))->load_steals();
 
     // Assert the above paragraphs validity.
 #ifndef NDEBUG
@@ -310,7 +310,7 @@ struct sync_fork_awaitable : fork_awaitable {
     // must not have thrown an exception. We can check if __some__ child threw an
     // exception but we cannot (generally) retrieve it as exception is not safe
     // to touch until after a join.
-    if (std::uint16_t steals_post = self->load_steals(); steals_post == steals_pre) {
+    if (std::uint32_t steals_post = self->load_steals(); steals_post == steals_pre) {
 
       // Then completed synchronously.
 
@@ -337,7 +337,7 @@ struct sync_fork_awaitable : fork_awaitable {
   /**
    * @brief The number of times the parent was stolen __before__ the fork.
    */
-  std::uint16_t steals_pre;
+  std::uint32_t steals_pre;
 };
 
 /**
@@ -437,14 +437,14 @@ struct join_awaitable {
       // Therefore no need to reset the control block.
       return true;
     }
-    // Currently:            joins() = k_u16_max - num_joined
-    // Hence:       k_u16_max - joins() = num_joined
+    // Currently:            joins() = k_u32_max - num_joined
+    // Hence:       k_u32_max - joins() = num_joined
 
     // Could use (relaxed) + (fence(acquire) in truthy branch) but, it's
     // better if we see all the decrements to joins() and avoid suspending
     // the coroutine if possible. Cannot fetch_sub() here and write to frame
     // as coroutine must be suspended first.
-    auto joined = k_u16_max - self->load_joins(std::memory_order_acquire);
+    auto joined = k_u32_max - self->load_joins(std::memory_order_acquire);
 
     if (self->load_steals() == joined) {
       LF_LOG("Sync is ready");
@@ -460,17 +460,17 @@ struct join_awaitable {
    * @brief Mark at join point then yield to scheduler or resume if children are done.
    */
   auto await_suspend(std::coroutine_handle<> task) const noexcept -> std::coroutine_handle<> {
-    // Currently        joins  = k_u16_max  - num_joined
-    // We set           joins  = joins()    - (k_u16_max - num_steals)
+    // Currently        joins  = k_u32_max  - num_joined
+    // We set           joins  = joins()    - (k_u32_max - num_steals)
     //                         = num_steals - num_joined
 
-    // Hence               joined = k_u16_max - num_joined
-    //         k_u16_max - joined = num_joined
+    // Hence               joined = k_u32_max - num_joined
+    //         k_u32_max - joined = num_joined
 
     auto steals = self->load_steals();
-    auto joined = self->fetch_sub_joins(k_u16_max - steals, std::memory_order_release);
+    auto joined = self->fetch_sub_joins(k_u32_max - steals, std::memory_order_release);
 
-    if (steals == k_u16_max - joined) {
+    if (steals == k_u32_max - joined) {
       // We set joins after all children had completed therefore we can resume the task.
       // Need to acquire to ensure we see all writes by other threads to the result.
       std::atomic_thread_fence(std::memory_order_acquire);
@@ -499,7 +499,7 @@ struct join_awaitable {
     LF_LOG("join resumes");
     // Check we have been reset.
     LF_ASSERT(self->load_steals() == 0);
-    LF_ASSERT_NO_ASSUME(self->load_joins(std::memory_order_acquire) == k_u16_max);
+    LF_ASSERT_NO_ASSUME(self->load_joins(std::memory_order_acquire) == k_u32_max);
     LF_ASSERT(self->stacklet() == tls::stack()->top());
 
     self->unsafe_rethrow_if_exception();
diff --git a/include/libfork/core/impl/frame.hpp b/include/libfork/core/impl/frame.hpp
index 7a4ec84..37d2c03 100644
--- a/include/libfork/core/impl/frame.hpp
+++ b/include/libfork/core/impl/frame.hpp
@@ -9,9 +9,9 @@
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
-#include <atomic>      // for atomic_ref, memory_order, atomic_uint16_t
+#include <atomic>      // for atomic_ref, memory_order, atomic_uint32_t
 #include <coroutine>   // for coroutine_handle
-#include <cstdint>     // for uint16_t
+#include <cstdint>     // for uint32_t
 #include <exception>   // for exception_ptr, operator==, current_exce...
 #include <memory>      // for construct_at
 #include <semaphore>   // for binary_semaphore
@@ -22,7 +22,7 @@
 #include "libfork/core/defer.hpp"                // for LF_DEFER
 #include "libfork/core/impl/manual_lifetime.hpp" // for manual_lifetime
 #include "libfork/core/impl/stack.hpp"           // for stack
-#include "libfork/core/impl/utility.hpp"         // for non_null, k_u16_max
+#include "libfork/core/impl/utility.hpp"         // for non_null, k_u32_max
 #include "libfork/core/macro.hpp"                // for LF_COMPILER_EXCEPTIONS, LF_ASSERT, LF_F...
 
 /**
@@ -70,11 +70,11 @@ class frame {
   /**
    * @brief  Number of children joined (with offset).
    */
-  std::atomic_uint16_t m_join = k_u16_max;
+  std::atomic_uint32_t m_join = k_u32_max;
   /**
    * @brief Number of times this frame has been stolen.
    */
-  std::uint16_t m_steal = 0;
+  std::uint32_t m_steal = 0;
 
 /**
  * @brief Flag to indicate if an exception has been set.
@@ -179,26 +179,26 @@ class frame {
   /**
    * @brief Perform a `.load(order)` on the atomic join counter.
    */
-  [[nodiscard]] auto load_joins(std::memory_order order) const noexcept -> std::uint16_t {
+  [[nodiscard]] auto load_joins(std::memory_order order) const noexcept -> std::uint32_t {
     return m_join.load(order);
   }
 
   /**
    * @brief Perform a `.fetch_sub(val, order)` on the atomic join counter.
    */
-  auto fetch_sub_joins(std::uint16_t val, std::memory_order order) noexcept -> std::uint16_t {
+  auto fetch_sub_joins(std::uint32_t val, std::memory_order order) noexcept -> std::uint32_t {
     return m_join.fetch_sub(val, order);
   }
 
   /**
    * @brief Get the number of times this frame has been stolen.
    */
-  [[nodiscard]] auto load_steals() const noexcept -> std::uint16_t { return m_steal; }
+  [[nodiscard]] auto load_steals() const noexcept -> std::uint32_t { return m_steal; }
 
   /**
    * @brief Increase the steal counter by one and return the previous value.
    */
-  auto fetch_add_steal() noexcept -> std::uint16_t { return m_steal++; }
+  auto fetch_add_steal() noexcept -> std::uint32_t { return m_steal++; }
 
   /**
    * @brief Reset the join and steal counters, must be outside a fork-join region.
@@ -211,7 +211,7 @@ class frame {
     // Use construct_at(...) to set non-atomically as we know we are the
     // only thread who can touch this control block until a steal which
     // would provide the required memory synchronization.
-    std::construct_at(&m_join, k_u16_max);
+    std::construct_at(&m_join, k_u32_max);
   }
 
   /**
diff --git a/include/libfork/core/impl/promise.hpp b/include/libfork/core/impl/promise.hpp
index 0d0fb30..bec3751 100644
--- a/include/libfork/core/impl/promise.hpp
+++ b/include/libfork/core/impl/promise.hpp
@@ -28,7 +28,7 @@
 #include "libfork/core/impl/frame.hpp"      // for frame
 #include "libfork/core/impl/return.hpp"     // for return_result
 #include "libfork/core/impl/stack.hpp"      // for stack
-#include "libfork/core/impl/utility.hpp"    // for byte_cast, k_u16_max
+#include "libfork/core/impl/utility.hpp"    // for byte_cast, k_u32_max
 #include "libfork/core/invocable.hpp"       // for return_address_for, ignore_t
 #include "libfork/core/just.hpp"            // for just_awaitable, just_wrapped
 #include "libfork/core/macro.hpp"           // for LF_LOG, LF_ASSERT, LF_FORCEINLINE, LF_ASSERT...
@@ -306,7 +306,7 @@ struct promise : promise_base, return_result<R, I> {
     // Completing a non-root task means we currently own the stack_stack this child is on
 
     LF_ASSERT(this->load_steals() == 0);                                           // Fork without join.
-    LF_ASSERT_NO_ASSUME(this->load_joins(std::memory_order_acquire) == k_u16_max); // Invalid state.
+    LF_ASSERT_NO_ASSUME(this->load_joins(std::memory_order_acquire) == k_u32_max); // Invalid state.
     LF_ASSERT(!this->unsafe_has_exception());                                      // Must have rethrown.
 
     return final_awaitable{};
diff --git a/include/libfork/core/impl/utility.hpp b/include/libfork/core/impl/utility.hpp
index e966623..62cbbfb 100644
--- a/include/libfork/core/impl/utility.hpp
+++ b/include/libfork/core/impl/utility.hpp
@@ -12,7 +12,7 @@
 #include <bit>             // for bit_cast, has_single_bit
 #include <concepts>        // for same_as, integral, convertible_to
 #include <cstddef>         // for byte, size_t
-#include <cstdint>         // for uint16_t
+#include <cstdint>         // for uint32_t
 #include <cstdio>          // for fprintf, stderr
 #include <exception>       // for terminate
 #include <functional>      // for invoke
@@ -94,9 +94,9 @@ inline constexpr std::size_t k_new_align = __STDCPP_DEFAULT_NEW_ALIGNMENT__;
 static_assert(std::has_single_bit(k_new_align));
 
 /**
- * @brief Shorthand for `std::numeric_limits<std::unt32_t>::max()`.
+ * @brief Shorthand for `std::numeric_limits<std::uint32_t>::max()`.
  */
-static constexpr std::uint16_t k_u16_max = std::numeric_limits<std::uint16_t>::max();
+static constexpr std::uint32_t k_u32_max = std::numeric_limits<std::uint32_t>::max();
 
 /**
  * @brief A dependent value to emulate `static_assert(false)` pre c++26.
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 9b88ddd..0989950 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -566,7 +566,7 @@ LF_FORCEINLINE inline void thread_fence_seq_cst() {
 #include <bit>             // for bit_cast, has_single_bit
 #include <concepts>        // for same_as, integral, convertible_to
 #include <cstddef>         // for byte, size_t
-#include <cstdint>         // for uint16_t
+#include <cstdint>         // for uint32_t
 #include <cstdio>          // for fprintf, stderr
 #include <exception>       // for terminate
 #include <functional>      // for invoke
@@ -647,9 +647,9 @@ inline constexpr std::size_t k_new_align = __STDCPP_DEFAULT_NEW_ALIGNMENT__;
 static_assert(std::has_single_bit(k_new_align));
 
 /**
- * @brief Shorthand for `std::numeric_limits<std::unt32_t>::max()`.
+ * @brief Shorthand for `std::numeric_limits<std::uint32_t>::max()`.
  */
-static constexpr std::uint16_t k_u16_max = std::numeric_limits<std::uint16_t>::max();
+static constexpr std::uint32_t k_u32_max = std::numeric_limits<std::uint32_t>::max();
 
 /**
  * @brief A dependent value to emulate `static_assert(false)` pre c++26.
@@ -1438,9 +1438,9 @@ class intrusive_list : impl::immovable<intrusive_list<T>> {
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
-#include <atomic>      // for atomic_ref, memory_order, atomic_uint16_t
+#include <atomic>      // for atomic_ref, memory_order, atomic_uint32_t
 #include <coroutine>   // for coroutine_handle
-#include <cstdint>     // for uint16_t
+#include <cstdint>     // for uint32_t
 #include <exception>   // for exception_ptr, operator==, current_exce...
 #include <memory>      // for construct_at
 #include <semaphore>   // for binary_semaphore
@@ -2000,7 +2000,7 @@ class stack {
 
 #endif /* F7577AB3_0439_404D_9D98_072AB84FBCD0 */
 
-           // for stack         // for non_null, k_u16_max                // for LF_COMPILER_EXCEPTIONS, LF_ASSERT, LF_F...
+           // for stack         // for non_null, k_u32_max                // for LF_COMPILER_EXCEPTIONS, LF_ASSERT, LF_F...
 
 /**
  * @file frame.hpp
@@ -2047,11 +2047,11 @@ class frame {
   /**
    * @brief  Number of children joined (with offset).
    */
-  std::atomic_uint16_t m_join = k_u16_max;
+  std::atomic_uint32_t m_join = k_u32_max;
   /**
    * @brief Number of times this frame has been stolen.
    */
-  std::uint16_t m_steal = 0;
+  std::uint32_t m_steal = 0;
 
 /**
  * @brief Flag to indicate if an exception has been set.
@@ -2156,26 +2156,26 @@ class frame {
   /**
    * @brief Perform a `.load(order)` on the atomic join counter.
    */
-  [[nodiscard]] auto load_joins(std::memory_order order) const noexcept -> std::uint16_t {
+  [[nodiscard]] auto load_joins(std::memory_order order) const noexcept -> std::uint32_t {
     return m_join.load(order);
   }
 
   /**
    * @brief Perform a `.fetch_sub(val, order)` on the atomic join counter.
    */
-  auto fetch_sub_joins(std::uint16_t val, std::memory_order order) noexcept -> std::uint16_t {
+  auto fetch_sub_joins(std::uint32_t val, std::memory_order order) noexcept -> std::uint32_t {
     return m_join.fetch_sub(val, order);
   }
 
   /**
    * @brief Get the number of times this frame has been stolen.
    */
-  [[nodiscard]] auto load_steals() const noexcept -> std::uint16_t { return m_steal; }
+  [[nodiscard]] auto load_steals() const noexcept -> std::uint32_t { return m_steal; }
 
   /**
    * @brief Increase the steal counter by one and return the previous value.
    */
-  auto fetch_add_steal() noexcept -> std::uint16_t { return m_steal++; }
+  auto fetch_add_steal() noexcept -> std::uint32_t { return m_steal++; }
 
   /**
    * @brief Reset the join and steal counters, must be outside a fork-join region.
@@ -2188,7 +2188,7 @@ class frame {
     // Use construct_at(...) to set non-atomically as we know we are the
     // only thread who can touch this control block until a steal which
     // would provide the required memory synchronization.
-    std::construct_at(&m_join, k_u16_max);
+    std::construct_at(&m_join, k_u32_max);
   }
 
   /**
@@ -5098,7 +5098,7 @@ using extern_ret_ptr_t = typename detail::extern_ret_ptr_impl<R>::type;
 #include <bit>         // for bit_cast
 #include <coroutine>   // for coroutine_handle, noop_coroutine, suspend_...
 #include <cstddef>     // for size_t, ptrdiff_t
-#include <cstdint>     // for uint16_t
+#include <cstdint>     // for uint32_t
 #include <iterator>    // for iter_difference_t
 #include <limits>      // for numeric_limits
 #include <memory>      // for operator==, uninitialized_default_construct_n
@@ -5106,7 +5106,7 @@ using extern_ret_ptr_t = typename detail::extern_ret_ptr_impl<R>::type;
 #include <span>        // for span
 #include <type_traits> // for remove_cvref_t
 #include <utility>     // for exchange
-          // for co_allocable, co_new_t, stack_allocated        // for exception_before_join       // for full_context       // for submit_handle, submit_node_t, task_handle          // for unwrap           // for stack, context        // for frame        // for stack // for unique_frame, frame_deleter      // for k_u16_max, checked_cast         // for ignore_t             // for LF_ASSERT, LF_LOG, LF_FORCEINLINE, LF_THROW         // for context_switcher               // for region
+          // for co_allocable, co_new_t, stack_allocated        // for exception_before_join       // for full_context       // for submit_handle, submit_node_t, task_handle          // for unwrap           // for stack, context        // for frame        // for stack // for unique_frame, frame_deleter      // for k_u32_max, checked_cast         // for ignore_t             // for LF_ASSERT, LF_LOG, LF_FORCEINLINE, LF_THROW         // for context_switcher               // for region
 
 /**
  * @file awaitables.hpp
@@ -5184,7 +5184,7 @@ struct context_switch_awaitable {
     // steals then we do not own the stack this coroutine is on and the resumer should not
     // take the stack otherwise, we should give-it-up and the resumer should take it.
 
-    std::uint16_t steals = std::bit_cast<frame *>(unwrap(&self))->load_steals();
+    std::uint32_t steals = std::bit_cast<frame *>(unwrap(&self))->load_steals();
 
     // Assert the above paragraphs validity.
 #ifndef NDEBUG
@@ -5381,7 +5381,7 @@ struct sync_fork_awaitable : fork_awaitable {
     // must not have thrown an exception. We can check if __some__ child threw an
     // exception but we cannot (generally) retrieve it as exception is not safe
     // to touch until after a join.
-    if (std::uint16_t steals_post = self->load_steals(); steals_post == steals_pre) {
+    if (std::uint32_t steals_post = self->load_steals(); steals_post == steals_pre) {
 
       // Then completed synchronously.
 
@@ -5408,7 +5408,7 @@ struct sync_fork_awaitable : fork_awaitable {
   /**
    * @brief The number of times the parent was stolen __before__ the fork.
    */
-  std::uint16_t steals_pre;
+  std::uint32_t steals_pre;
 };
 
 /**
@@ -5508,14 +5508,14 @@ struct join_awaitable {
       // Therefore no need to reset the control block.
       return true;
     }
-    // Currently:            joins() = k_u16_max - num_joined
-    // Hence:       k_u16_max - joins() = num_joined
+    // Currently:            joins() = k_u32_max - num_joined
+    // Hence:       k_u32_max - joins() = num_joined
 
     // Could use (relaxed) + (fence(acquire) in truthy branch) but, it's
     // better if we see all the decrements to joins() and avoid suspending
     // the coroutine if possible. Cannot fetch_sub() here and write to frame
     // as coroutine must be suspended first.
-    auto joined = k_u16_max - self->load_joins(std::memory_order_acquire);
+    auto joined = k_u32_max - self->load_joins(std::memory_order_acquire);
 
     if (self->load_steals() == joined) {
       LF_LOG("Sync is ready");
@@ -5531,17 +5531,17 @@ struct join_awaitable {
    * @brief Mark at join point then yield to scheduler or resume if children are done.
    */
   auto await_suspend(std::coroutine_handle<> task) const noexcept -> std::coroutine_handle<> {
-    // Currently        joins  = k_u16_max  - num_joined
-    // We set           joins  = joins()    - (k_u16_max - num_steals)
+    // Currently        joins  = k_u32_max  - num_joined
+    // We set           joins  = joins()    - (k_u32_max - num_steals)
     //                         = num_steals - num_joined
 
-    // Hence               joined = k_u16_max - num_joined
-    //         k_u16_max - joined = num_joined
+    // Hence               joined = k_u32_max - num_joined
+    //         k_u32_max - joined = num_joined
 
     auto steals = self->load_steals();
-    auto joined = self->fetch_sub_joins(k_u16_max - steals, std::memory_order_release);
+    auto joined = self->fetch_sub_joins(k_u32_max - steals, std::memory_order_release);
 
-    if (steals == k_u16_max - joined) {
+    if (steals == k_u32_max - joined) {
       // We set joins after all children had completed therefore we can resume the task.
       // Need to acquire to ensure we see all writes by other threads to the result.
       std::atomic_thread_fence(std::memory_order_acquire);
@@ -5570,7 +5570,7 @@ struct join_awaitable {
     LF_LOG("join resumes");
     // Check we have been reset.
     LF_ASSERT(self->load_steals() == 0);
-    LF_ASSERT_NO_ASSUME(self->load_joins(std::memory_order_acquire) == k_u16_max);
+    LF_ASSERT_NO_ASSUME(self->load_joins(std::memory_order_acquire) == k_u32_max);
     LF_ASSERT(self->stacklet() == tls::stack()->top());
 
     self->unsafe_rethrow_if_exception();
@@ -5996,7 +5996,7 @@ struct return_result<void, discard_t> {
 
 #endif /* A896798B_7E3B_4854_9997_89EA5AE765EB */
 
-     // for return_result      // for stack    // for byte_cast, k_u16_max       // for return_address_for, ignore_t            // for just_awaitable, just_wrapped           // for LF_LOG, LF_ASSERT, LF_FORCEINLINE, LF_ASSERT...       // for context_switcher             // for tag            // for returnable, task
+     // for return_result      // for stack    // for byte_cast, k_u32_max       // for return_address_for, ignore_t            // for just_awaitable, just_wrapped           // for LF_LOG, LF_ASSERT, LF_FORCEINLINE, LF_ASSERT...       // for context_switcher             // for tag            // for returnable, task
 
 /**
  * @file promise.hpp
@@ -6268,7 +6268,7 @@ struct promise : promise_base, return_result<R, I> {
     // Completing a non-root task means we currently own the stack_stack this child is on
 
     LF_ASSERT(this->load_steals() == 0);                                           // Fork without join.
-    LF_ASSERT_NO_ASSUME(this->load_joins(std::memory_order_acquire) == k_u16_max); // Invalid state.
+    LF_ASSERT_NO_ASSUME(this->load_joins(std::memory_order_acquire) == k_u32_max); // Invalid state.
     LF_ASSERT(!this->unsafe_has_exception());                                      // Must have rethrown.
 
     return final_awaitable{};
-- 
2.43.0


From 9d987cf869d13aa582a691b1649f104012c537c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:11 +0000
Subject: [PATCH 05/12] fix: make the eager and sync dispatch modifiers rethrow
 as documented

The test for exceptions being stashed in the return object was inverted: with
an ordinary return address a child's exception was not rethrown when the parent
resumed. fold and scan with an asynchronous operator rely on this, they lost
the operator's exception and carried on with a moved-from value.
---
 include/libfork/core/impl/awaitables.hpp | 10 +++++-----
 include/libfork/core/impl/promise.hpp    |  8 +++++---
 single_header/libfork.hpp                | 18 ++++++++++--------
 3 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/include/libfork/core/impl/awaitables.hpp b/include/libfork/core/impl/awaitables.hpp
index 4d3d58d..6d79e14 100644
--- a/include/libfork/core/impl/awaitables.hpp
+++ b/include/libfork/core/impl/awaitables.hpp
@@ -289,20 +289,20 @@ struct fork_awaitable : std::suspend_always {
  * @brief An awaiter identical to `fork_awaitable` but with an additional boolean indicating if the child
  * completed synchronously.
  *
- * @tparam ChildThrows If `true` then the child captures it's exceptions in it's result.
+ * @tparam Throws If `true` then the child (or a sibling) may have captured an exception in the parent.
  * @tparam R Where the fork statement is located.
  */
-template <bool ChildThrows, region R>
+template <bool Throws, region R>
   requires (R != region::outside)
 struct sync_fork_awaitable : fork_awaitable {
   /**
    * @brief Returns `true` if the forked child completed synchronously.
    *
-   * If `ChildThrows` is `true` then this will throw `lf::core::exception_before_join`
+   * If `Throws` is `true` then this will throw `lf::core::exception_before_join`
    * if there is an exception or possibly the child's exception if the child had no forked
    * siblings.
    */
-  auto await_resume() const noexcept(!ChildThrows) -> bool {
+  auto await_resume() const noexcept(!Throws) -> bool {
     // Help the optimizer.
     fork_awaitable::await_resume();
 
@@ -314,7 +314,7 @@ struct sync_fork_awaitable : fork_awaitable {
 
       // Then completed synchronously.
 
-      if constexpr (ChildThrows) {
+      if constexpr (Throws) {
         if (R == region::opening_fork) {
           LF_ASSERT(steals_post == 0);
           // If the opening fork completed synchronously the we can rethrow.
diff --git a/include/libfork/core/impl/promise.hpp b/include/libfork/core/impl/promise.hpp
index bec3751..9fbb47c 100644
--- a/include/libfork/core/impl/promise.hpp
+++ b/include/libfork/core/impl/promise.hpp
@@ -214,12 +214,14 @@ struct promise_base : frame {
 
     awaitable->set_parent(this);
 
-    constexpr bool throwing = stash_exception_in_return<I>;
+    // If the child stashes its exception in the return object then it cannot reach this frame, however
+    // a sibling's exception can if we may be inside a fork-join scope.
+    constexpr bool throwing = !stash_exception_in_return<I>;
 
     using enum region;
 
     if constexpr (Tag == tag::call) {
-      if /*  */ constexpr (throwing && std::same_as<Mod, modifier::eager_throw>) {
+      if /*  */ constexpr (std::same_as<Mod, modifier::eager_throw>) {
         return eager_call_awaitable<unknown>{{{}, std::move(awaitable)}, this};
       } else if constexpr (throwing && std::same_as<Mod, modifier::eager_throw_outside>) {
         return eager_call_awaitable<outside>{{{}, std::move(awaitable)}, this};
@@ -232,7 +234,7 @@ struct promise_base : frame {
       if /*  */ constexpr (std::same_as<Mod, modifier::none>) {
         return fork_awaitable{{}, std::move(awaitable), this};
       } else if constexpr (std::same_as<Mod, modifier::sync>) {
-        return sync_fork_awaitable<throwing, unknown>{{{}, std::move(awaitable), this}, this->load_steals()};
+        return sync_fork_awaitable<true, unknown>{{{}, std::move(awaitable), this}, this->load_steals()};
       } else if constexpr (std::same_as<Mod, modifier::sync_outside>) {
         return sync_fork_awaitable<throwing, opening_fork>{{{}, std::move(awaitable), this},
                                                            this->load_steals()};
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 0989950..a8f27df 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -5360,20 +5360,20 @@ struct fork_awaitable : std::suspend_always {
  * @brief An awaiter identical to `fork_awaitable` but with an additional boolean indicating if the child
  * completed synchronously.
  *
- * @tparam ChildThrows If `true` then the child captures it's exceptions in it's result.
+ * @tparam Throws If `true` then the child (or a sibling) may have captured an exception in the parent.
  * @tparam R Where the fork statement is located.
  */
-template <bool ChildThrows, region R>
+template <bool Throws, region R>
   requires (R != region::outside)
 struct sync_fork_awaitable : fork_awaitable {
   /**
    * @brief Returns `true` if the forked child completed synchronously.
    *
-   * If `ChildThrows` is `true` then this will throw `lf::core::exception_before_join`
+   * If `Throws` is `true` then this will throw `lf::core::exception_before_join`
    * if there is an exception or possibly the child's exception if the child had no forked
    * siblings.
    */
-  auto await_resume() const noexcept(!ChildThrows) -> bool {
+  auto await_resume() const noexcept(!Throws) -> bool {
     // Help the optimizer.
     fork_awaitable::await_resume();
 
@@ -5385,7 +5385,7 @@ struct sync_fork_awaitable : fork_awaitable {
 
       // Then completed synchronously.
 
-      if constexpr (ChildThrows) {
+      if constexpr (Throws) {
         if (R == region::opening_fork) {
           LF_ASSERT(steals_post == 0);
           // If the opening fork completed synchronously the we can rethrow.
@@ -6176,12 +6176,14 @@ struct promise_base : frame {
 
     awaitable->set_parent(this);
 
-    constexpr bool throwing = stash_exception_in_return<I>;
+    // If the child stashes its exception in the return object then it cannot reach this frame, however
+    // a sibling's exception can if we may be inside a fork-join scope.
+    constexpr bool throwing = !stash_exception_in_return<I>;
 
     using enum region;
 
     if constexpr (Tag == tag::call) {
-      if /*  */ constexpr (throwing && std::same_as<Mod, modifier::eager_throw>) {
+      if /*  */ constexpr (std::same_as<Mod, modifier::eager_throw>) {
         return eager_call_awaitable<unknown>{{{}, std::move(awaitable)}, this};
       } else if constexpr (throwing && std::same_as<Mod, modifier::eager_throw_outside>) {
         return eager_call_awaitable<outside>{{{}, std::move(awaitable)}, this};
@@ -6194,7 +6196,7 @@ struct promise_base : frame {
       if /*  */ constexpr (std::same_as<Mod, modifier::none>) {
         return fork_awaitable{{}, std::move(awaitable), this};
       } else if constexpr (std::same_as<Mod, modifier::sync>) {
-        return sync_fork_awaitable<throwing, unknown>{{{}, std::move(awaitable), this}, this->load_steals()};
+        return sync_fork_awaitable<true, unknown>{{{}, std::move(awaitable), this}, this->load_steals()};
       } else if constexpr (std::same_as<Mod, modifier::sync_outside>) {
         return sync_fork_awaitable<throwing, opening_fork>{{{}, std::move(awaitable), this},
                                                            this->load_steals()};
-- 
2.43.0


From 1dab131b8dfa02a479d824255de1694cab5a7043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 06/12] fix: make moving a busy_pool or lazy_pool work

Destroying a moved-from pool dereferenced its null shared state and move
assigning to a running pool terminated the program by overwriting joinable
threads.
---
 include/libfork/schedule/busy_pool.hpp | 19 +++++++++++--
 include/libfork/schedule/lazy_pool.hpp | 19 +++++++++++--
 single_header/libfork.hpp              | 38 +++++++++++++++++++++++---
 3 files changed, 68 insertions(+), 8 deletions(-)

diff --git a/include/libfork/schedule/busy_pool.hpp b/include/libfork/schedule/busy_pool.hpp
index df1d676..e2b52a3 100644
--- a/include/libfork/schedule/busy_pool.hpp
+++ b/include/libfork/schedule/busy_pool.hpp
@@ -16,7 +16,7 @@
 #include <random>  // for random_device, uniform_int_distribution
 #include <span>    // for span
 #include <thread>  // for thread
-#include <utility> // for move
+#include <utility> // for move, swap
 #include <vector>  // for vector
 
 #include "libfork/core/defer.hpp"                 // for LF_DEFER
@@ -145,7 +145,17 @@ class busy_pool {
   /**
    * @brief Move assign a lazy_pool object.
    */
-  auto operator=(busy_pool &&other) noexcept -> busy_pool & = default;
+  auto operator=(busy_pool &&other) noexcept -> busy_pool & {
+    // Swap, our workers (if any) are stopped by the destructor of `other`.
+    std::swap(m_num_threads, other.m_num_threads);
+    std::swap(m_dist, other.m_dist);
+    std::swap(m_rng, other.m_rng);
+    m_share.swap(other.m_share);
+    m_worker.swap(other.m_worker);
+    m_threads.swap(other.m_threads);
+    m_contexts.swap(other.m_contexts);
+    return *this;
+  }
   /**
    * @brief The busy pool is not copy assignable.
    */
@@ -199,6 +209,11 @@ class busy_pool {
   auto contexts() noexcept -> std::span<worker_context *> { return m_contexts; }
 
   ~busy_pool() noexcept {
+
+    if (!m_share) {
+      return; // Moved from, nothing to stop.
+    }
+
     LF_LOG("Requesting a stop");
     // Set conditions for workers to stop
     m_share->stop.test_and_set(std::memory_order_release);
diff --git a/include/libfork/schedule/lazy_pool.hpp b/include/libfork/schedule/lazy_pool.hpp
index ef43035..f2a83a7 100644
--- a/include/libfork/schedule/lazy_pool.hpp
+++ b/include/libfork/schedule/lazy_pool.hpp
@@ -19,7 +19,7 @@
 #include <random>     // for random_device, uniform_int_distribution
 #include <span>       // for span
 #include <thread>     // for thread
-#include <utility>    // for move
+#include <utility>    // for move, swap
 #include <vector>     // for vector
 
 #include "libfork/core/defer.hpp"                 // for LF_DEFER
@@ -312,7 +312,17 @@ class lazy_pool {
   /**
    * @brief Move assign a lazy_pool object.
    */
-  auto operator=(lazy_pool &&other) noexcept -> lazy_pool & = default;
+  auto operator=(lazy_pool &&other) noexcept -> lazy_pool & {
+    // Swap, our workers (if any) are stopped by the destructor of `other`.
+    std::swap(m_num_threads, other.m_num_threads);
+    std::swap(m_dist, other.m_dist);
+    std::swap(m_rng, other.m_rng);
+    m_share.swap(other.m_share);
+    m_worker.swap(other.m_worker);
+    m_threads.swap(other.m_threads);
+    m_contexts.swap(other.m_contexts);
+    return *this;
+  }
   /**
    * @brief The lazy pool is not copy assignable.
    */
@@ -379,6 +389,11 @@ class lazy_pool {
    * @brief Destroy the lazy pool object, stops all workers.
    */
   ~lazy_pool() noexcept {
+
+    if (!m_share) {
+      return; // Moved from, nothing to stop.
+    }
+
     LF_LOG("Requesting a stop");
 
     // Set conditions for workers to stop.
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index a8f27df..68e09e8 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -6512,7 +6512,7 @@ struct std::coroutine_traits<lf::task<R>, Args...> {
 #include <random>  // for random_device, uniform_int_distribution
 #include <span>    // for span
 #include <thread>  // for thread
-#include <utility> // for move
+#include <utility> // for move, swap
 #include <vector>  // for vector
                  // for LF_DEFER           // for worker_context, nullary_function_t           // for submit_handle, task_handle            // for resume          // for checked_cast, k_cache_line                 // for LF_ASSERT, LF_ASSERT_NO_ASSUME, LF_LOG             // for scheduler
 #ifndef D8877F11_1F66_4AD0_B949_C0DFF390C2DB
@@ -7611,7 +7611,17 @@ class busy_pool {
   /**
    * @brief Move assign a lazy_pool object.
    */
-  auto operator=(busy_pool &&other) noexcept -> busy_pool & = default;
+  auto operator=(busy_pool &&other) noexcept -> busy_pool & {
+    // Swap, our workers (if any) are stopped by the destructor of `other`.
+    std::swap(m_num_threads, other.m_num_threads);
+    std::swap(m_dist, other.m_dist);
+    std::swap(m_rng, other.m_rng);
+    m_share.swap(other.m_share);
+    m_worker.swap(other.m_worker);
+    m_threads.swap(other.m_threads);
+    m_contexts.swap(other.m_contexts);
+    return *this;
+  }
   /**
    * @brief The busy pool is not copy assignable.
    */
@@ -7665,6 +7675,11 @@ class busy_pool {
   auto contexts() noexcept -> std::span<worker_context *> { return m_contexts; }
 
   ~busy_pool() noexcept {
+
+    if (!m_share) {
+      return; // Moved from, nothing to stop.
+    }
+
     LF_LOG("Requesting a stop");
     // Set conditions for workers to stop
     m_share->stop.test_and_set(std::memory_order_release);
@@ -7703,7 +7718,7 @@ static_assert(scheduler<busy_pool>);
 #include <random>     // for random_device, uniform_int_distribution
 #include <span>       // for span
 #include <thread>     // for thread
-#include <utility>    // for move
+#include <utility>    // for move, swap
 #include <vector>     // for vector
                  // for LF_DEFER           // for worker_context, nullary_function_t           // for submit_handle, task_handle            // for resume          // for k_cache_line                 // for LF_ASSERT, LF_LOG, LF_ASSERT_NO_ASSUME             // for scheduler         // for busy_vars
 #pragma once
@@ -8228,7 +8243,17 @@ class lazy_pool {
   /**
    * @brief Move assign a lazy_pool object.
    */
-  auto operator=(lazy_pool &&other) noexcept -> lazy_pool & = default;
+  auto operator=(lazy_pool &&other) noexcept -> lazy_pool & {
+    // Swap, our workers (if any) are stopped by the destructor of `other`.
+    std::swap(m_num_threads, other.m_num_threads);
+    std::swap(m_dist, other.m_dist);
+    std::swap(m_rng, other.m_rng);
+    m_share.swap(other.m_share);
+    m_worker.swap(other.m_worker);
+    m_threads.swap(other.m_threads);
+    m_contexts.swap(other.m_contexts);
+    return *this;
+  }
   /**
    * @brief The lazy pool is not copy assignable.
    */
@@ -8295,6 +8320,11 @@ class lazy_pool {
    * @brief Destroy the lazy pool object, stops all workers.
    */
   ~lazy_pool() noexcept {
+
+    if (!m_share) {
+      return; // Moved from, nothing to stop.
+    }
+
     LF_LOG("Requesting a stop");
 
     // Set conditions for workers to stop.
-- 
2.43.0


From 018e48b5576836a8c87ff15529a4e1b6a698ad1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 07/12] fix: publish a grown deque buffer with release
 semantics

A thief may read the pointer to a freshly allocated ring buffer while it still
reads an old value of bottom. Nothing then ordered the construction of the new
buffer (its capacity, mask and copied elements) before the thief's use of it,
which is a data race on any weakly ordered machine.
---
 include/libfork/core/ext/deque.hpp | 3 ++-
 single_header/libfork.hpp          | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libfork/core/ext/deque.hpp b/include/libfork/core/ext/deque.hpp
index 89a488b..1f2d60d 100644
--- a/include/libfork/core/ext/deque.hpp
+++ b/include/libfork/core/ext/deque.hpp
@@ -392,7 +392,8 @@ constexpr auto deque<T>::push(T const &val) -> void {
       // This should never throw as we reserve 64 slots.
       m_garbage.emplace_back(std::exchange(buf, bigger));
     }();
-    m_buf.store(buf, relaxed);
+    // Release, such that a thief that reads the new pointer (but an old bottom) sees the new buffer's contents.
+    m_buf.store(buf, release);
   }
 
   // Construct new object, this does not have to be atomic as no one can steal this item until
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 68e09e8..528d032 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -1208,7 +1208,8 @@ constexpr auto deque<T>::push(T const &val) -> void {
       // This should never throw as we reserve 64 slots.
       m_garbage.emplace_back(std::exchange(buf, bigger));
     }();
-    m_buf.store(buf, relaxed);
+    // Release, such that a thief that reads the new pointer (but an old bottom) sees the new buffer's contents.
+    m_buf.store(buf, release);
   }
 
   // Construct new object, this does not have to be atomic as no one can steal this item until
-- 
2.43.0


From 13d58fbe53fae60999176f946feda42c51dafba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:24 +0000
Subject: [PATCH 08/12] fix: let fold and scan accept sentinels of another type
 than the iterator

Both recursed by passing an iterator where the sentinel type of the original
range was expected, so ranges whose sentinel is not an iterator (which the
documented signatures allow) did not compile.
---
 include/libfork/algorithm/fold.hpp |  4 ++--
 include/libfork/algorithm/scan.hpp | 13 ++++++++-----
 single_header/libfork.hpp          | 17 ++++++++++-------
 3 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/include/libfork/algorithm/fold.hpp b/include/libfork/algorithm/fold.hpp
index e3f4d5f..47dc4f4 100644
--- a/include/libfork/algorithm/fold.hpp
+++ b/include/libfork/algorithm/fold.hpp
@@ -51,7 +51,7 @@ struct fold_overload_impl {
    * @brief Recursive implementation of `fold`, requires that `tail - head > 0`.
    */
   LF_STATIC_CALL auto
-  operator()(auto fold, I head, S tail, int_t n, Bop bop, Proj proj) LF_STATIC_CONST->lf::task<acc_t> {
+  operator()(auto fold, I head, std::sized_sentinel_for<I> auto tail, int_t n, Bop bop, Proj proj) LF_STATIC_CONST->lf::task<acc_t> {
 
     LF_ASSERT(n > 1);
 
@@ -111,7 +111,7 @@ struct fold_overload_impl {
    * requires `a + b` to be evaluated before adding the result to `c`.
    */
   LF_STATIC_CALL auto
-  operator()(auto fold, I head, S tail, Bop bop, Proj proj) LF_STATIC_CONST->lf::task<acc_t> {
+  operator()(auto fold, I head, std::sized_sentinel_for<I> auto tail, Bop bop, Proj proj) LF_STATIC_CONST->lf::task<acc_t> {
 
     int_t len = tail - head;
 
diff --git a/include/libfork/algorithm/scan.hpp b/include/libfork/algorithm/scan.hpp
index fd5a268..1a3c7fa 100644
--- a/include/libfork/algorithm/scan.hpp
+++ b/include/libfork/algorithm/scan.hpp
@@ -497,15 +497,18 @@ struct scan_impl {
       co_return;
     }
 
-    constexpr rise_sweep<I, S, Proj, Bop, O> rise = {};
-    constexpr fall_sweep<I, S, Proj, Bop, O> fall = {};
+    // The sweeps split the input hence, they need the end of the input as an iterator.
+    I const last = beg + (end - beg);
+
+    constexpr rise_sweep<I, I, Proj, Bop, O> rise = {};
+    constexpr fall_sweep<I, I, Proj, Bop, O> fall = {};
 
     // Up-sweep the reduction.
-    I scan_end = co_await lf::just(rise)(beg, end, n, bop, proj, out);
+    I scan_end = co_await lf::just(rise)(beg, last, n, bop, proj, out);
 
-    if (scan_end != end) {
+    if (scan_end != last) {
       // If some un-scanned input remains, fall-sweep it.
-      co_await lf::just(fall)(beg, end, n, bop, proj, out, scan_end);
+      co_await lf::just(fall)(beg, last, n, bop, proj, out, scan_end);
     }
   }
 };
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 528d032..998d9de 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -8887,7 +8887,7 @@ struct fold_overload_impl {
    * @brief Recursive implementation of `fold`, requires that `tail - head > 0`.
    */
   LF_STATIC_CALL auto
-  operator()(auto fold, I head, S tail, int_t n, Bop bop, Proj proj) LF_STATIC_CONST->lf::task<acc_t> {
+  operator()(auto fold, I head, std::sized_sentinel_for<I> auto tail, int_t n, Bop bop, Proj proj) LF_STATIC_CONST->lf::task<acc_t> {
 
     LF_ASSERT(n > 1);
 
@@ -8947,7 +8947,7 @@ struct fold_overload_impl {
    * requires `a + b` to be evaluated before adding the result to `c`.
    */
   LF_STATIC_CALL auto
-  operator()(auto fold, I head, S tail, Bop bop, Proj proj) LF_STATIC_CONST->lf::task<acc_t> {
+  operator()(auto fold, I head, std::sized_sentinel_for<I> auto tail, Bop bop, Proj proj) LF_STATIC_CONST->lf::task<acc_t> {
 
     int_t len = tail - head;
 
@@ -10140,15 +10140,18 @@ struct scan_impl {
       co_return;
     }
 
-    constexpr rise_sweep<I, S, Proj, Bop, O> rise = {};
-    constexpr fall_sweep<I, S, Proj, Bop, O> fall = {};
+    // The sweeps split the input hence, they need the end of the input as an iterator.
+    I const last = beg + (end - beg);
+
+    constexpr rise_sweep<I, I, Proj, Bop, O> rise = {};
+    constexpr fall_sweep<I, I, Proj, Bop, O> fall = {};
 
     // Up-sweep the reduction.
-    I scan_end = co_await lf::just(rise)(beg, end, n, bop, proj, out);
+    I scan_end = co_await lf::just(rise)(beg, last, n, bop, proj, out);
 
-    if (scan_end != end) {
+    if (scan_end != last) {
       // If some un-scanned input remains, fall-sweep it.
-      co_await lf::just(fall)(beg, end, n, bop, proj, out, scan_end);
+      co_await lf::just(fall)(beg, last, n, bop, proj, out, scan_end);
     }
   }
 };
-- 
2.43.0


From dd0261665fbcc4781d7ebb3fd7b9c3be7c840937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 09/12] fix: distribute over the whole topology when it
 contains no packages

---
 include/libfork/schedule/ext/numa.hpp | 4 +++-
 single_header/libfork.hpp             | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/libfork/schedule/ext/numa.hpp b/include/libfork/schedule/ext/numa.hpp
index f1053e0..173db98 100644
--- a/include/libfork/schedule/ext/numa.hpp
+++ b/include/libfork/schedule/ext/numa.hpp
@@ -326,7 +326,9 @@ inline auto numa_topology::split(std::size_t n, numa_strategy strategy) const ->
       roots.push_back(next_numa);
       numa = next_numa;
     }
-  } else {
+  }
+
+  if (roots.empty()) { // Either fanning out or the topology does not contain any packages.
     roots.push_back(hwloc_get_root_obj(m_topology.get()));
   }
 
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 998d9de..c43f363 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -6842,7 +6842,9 @@ inline auto numa_topology::split(std::size_t n, numa_strategy strategy) const ->
       roots.push_back(next_numa);
       numa = next_numa;
     }
-  } else {
+  }
+
+  if (roots.empty()) { // Either fanning out or the topology does not contain any packages.
     roots.push_back(hwloc_get_root_obj(m_topology.get()));
   }
 
-- 
2.43.0


From aca912ebfa63ba31e1ea0574248c651ec227c473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 10/12] fix: let resume_on switch to any scheduler, as
 documented

---
 include/libfork/core/scheduler.hpp | 14 ++++++++++----
 single_header/libfork.hpp          | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/libfork/core/scheduler.hpp b/include/libfork/core/scheduler.hpp
index 1f9bc4a..f36f36b 100644
--- a/include/libfork/core/scheduler.hpp
+++ b/include/libfork/core/scheduler.hpp
@@ -9,7 +9,7 @@
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
-#include <concepts>    // for convertible_to, same_as
+#include <concepts>    // for convertible_to, derived_from, same_as
 #include <type_traits> // for remove_cvref_t
 #include <utility>     // for declval, forward
 
@@ -66,7 +66,7 @@ struct resume_on_quasi_awaitable;
  */
 template <scheduler Sch>
 auto resume_on(Sch *dest) noexcept -> resume_on_quasi_awaitable<Sch> {
-  return resume_on_quasi_awaitable<Sch>{non_null(dest)};
+  return resume_on_quasi_awaitable<Sch>{impl::non_null(dest)};
 }
 
 /**
@@ -77,7 +77,7 @@ struct [[nodiscard("This should be immediately co_awaited")]] resume_on_quasi_aw
  private:
   Sch *m_dest;
 
-  explicit resume_on_quasi_awaitable(worker_context *dest) noexcept : m_dest{dest} {}
+  explicit resume_on_quasi_awaitable(Sch *dest) noexcept : m_dest{dest} {}
 
   friend auto resume_on<Sch>(Sch *dest) noexcept -> resume_on_quasi_awaitable;
 
@@ -85,7 +85,13 @@ struct [[nodiscard("This should be immediately co_awaited")]] resume_on_quasi_aw
   /**
    * @brief Don't suspend if on correct context.
    */
-  auto await_ready() const noexcept { return impl::tls::context() == m_dest; }
+  auto await_ready() const noexcept -> bool {
+    if constexpr (std::derived_from<Sch, worker_context>) {
+      return impl::tls::context() == m_dest;
+    } else {
+      return false;
+    }
+  }
 
   /**
    * @brief Reschedule this coroutine onto the requested destination.
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index c43f363..3ddecdb 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -4486,7 +4486,7 @@ inline constexpr auto call = dispatch<tag::call>;
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
-#include <concepts>    // for convertible_to, same_as
+#include <concepts>    // for convertible_to, derived_from, same_as
 #include <type_traits> // for remove_cvref_t
 #include <utility>     // for declval, forward
   // for worker_context  // for submit_handle      // for context    // for storable // for non_null
@@ -4538,7 +4538,7 @@ struct resume_on_quasi_awaitable;
  */
 template <scheduler Sch>
 auto resume_on(Sch *dest) noexcept -> resume_on_quasi_awaitable<Sch> {
-  return resume_on_quasi_awaitable<Sch>{non_null(dest)};
+  return resume_on_quasi_awaitable<Sch>{impl::non_null(dest)};
 }
 
 /**
@@ -4549,7 +4549,7 @@ struct [[nodiscard("This should be immediately co_awaited")]] resume_on_quasi_aw
  private:
   Sch *m_dest;
 
-  explicit resume_on_quasi_awaitable(worker_context *dest) noexcept : m_dest{dest} {}
+  explicit resume_on_quasi_awaitable(Sch *dest) noexcept : m_dest{dest} {}
 
   friend auto resume_on<Sch>(Sch *dest) noexcept -> resume_on_quasi_awaitable;
 
@@ -4557,7 +4557,13 @@ struct [[nodiscard("This should be immediately co_awaited")]] resume_on_quasi_aw
   /**
    * @brief Don't suspend if on correct context.
    */
-  auto await_ready() const noexcept { return impl::tls::context() == m_dest; }
+  auto await_ready() const noexcept -> bool {
+    if constexpr (std::derived_from<Sch, worker_context>) {
+      return impl::tls::context() == m_dest;
+    } else {
+      return false;
+    }
+  }
 
   /**
    * @brief Reschedule this coroutine onto the requested destination.
-- 
2.43.0


From a84f6cd432ffac79da6809360cd81d5f2134ef35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 11/12] fix: let worker_init report that a worker's queue could
 not be allocated

The constructors of the contexts allocate the buffer of the deque but were
noexcept, hence a failed allocation terminated the program.
---
 include/libfork/core/ext/context.hpp | 4 ++--
 single_header/libfork.hpp            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/libfork/core/ext/context.hpp b/include/libfork/core/ext/context.hpp
index de43258..d729fb9 100644
--- a/include/libfork/core/ext/context.hpp
+++ b/include/libfork/core/ext/context.hpp
@@ -98,7 +98,7 @@ class worker_context : impl::immovable<context> {
    * Notify is a function that may be called concurrently by other workers to signal to the
    * worker owning this context that a task has been submitted to a private queue.
    */
-  explicit worker_context(nullary_function_t notify) noexcept : m_notify(std::move(notify)) {
+  explicit worker_context(nullary_function_t notify) : m_notify(std::move(notify)) {
     LF_ASSERT(m_notify);
   }
 
@@ -128,7 +128,7 @@ class full_context : public worker_context {
   /**
    * @brief Construct a new full context object, store a copy of the user provided notification function.
    */
-  explicit full_context(nullary_function_t notify) noexcept : worker_context(std::move(notify)) {}
+  explicit full_context(nullary_function_t notify) : worker_context(std::move(notify)) {}
 
   /**
    * @brief Add a task to the work queue.
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 3ddecdb..95b4cfc 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -2425,7 +2425,7 @@ class worker_context : impl::immovable<context> {
    * Notify is a function that may be called concurrently by other workers to signal to the
    * worker owning this context that a task has been submitted to a private queue.
    */
-  explicit worker_context(nullary_function_t notify) noexcept : m_notify(std::move(notify)) {
+  explicit worker_context(nullary_function_t notify) : m_notify(std::move(notify)) {
     LF_ASSERT(m_notify);
   }
 
@@ -2455,7 +2455,7 @@ class full_context : public worker_context {
   /**
    * @brief Construct a new full context object, store a copy of the user provided notification function.
    */
-  explicit full_context(nullary_function_t notify) noexcept : worker_context(std::move(notify)) {}
+  explicit full_context(nullary_function_t notify) : worker_context(std::move(notify)) {}
 
   /**
    * @brief Add a task to the work queue.
-- 
2.43.0


From f91e668df1362e91d866f5c8f8b354a857f42fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 12/12] fix: do not leak the buffer of a deque whose
 constructor throws

---
 include/libfork/core/ext/deque.hpp | 4 +++-
 single_header/libfork.hpp          | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/libfork/core/ext/deque.hpp b/include/libfork/core/ext/deque.hpp
index 1f2d60d..9a8c0bf 100644
--- a/include/libfork/core/ext/deque.hpp
+++ b/include/libfork/core/ext/deque.hpp
@@ -350,8 +350,10 @@ template <dequeable T>
 constexpr deque<T>::deque(std::ptrdiff_t cap)
     : m_top(0),
       m_bottom(0),
-      m_buf(new impl::atomic_ring_buf<T>{cap}) {
+      m_buf(nullptr) {
   m_garbage.reserve(k_garbage_reserve);
+  // Last, the destructor does not run if the constructor throws.
+  m_buf.store(new impl::atomic_ring_buf<T>{cap}, relaxed);
 }
 
 template <dequeable T>
diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 95b4cfc..e1d17bb 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -1166,8 +1166,10 @@ template <dequeable T>
 constexpr deque<T>::deque(std::ptrdiff_t cap)
     : m_top(0),
       m_bottom(0),
-      m_buf(new impl::atomic_ring_buf<T>{cap}) {
+      m_buf(nullptr) {
   m_garbage.reserve(k_garbage_reserve);
+  // Last, the destructor does not run if the constructor throws.
+  m_buf.store(new impl::atomic_ring_buf<T>{cap}, relaxed);
 }
 
 template <dequeable T>
-- 
2.43.0

