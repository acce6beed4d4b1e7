From 542f45222295e047b83b17726bd80f55b6f95157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:03 +0000
Subject: [PATCH 001/108] fix: thread pool worker no longer retires with a task
 in its queue

A worker whose idle wait timed out retired even when a task had been queued
between the timeout and taking the lock; the enqueuer had seen an active
worker, so the task was stranded until some later enqueue hit that worker.
---
 framework/core/src/concurrency/executor/thread_pool.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/concurrency/executor/thread_pool.cc b/framework/core/src/concurrency/executor/thread_pool.cc
index 5f5fc1b..2c7ac8e 100644
--- a/framework/core/src/concurrency/executor/thread_pool.cc
+++ b/framework/core/src/concurrency/executor/thread_pool.cc
@@ -291,7 +291,9 @@ bool ThreadPoolWorker::wait_for_task(std::unique_lock<std::mutex> &lock) {
 
   if (!lock.owns_lock())
     lock.lock();
-  if (!event_found || abort_) {
+  // A task may have been queued between the timeout and taking the lock: the
+  // enqueuer saw a non-idle worker and counts on it, so don't retire then.
+  if (abort_ || (!event_found && public_queue_.empty())) {
     idle_ = true;
     lock.unlock();
     return false;
-- 
2.43.0


From d7f9a6c22a41a52987036246925cbf6d32f59064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:03 +0000
Subject: [PATCH 002/108] fix: thread pool shutdown publishes both abort flags
 together

With atomic_abort_ set and abort_ not yet, a worker left its loop with tasks
in its private queue while enqueue still restarted it, which trips the
private_queue_.empty() assertion in drain_queue.
---
 framework/core/src/concurrency/executor/thread_pool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/concurrency/executor/thread_pool.cc b/framework/core/src/concurrency/executor/thread_pool.cc
index 2c7ac8e..97a9ab7 100644
--- a/framework/core/src/concurrency/executor/thread_pool.cc
+++ b/framework/core/src/concurrency/executor/thread_pool.cc
@@ -459,10 +459,10 @@ void ThreadPoolWorker::enqueue_local(std::span<Task> tasks) {
 
 void ThreadPoolWorker::shutdown() {
   assert(!atomic_abort_.load(std::memory_order_relaxed));
-  atomic_abort_.store(true, std::memory_order_relaxed);
 
   {
     std::unique_lock<decltype(lock_)> lock{lock_};
+    atomic_abort_.store(true, std::memory_order_relaxed);
     abort_ = true;
   }
 
-- 
2.43.0


From ffc45310e9827f5d77484ae0c6c31c0513262ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:03 +0000
Subject: [PATCH 003/108] fix: a task posted to a thread pool from another
 pool's worker runs on the right pool

enqueue used the calling thread's worker whatever pool it belongs to, so such a
task ran on the caller's pool and ignored the target's shutdown.
---
 .../src/concurrency/executor/thread_pool.cc     | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/concurrency/executor/thread_pool.cc b/framework/core/src/concurrency/executor/thread_pool.cc
index 97a9ab7..512259d 100644
--- a/framework/core/src/concurrency/executor/thread_pool.cc
+++ b/framework/core/src/concurrency/executor/thread_pool.cc
@@ -60,6 +60,10 @@ class alignas(kCacheInlineAlignment) ThreadPoolWorker {
 
   bool appears_empty() const noexcept;
 
+  bool belongs_to(const ThreadPool &pool) const noexcept {
+    return &parent_pool_ == &pool;
+  }
+
  private:
   std::deque<Task> private_queue_;
   std::vector<size_t> idle_worker_list_;
@@ -534,8 +538,12 @@ void ThreadPool::mark_worker_active(size_t index) noexcept {
 }
 
 void ThreadPool::enqueue(Task task) {
-  const auto this_worker = detail::s_tl_thread_pool_data.this_worker;
-  const auto this_worker_index = detail::s_tl_thread_pool_data.this_thread_index;
+  auto this_worker = detail::s_tl_thread_pool_data.this_worker;
+  auto this_worker_index = detail::s_tl_thread_pool_data.this_thread_index;
+  if (this_worker != nullptr && !this_worker->belongs_to(*this)) {
+    this_worker = nullptr; // A worker of another pool.
+    this_worker_index = static_cast<size_t>(-1);
+  }
   if (this_worker != nullptr && this_worker->appears_empty()) {
     return this_worker->enqueue_local(task);
   }
@@ -552,8 +560,9 @@ void ThreadPool::enqueue(Task task) {
 }
 
 void ThreadPool::enqueue(std::span<Task> tasks) {
-  if (detail::s_tl_thread_pool_data.this_worker != nullptr) {
-    return detail::s_tl_thread_pool_data.this_worker->enqueue_local(tasks);
+  const auto this_worker = detail::s_tl_thread_pool_data.this_worker;
+  if (this_worker != nullptr && this_worker->belongs_to(*this)) {
+    return this_worker->enqueue_local(tasks);
   }
   if (tasks.size() < workers_.size()) {
     for (auto &task : tasks) {
-- 
2.43.0


From 31636053cd8d928500cd84e66963eb3b53a00d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:40 +0000
Subject: [PATCH 004/108] fix: worker thread enqueues a task posted from itself
 only once

enqueue fell through from the local to the foreign queue, so a task posted by
the worker itself was followed by an empty one, and a shutdown in between made
post throw although the task had been accepted.
---
 framework/core/src/concurrency/executor/worker_thread.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/concurrency/executor/worker_thread.cc b/framework/core/src/concurrency/executor/worker_thread.cc
index 00f968e..ab418f5 100644
--- a/framework/core/src/concurrency/executor/worker_thread.cc
+++ b/framework/core/src/concurrency/executor/worker_thread.cc
@@ -137,14 +137,14 @@ void WorkerThread::enqueue_foreign(std::span<Task> tasks) {
 
 void WorkerThread::enqueue(Task task) {
   if (detail::s_tl_this_worker == this)
-    enqueue_local(task);
+    return enqueue_local(task);
 
   enqueue_foreign(task);
 }
 
 void WorkerThread::enqueue(std::span<Task> tasks) {
   if (detail::s_tl_this_worker == this)
-    enqueue_local(tasks);
+    return enqueue_local(tasks);
 
   enqueue_foreign(tasks);
 }
-- 
2.43.0


From f370eee9a3c92f54eba77147753a1677fd860677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:40 +0000
Subject: [PATCH 005/108] fix: Manual::wait_for_task_for/until report success
 with several tasks queued

The task count was compared with == 1, so with two or more tasks queued the
wait reported a timeout.
---
 framework/core/include/plain/concurrency/executor/manual.h | 2 +-
 framework/core/src/concurrency/executor/manual.cc          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/concurrency/executor/manual.h b/framework/core/include/plain/concurrency/executor/manual.h
index 8e4ecbf..06af73e 100644
--- a/framework/core/include/plain/concurrency/executor/manual.h
+++ b/framework/core/include/plain/concurrency/executor/manual.h
@@ -65,7 +65,7 @@ Manual final : public Derivable<Manual> {
   template <typename Clock, typename Duration = typename Clock::duration>
   bool wait_for_task_until(
     std::chrono::time_point<Clock, Duration> timeout_time) {
-    return wait_for_tasks_impl(1, to_system_time_point(timeout_time)) == 1;
+    return wait_for_tasks_impl(1, to_system_time_point(timeout_time)) >= 1;
   }
 
   void wait_for_tasks(size_t count);
diff --git a/framework/core/src/concurrency/executor/manual.cc b/framework/core/src/concurrency/executor/manual.cc
index e050c04..377e914 100644
--- a/framework/core/src/concurrency/executor/manual.cc
+++ b/framework/core/src/concurrency/executor/manual.cc
@@ -97,7 +97,7 @@ void Manual::wait_for_task() {
 }
 
 bool Manual::wait_for_task_for(std::chrono::milliseconds max_waiting_time) {
-  return wait_for_tasks_impl(1, time_point_from_now(max_waiting_time)) == 1;
+  return wait_for_tasks_impl(1, time_point_from_now(max_waiting_time)) >= 1;
 }
 
 void Manual::wait_for_tasks(size_t count) {
-- 
2.43.0


From 95a9330e65578bf440b0c46dbbbc32d1af57879e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:15 +0000
Subject: [PATCH 006/108] fix: when_any no longer misses a result that
 completes while it registers

StateBasic::when_any returned the status loaded before the compare-exchange, so
a result completing in between was treated as pending and when_any could wait
for ever.
---
 framework/core/src/concurrency/result/detail/state.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/concurrency/result/detail/state.cc b/framework/core/src/concurrency/result/detail/state.cc
index 3b4c5e2..ba5e615 100644
--- a/framework/core/src/concurrency/result/detail/state.cc
+++ b/framework/core/src/concurrency/result/detail/state.cc
@@ -91,7 +91,10 @@ ProcessStatus StateBasic::when_any(
     ProcessStatus::ConsumerSet,
     std::memory_order_acq_rel,
     std::memory_order_acquire);
-  if (!idle) assert_done();
+  if (!idle) {
+    assert_done();
+    return ProcessStatus::ProducerDone; // Completed in the meantime.
+  }
   return status;
 }
 
-- 
2.43.0


From 8d8cc3cc86189b14dac460d64a495b9e58b92e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:24 +0000
Subject: [PATCH 007/108] fix: a result's producer no longer reads a consumer
 context the consumer released

After publishing ProducerDone the producer still read the when_any / shared
context stored in the state, while a consumer that saw ProducerDone (a second
result of when_any, the last owner of a shared result) was free to delete the
state: use after free. The producer now takes the context out before it
publishes, and try_rewind_consumer waits for that.
---
 .../plain/concurrency/result/detail/config.h       |  1 +
 .../plain/concurrency/result/detail/state.h        | 11 +++++++++--
 .../concurrency/result/detail/consumer_context.cc  |  3 +++
 .../core/src/concurrency/result/detail/state.cc    | 14 +++++++++++---
 4 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/framework/core/include/plain/concurrency/result/detail/config.h b/framework/core/include/plain/concurrency/result/detail/config.h
index 08de7ac..dd26592 100644
--- a/framework/core/include/plain/concurrency/result/detail/config.h
+++ b/framework/core/include/plain/concurrency/result/detail/config.h
@@ -24,6 +24,7 @@ enum class ProcessStatus : int32_t {
   ConsumerWaiting,
   ConsumerDone,
   ProducerDone,
+  ProducerDelivering,
 };
 
 // The consumer status.
diff --git a/framework/core/include/plain/concurrency/result/detail/state.h b/framework/core/include/plain/concurrency/result/detail/state.h
index 638c7ae..f271b58 100644
--- a/framework/core/include/plain/concurrency/result/detail/state.h
+++ b/framework/core/include/plain/concurrency/result/detail/state.h
@@ -35,6 +35,10 @@ class PLAIN_API StateBasic {
 
   void try_rewind_consumer() noexcept;
 
+  // The producer has read the consumer context, which the consumer side may
+  // release from now on.
+  void consumer_taken() noexcept;
+
  protected:
   std::atomic<ProcessStatus> process_status_{ProcessStatus::Idle};
   ConsumerContext consumer_;
@@ -111,8 +115,11 @@ class State : public StateBasic {
   void complete_producer(coroutine_handle<void> done_handle = {}) {
     using plain::sys::detail::atomic_notify_all;
     done_handle_ = done_handle;
-    const auto status = this->process_status_.exchange(
-      ProcessStatus::ProducerDone, std::memory_order_acq_rel);
+    auto status = this->process_status_.load(std::memory_order_acquire);
+    while (!this->process_status_.compare_exchange_weak(
+      status, status == ProcessStatus::ConsumerSet ?
+      ProcessStatus::ProducerDelivering : ProcessStatus::ProducerDone,
+      std::memory_order_acq_rel, std::memory_order_acquire)) {}
     assert(status != ProcessStatus::ProducerDone);
     switch (status) {
       case ProcessStatus::ConsumerSet: {
diff --git a/framework/core/src/concurrency/result/detail/consumer_context.cc b/framework/core/src/concurrency/result/detail/consumer_context.cc
index 7942b71..b27760a 100644
--- a/framework/core/src/concurrency/result/detail/consumer_context.cc
+++ b/framework/core/src/concurrency/result/detail/consumer_context.cc
@@ -175,14 +175,17 @@ void ConsumerContext::resume_consumer(StateBasic &self) const {
       auto caller_handle = storage_.caller_handle;
       assert(static_cast<bool>(caller_handle));
       assert(!caller_handle.done());
+      self.consumer_taken();
       return caller_handle();
     }
     case ConsumerStatus::WhenAny: {
       const auto when_any_ctx = storage_.when_any_ctx;
+      self.consumer_taken();
       return when_any_ctx->try_resume(self);
     }
     case ConsumerStatus::Shared: {
       const auto weak_shared_ctx = storage_.shared_ctx;
+      self.consumer_taken();
       const auto shared_ctx = weak_shared_ctx.lock();
       if (static_cast<bool>(shared_ctx)) {
         shared_ctx->on_finished();
diff --git a/framework/core/src/concurrency/result/detail/state.cc b/framework/core/src/concurrency/result/detail/state.cc
index ba5e615..4a1213e 100644
--- a/framework/core/src/concurrency/result/detail/state.cc
+++ b/framework/core/src/concurrency/result/detail/state.cc
@@ -118,8 +118,6 @@ void StateBasic::share(
 }
 
 void StateBasic::try_rewind_consumer() noexcept {
-  const auto status = process_status_.load(std::memory_order_acquire);
-  if (status != ProcessStatus::ConsumerSet) return;
   auto expected_status = ProcessStatus::ConsumerSet;
   const auto consumer = process_status_.compare_exchange_strong(
     expected_status,
@@ -127,8 +125,18 @@ void StateBasic::try_rewind_consumer() noexcept {
     std::memory_order_acq_rel,
     std::memory_order_acquire);
   if (!consumer) {
-    assert_done();
+    // Wait for a producer which is reading the context.
+    if (expected_status == ProcessStatus::ProducerDelivering)
+      sys::detail::atomic_wait(
+        process_status_, ProcessStatus::ProducerDelivering,
+        std::memory_order_acquire);
     return;
   }
   consumer_.clear();
 }
+
+void StateBasic::consumer_taken() noexcept {
+  process_status_.store(
+    ProcessStatus::ProducerDone, std::memory_order_release);
+  sys::detail::atomic_notify_all(process_status_);
+}
-- 
2.43.0


From eea03544ec6c324cee8445c5e50499eabf1e9678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:16 +0000
Subject: [PATCH 008/108] fix: an executor shut down while one of its timers
 fires no longer ends the process

post throws when the executor is shut down after the check in fire(); the
exception left the timer queue's thread and called std::terminate.
---
 framework/core/src/engine/timer.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/engine/timer.cc b/framework/core/src/engine/timer.cc
index 7f12a7b..8bb53cf 100644
--- a/framework/core/src/engine/timer.cc
+++ b/framework/core/src/engine/timer.cc
@@ -21,12 +21,15 @@ void TimerStateBasic::fire() {
   deadline_ = make_deadline(milliseconds(frequency));
 
   assert(static_cast<bool>(executor_));
-  // FIXME: share the executor maybe get shutdown before post.
   if (executor_->shutdown_requested()) return;
 
-  executor_->post([self = shared_from_this()]() mutable {
-    self->execute();
-  });
+  try {
+    executor_->post([self = shared_from_this()]() mutable {
+      self->execute();
+    });
+  } catch (...) {
+    // The executor was shut down in the meantime, don't end the timer thread.
+  }
 }
 
 Timer::Timer(std::shared_ptr<TimerStateBasic> timer_impl) noexcept :
-- 
2.43.0


From 5e6b5805802ecddcc1a75596f9a649fc44bbe4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:16 +0000
Subject: [PATCH 009/108] fix: timer queue shutdown releases pending requests
 outside its lock

Dropping a pending delay object resumes its coroutine; when that used the queue
(for example by destroying a Timer) shutdown deadlocked on its own mutex.
---
 framework/core/src/engine/timer_queue.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/framework/core/src/engine/timer_queue.cc b/framework/core/src/engine/timer_queue.cc
index 698a958..cc7b7e2 100644
--- a/framework/core/src/engine/timer_queue.cc
+++ b/framework/core/src/engine/timer_queue.cc
@@ -304,10 +304,13 @@ void TimerQueue::shutdown() {
   impl_->abort = true;
   if (!impl_->worker.joinable())
     return;
+  // Releasing requests resumes interrupted delays, which may use this queue.
+  auto request_queue = std::move(impl_->request_queue);
   impl_->request_queue.clear();
   lock.unlock();
 
   impl_->condition.notify_all();
+  request_queue.clear();
   impl_->worker.join();
 }
   
-- 
2.43.0


From edfbf4c9464ddff50b5b3219ce45a672e237e526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:27 +0000
Subject: [PATCH 010/108] fix: clearing one packet flag no longer clears the
 readable flag instead

set_writeable(false), set_call_request(false) and the like left their own flag
set and made the packet unreadable.
---
 framework/core/src/net/packet/basic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/packet/basic.cc b/framework/core/src/net/packet/basic.cc
index 832c1a5..04f77bd 100644
--- a/framework/core/src/net/packet/basic.cc
+++ b/framework/core/src/net/packet/basic.cc
@@ -27,7 +27,7 @@ void Basic::Impl::set_flag(bool _flag, uint32_t type) noexcept {
   if (_flag)
     flag |= (1 << type);
   else
-    flag &= ~(1 << kReadableFlag);
+    flag &= ~(1 << type);
 }
 
 size_t Basic::write(std::string_view str) {
-- 
2.43.0


From a06079e47fd866cf714d13bd4074e38516fb79e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:27 +0000
Subject: [PATCH 011/108] fix: reading bytes of a packet appends them like
 reading a string does

They were inserted in front of what the target already held.
---
 framework/core/src/net/packet/basic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/packet/basic.cc b/framework/core/src/net/packet/basic.cc
index 04f77bd..1567949 100644
--- a/framework/core/src/net/packet/basic.cc
+++ b/framework/core/src/net/packet/basic.cc
@@ -81,7 +81,7 @@ size_t Basic::read(bytes_t &bytes) {
   auto left = impl_->data.size() - impl_->offset;
   if (left < length) return 0;
   const auto *buffer = impl_->data.data() + impl_->offset;
-  bytes.insert(0, buffer, length);
+  bytes.append(buffer, length);
   impl_->offset += length;
   return bytes.size();
 }
-- 
2.43.0


From 8e0c630ac0b8514c3c817d2af129b8b2d53047c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:27 +0000
Subject: [PATCH 012/108] fix: line decoding applies the packet length limit,
 not the buffer capacity

The capacity exceeds small limits, so longer lines were accepted and an
unterminated line over the limit was buffered without end.
---
 framework/core/src/net/stream/codec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/stream/codec.cc b/framework/core/src/net/stream/codec.cc
index dae238f..8d06487 100644
--- a/framework/core/src/net/stream/codec.cc
+++ b/framework/core/src/net/stream/codec.cc
@@ -92,7 +92,7 @@ line_decode(stream::Basic *input, const packet::limit_t &packet_limit) {
   if (!input) return Error{ErrorCode::RunTime};
   bytes_t bytes;
   bytes.reserve(packet_limit.max_length);
-  auto readed = input->peek(bytes.data(), bytes.capacity());
+  auto readed = input->peek(bytes.data(), packet_limit.max_length);
   if (readed == 0) return ErrorCode{ErrorCode::NetPacketNeedRecv};
   std::string_view str{reinterpret_cast<char *>(bytes.data()), readed};
   auto pos = str.find('\n');
-- 
2.43.0


From dab5ffc6507457ae6c185bb3538a80c4bbf8feba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:27 +0000
Subject: [PATCH 013/108] fix: a growing ring keeps its elements

An element's slot depends on the ring's size, so growing while the stored
range was not at the start of the buffer lost and reordered elements.
---
 framework/core/include/plain/basic/ring.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/basic/ring.h b/framework/core/include/plain/basic/ring.h
index e7d3bee..f81ee2d 100644
--- a/framework/core/include/plain/basic/ring.h
+++ b/framework/core/include/plain/basic/ring.h
@@ -242,6 +242,13 @@ using cookie_func_t = std::function<void()>;
     mask_.store(size - 1, std::memory_order_relaxed);
   }
 
+  // Copies the stored elements to their slots in a buffer of the given size.
+  void copy_stored(T *buffer, std::size_t size) const {
+    auto head = head_.load(std::memory_order_relaxed);
+    for (auto i = tail_.load(std::memory_order_relaxed); i != head; ++i)
+      buffer[i & (size - 1)] = buffer_[i & mask_];
+  }
+
  private:
   virtual bool resize(size_t) { return false; }
 
@@ -306,8 +313,12 @@ class DynamicRing : public Ring<T, fake_tso> {
     if (size == 0) {
       buffer_.clear();
       size = SIZE;
+      buffer_.resize(size);
+    } else {
+      std::vector<T> buffer(size);
+      this->copy_stored(buffer.data(), size);
+      buffer_.swap(buffer);
     }
-    buffer_.resize(size);
     this->set_buffer(buffer_.data(), size);
     return true;
   }
-- 
2.43.0


From f8fa46a577c502b7911d16385063c0a4662a566b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:53 +0000
Subject: [PATCH 014/108] fix: RPC unpacks small negative integers as negative

A negative value that fits 8 bits is packed as its bare byte, which was widened
without its sign (-5 of an int32 came back as 251).
---
 framework/core/src/net/rpc/unpacker.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index 6d3a185..6aba109 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -19,7 +19,7 @@ void Unpacker::unpack(int8_t &value) noexcept {
     value = data();
     increment();
   } else {
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   }
 }
@@ -42,7 +42,7 @@ void Unpacker::unpack(int16_t &value) noexcept {
     unpack(val);
     value = val;
   } else {
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   }
 }
@@ -69,7 +69,7 @@ void Unpacker::unpack(int32_t &value) noexcept {
     unpack(val);
     value = val;
   } else {
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   }
 }
@@ -100,7 +100,7 @@ void Unpacker::unpack(int64_t &value) noexcept {
     unpack(val);
     value = val;
   } else {
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   }
 }
-- 
2.43.0


From 378d8a44dbaa4a3b0e2a43777f201796ab736bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:53 +0000
Subject: [PATCH 015/108] fix: RPC packs unsigned values equal to a type tag
 with their tag

2, 4, 6 and 8 were packed as the bare byte that is also the tag of an unsigned
type, so unpacking them consumed the following value.
---
 framework/core/src/net/rpc/packer.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/rpc/packer.cc b/framework/core/src/net/rpc/packer.cc
index 1d7b68f..c8ccd52 100644
--- a/framework/core/src/net/rpc/packer.cc
+++ b/framework/core/src/net/rpc/packer.cc
@@ -56,7 +56,11 @@ void Packer::pack(int64_t value) noexcept {
 }
 
 void Packer::pack(uint8_t value) noexcept {
-  if (value <= 0x7f) {
+  // A bare byte must not read as the tag of an unsigned type.
+  if (value <= 0x7f && value != std::to_underlying(Type::Uint8) &&
+      value != std::to_underlying(Type::Uint16) &&
+      value != std::to_underlying(Type::Uint32) &&
+      value != std::to_underlying(Type::Uint64)) {
     serialized_object_.emplace_back(value);
   } else {
     serialized_object_.emplace_back(std::to_underlying(Type::Uint8));
-- 
2.43.0


From 3d331aa9160b003068f6739dbdab4c0d99c8ff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:53 +0000
Subject: [PATCH 016/108] fix: RPC unpacks unsigned integers independently of
 the target's old value

The bytes were added to what the target held, and a 32 bit value read as 64 bit
skipped a byte of the following value.
---
 framework/core/src/net/rpc/unpacker.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index 6aba109..a96d573 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -117,6 +117,7 @@ void Unpacker::unpack(uint8_t &value) noexcept {
 }
 
 void Unpacker::unpack(uint16_t &value) noexcept {
+  value = 0;
   if (data() == std::to_underlying(Type::Uint16)) {
     increment();
     for (auto i = sizeof(uint16_t); i > 0; --i) {
@@ -134,6 +135,7 @@ void Unpacker::unpack(uint16_t &value) noexcept {
 }
 
 void Unpacker::unpack(uint32_t &value) noexcept {
+  value = 0;
   if (data() == std::to_underlying(Type::Uint32)) {
     increment();
     for (auto i = sizeof(uint32_t); i > 0; --i) {
@@ -157,6 +159,7 @@ void Unpacker::unpack(uint32_t &value) noexcept {
 }
 
 void Unpacker::unpack(uint64_t &value) noexcept {
+  value = 0;
   if (data() == std::to_underlying(Type::Uint64)) {
     increment();
     for (auto i = sizeof(uint64_t); i > 0; --i) {
@@ -169,7 +172,6 @@ void Unpacker::unpack(uint64_t &value) noexcept {
       value += uint64_t(data()) << 8 * (i - 1);
       increment();
     }
-    data_++;
   } else if (data() == std::to_underlying(Type::Uint16)) {
     increment();
     for (auto i = sizeof(uint16_t); i > 0; --i) {
-- 
2.43.0


From 311c8ae2eb891e14bb35df14f518f8fcf5db1a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:53 +0000
Subject: [PATCH 017/108] fix: RPC packs the smallest 32 and 64 bit integers

Their absolute value overflows: INT32_MIN was packed as 0.
---
 framework/core/include/plain/net/rpc/packer.h | 14 ++------------
 framework/core/src/net/rpc/packer.cc          | 10 ++++++----
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/framework/core/include/plain/net/rpc/packer.h b/framework/core/include/plain/net/rpc/packer.h
index ee3bbda..b83180c 100644
--- a/framework/core/include/plain/net/rpc/packer.h
+++ b/framework/core/include/plain/net/rpc/packer.h
@@ -130,21 +130,11 @@ class PLAIN_API Packer {
  public:
 
   std::bitset<64> twos_complement(int64_t value) noexcept {
-    if (value < 0) {
-      auto abs_v = std::abs(value);
-      return ~abs_v + 1;
-    } else {
-      return {static_cast<uint64_t>(value)};
-    }
+    return {static_cast<uint64_t>(value)};
   }
 
   std::bitset<32> twos_complement(int32_t value) noexcept {
-    if (value < 0) {
-      auto abs_v = std::abs(value);
-      return ~abs_v + 1;
-    } else {
-      return {static_cast<uint32_t>(value)};
-    }
+    return {static_cast<uint32_t>(value)};
   }
 
   std::bitset<16> twos_complement(int16_t value) noexcept {
diff --git a/framework/core/src/net/rpc/packer.cc b/framework/core/src/net/rpc/packer.cc
index c8ccd52..7ca8aa7 100644
--- a/framework/core/src/net/rpc/packer.cc
+++ b/framework/core/src/net/rpc/packer.cc
@@ -13,7 +13,8 @@ void Packer::pack(int8_t value) noexcept {
 }
 
 void Packer::pack(int16_t value) noexcept {
-  if (std::abs(value) < std::abs(std::numeric_limits<int8_t>::min())) {
+  if (value > std::numeric_limits<int8_t>::min() &&
+      value <= std::numeric_limits<int8_t>::max()) {
     pack(static_cast<int8_t>(value));
   } else {
     serialized_object_.emplace_back(std::to_underlying(Type::Int16));
@@ -27,7 +28,8 @@ void Packer::pack(int16_t value) noexcept {
 }
 
 void Packer::pack(int32_t value) noexcept {
-  if (std::abs(value) < std::abs(std::numeric_limits<int16_t>::min())) {
+  if (value > std::numeric_limits<int16_t>::min() &&
+      value <= std::numeric_limits<int16_t>::max()) {
     pack(static_cast<int16_t>(value));
   } else {
     serialized_object_.emplace_back(std::to_underlying(Type::Int32));
@@ -41,8 +43,8 @@ void Packer::pack(int32_t value) noexcept {
 }
 
 void Packer::pack(int64_t value) noexcept {
-  if (std::abs(value) < std::abs(std::numeric_limits<int32_t>::min()) &&
-      value != std::numeric_limits<int64_t>::min()) {
+  if (value > std::numeric_limits<int32_t>::min() &&
+      value <= std::numeric_limits<int32_t>::max()) {
     pack(static_cast<int32_t>(value));
   } else {
     serialized_object_.emplace_back(std::to_underlying(Type::Int64));
-- 
2.43.0


From e9fbeb194b827081980fd82040286e7ca2c8ea6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:54 +0000
Subject: [PATCH 018/108] fix: RPC floating point values come back as they were
 packed

Values below 1 and with an exponent over 127 got a wrong exponent, values from
2^63 on, infinities, NaNs and denormals were damaged, and doubles with integral
values lost precision and small negative ones their sign.
---
 framework/core/src/net/rpc/packer.cc   | 65 ++++++--------------------
 framework/core/src/net/rpc/unpacker.cc | 63 +++++++------------------
 2 files changed, 30 insertions(+), 98 deletions(-)

diff --git a/framework/core/src/net/rpc/packer.cc b/framework/core/src/net/rpc/packer.cc
index 7ca8aa7..e81f64a 100644
--- a/framework/core/src/net/rpc/packer.cc
+++ b/framework/core/src/net/rpc/packer.cc
@@ -1,4 +1,5 @@
 #include "plain/net/rpc/packer.h"
+#include <bit>
 
 using plain::net::rpc::Packer;
 
@@ -117,35 +118,18 @@ void Packer::pack(bool value) noexcept {
     serialized_object_.emplace_back(std::to_underlying(Type::FalseBool));
 }
 
-void Packer::pack(float value) noexcept {
-  double integral_part{.0};
-  auto fractional_remainder = float(std::modf(value, &integral_part));
+// Whether the value can be packed as an integer and comes back the same.
+static bool packs_as_int64(double value) noexcept {
+  return std::fabs(value) < 0x1p63 && std::trunc(value) == value;
+}
 
-  if (fractional_remainder == 0) { // Just pack as int
-    pack(int64_t(integral_part));
+void Packer::pack(float value) noexcept {
+  if (packs_as_int64(value)) { // Just pack as int
+    pack(static_cast<int64_t>(value));
   } else {
-    static_assert(std::numeric_limits<float>::radix == 2);
-    auto exponent = std::ilogb(value);
-    float full_mantissa = value / float(scalbn(1.0, exponent));
-    auto sign_mask = std::bitset<32>(
-      static_cast<uint32_t>(std::signbit(full_mantissa)) << 31);
-    auto excess_127_exponent_mask =
-      std::bitset<32>(uint32_t(exponent + 127) << 23);
-    auto normalized_mantissa_mask = std::bitset<32>();
-    float implied_mantissa = std::fabs(full_mantissa) - 1.0f;
-    for (auto i = 23U; i > 0; --i) {
-      integral_part = 0;
-      implied_mantissa *= 2;
-      implied_mantissa = float(std::modf(implied_mantissa, &integral_part));
-      if (uint8_t(integral_part) == 1) {
-        normalized_mantissa_mask |= std::bitset<32>(uint32_t(1 << (i - 1)));
-      }
-    }
-
-    uint32_t ieee754_float32 = (sign_mask | excess_127_exponent_mask |
-       normalized_mantissa_mask).to_ulong();
+    auto ieee754_float32 = std::bit_cast<uint32_t>(value);
     serialized_object_.emplace_back(std::to_underlying(Type::Float32));
-    for (auto i = sizeof(uint32_t); i > 0; --i) {
+    for (auto i = sizeof(ieee754_float32); i > 0; --i) {
       serialized_object_.emplace_back(
         uint8_t(ieee754_float32 >> (8U * (i - 1)) & 0xff));
     }
@@ -153,33 +137,10 @@ void Packer::pack(float value) noexcept {
 }
 
 void Packer::pack(double value) noexcept {
-  double integral_part{.0};
-  double fractional_remainder = std::modf(value, &integral_part);
-
-  if (fractional_remainder == 0) { // Just pack as int
-    pack(int64_t(integral_part));
+  if (packs_as_int64(value)) { // Just pack as int
+    pack(static_cast<int64_t>(value));
   } else {
-    static_assert(std::numeric_limits<float>::radix == 2);
-    auto exponent = std::ilogb(value);
-    double full_mantissa = value / std::scalbn(1.0, exponent);
-    auto sign_mask =
-      std::bitset<64>(uint64_t(std::signbit(full_mantissa)) << 63);
-    auto excess_127_exponent_mask =
-      std::bitset<64>(uint64_t(exponent + 1023) << 52);
-    auto normalized_mantissa_mask = std::bitset<64>();
-    double implied_mantissa = std::fabs(full_mantissa) - 1.0f;
-
-    for (auto i = 52U; i > 0; --i) {
-      integral_part = 0;
-      implied_mantissa *= 2;
-      implied_mantissa = modf(implied_mantissa, &integral_part);
-      if (uint8_t(integral_part) == 1) {
-        normalized_mantissa_mask |= std::bitset<64>(uint64_t(1) << (i - 1));
-      }
-    }
-    auto ieee754_float64 = 
-      (sign_mask | excess_127_exponent_mask |
-       normalized_mantissa_mask).to_ullong();
+    auto ieee754_float64 = std::bit_cast<uint64_t>(value);
     serialized_object_.emplace_back(std::to_underlying(Type::Float64));
     for (auto i = sizeof(ieee754_float64); i > 0; --i) {
       serialized_object_.emplace_back(
diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index a96d573..b677640 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -1,4 +1,5 @@
 #include "plain/net/rpc/unpacker.h"
+#include <bit>
 #include <bitset>
 #include <cmath>
 
@@ -205,32 +206,17 @@ void Unpacker::unpack(float &value) noexcept {
       _data += data() << 8 * (i - 1);
       increment();
     }
-    auto bits = std::bitset<32>(_data);
-    auto mantissa = 1.0f;
-    for (auto i = 23U; i > 0; --i) {
-      if (bits[i - 1]) {
-        mantissa += 1.0f / (1 << (24 - i));
-      }
-    }
-    if (bits[31]) {
-      mantissa *= -1;
-    }
-    uint8_t exponent = 0;
-    for (auto i = 0U; i < 8; ++i) {
-      exponent += bits[i + 23] << i;
-    }
-    exponent -= 127;
-    value = std::ldexp(mantissa, exponent);
+    value = std::bit_cast<float>(_data);
   } else {
-    if (data() == std::to_underlying(Type::Int8) ||
-        data() == std::to_underlying(Type::Int16) ||
-        data() == std::to_underlying(Type::Int32) ||
-        data() == std::to_underlying(Type::Int64)) {
-      int64_t val = 0;
+    if (data() == std::to_underlying(Type::Uint8) ||
+        data() == std::to_underlying(Type::Uint16) ||
+        data() == std::to_underlying(Type::Uint32) ||
+        data() == std::to_underlying(Type::Uint64)) {
+      uint64_t val = 0;
       unpack(val);
       value = float(val);
     } else {
-      uint64_t val = 0;
+      int64_t val = 0;
       unpack(val);
       value = float(val);
     }
@@ -245,34 +231,19 @@ void Unpacker::unpack(double &value) noexcept {
       _data += uint64_t(data()) << 8 * (i - 1);
       increment();
     }
-    auto bits = std::bitset<64>(_data);
-    auto mantissa = 1.0;
-    for (auto i = 52U; i > 0; --i) {
-      if (bits[i - 1]) {
-        mantissa += 1.0 / (uint64_t(1) << (53 - i));
-      }
-    }
-    if (bits[63]) {
-      mantissa *= -1;
-    }
-    uint16_t exponent = 0;
-    for (auto i = 0U; i < 11; ++i) {
-      exponent += bits[i + 52] << i;
-    }
-    exponent -= 1023;
-    value = ldexp(mantissa, exponent);
+    value = std::bit_cast<double>(_data);
   } else {
-    if (data() == std::to_underlying(Type::Int8) ||
-        data() == std::to_underlying(Type::Int16) ||
-        data() == std::to_underlying(Type::Int32) ||
-        data() == std::to_underlying(Type::Int64)) {
-      int64_t val = 0;
+    if (data() == std::to_underlying(Type::Uint8) ||
+        data() == std::to_underlying(Type::Uint16) ||
+        data() == std::to_underlying(Type::Uint32) ||
+        data() == std::to_underlying(Type::Uint64)) {
+      uint64_t val = 0;
       unpack(val);
-      value = float(val);
+      value = double(val);
     } else {
-      uint64_t val = 0;
+      int64_t val = 0;
       unpack(val);
-      value = float(val);
+      value = double(val);
     }
   }
 }
-- 
2.43.0


From 2b4099af0d704c30ab2d6fb01ad2d9c2aadd866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:54 +0000
Subject: [PATCH 019/108] fix: RPC unpacking bounds arrays and maps by the data
 present

A size field of a few bytes made the unpacker create up to 2^32 elements, and an
array longer than the fixed-size target was written past its end.
---
 .../core/include/plain/net/rpc/unpacker.h     | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index 6c414a1..32783a0 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -13,6 +13,7 @@
 #define PLAIN_NET_RPC_UNPACKER_H_
 
 #include "plain/net/rpc/config.h"
+#include <algorithm>
 #include <chrono>
 #include "plain/basic/error.h"
 #include "plain/net/rpc/traits.h"
@@ -117,6 +118,7 @@ class PLAIN_API Unpacker {
       }
       std::vector<uint32_t> x{};
       for (auto i = 0U; i < array_size; ++i) {
+        if (exhausted()) break;
         ValueType val{};
         unpack(val);
         array.emplace_back(val);
@@ -129,6 +131,7 @@ class PLAIN_API Unpacker {
         increment();
       }
       for (auto i = 0U; i < array_size; ++i) {
+        if (exhausted()) break;
         ValueType val{};
         unpack(val);
         array.emplace_back(val);
@@ -137,6 +140,7 @@ class PLAIN_API Unpacker {
       std::size_t array_size = data() & 0b00001111;
       increment();
       for (auto i = 0U; i < array_size; ++i) {
+        if (exhausted()) break;
         ValueType val{};
         unpack(val);
         array.emplace_back(val);
@@ -149,7 +153,9 @@ class PLAIN_API Unpacker {
     using ValueType = typename T::value_type;
     auto vec = std::vector<ValueType>{};
     unpack_array(vec);
-    std::copy(vec.begin(), vec.end(), array.begin());
+    if (vec.size() > array.size()) error_ = ErrorCode::OutOfRange;
+    std::copy_n(
+      vec.begin(), std::min(vec.size(), array.size()), array.begin());
   }
 
   template <typename T>
@@ -165,6 +171,7 @@ class PLAIN_API Unpacker {
       }
       std::vector<uint32_t> x{};
       for (auto i = 0U; i < map_size; ++i) {
+        if (exhausted()) break;
         KeyType key{};
         MappedType value{};
         unpack(key);
@@ -179,6 +186,7 @@ class PLAIN_API Unpacker {
         increment();
       }
       for (auto i = 0U; i < map_size; ++i) {
+        if (exhausted()) break;
         KeyType key{};
         MappedType value{};
         unpack(key);
@@ -189,6 +197,7 @@ class PLAIN_API Unpacker {
       std::size_t map_size = data() & 0b00001111;
       increment();
       for (auto i = 0U; i < map_size; ++i) {
+        if (exhausted()) break;
         KeyType key{};
         MappedType value{};
         unpack(key);
@@ -205,6 +214,14 @@ class PLAIN_API Unpacker {
     }, value);
   }
 
+ private:
+  // Whether there is no data for a further element, which is an error.
+  bool exhausted() noexcept {
+    if (data_ < data_end_) return false;
+    error_ = ErrorCode::OutOfRange;
+    return true;
+  }
+
  public:
   void unpack(int8_t &value) noexcept;
   void unpack(int16_t &value) noexcept;
-- 
2.43.0


From f8db56bd23d25c81804af331ca80955d7f958930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:55 +0000
Subject: [PATCH 020/108] fix: RPC unpacking a nested object keeps an earlier
 error

The nested object's success replaced the error of a truncated value before it.
---
 framework/core/include/plain/net/rpc/unpacker.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index 32783a0..11b2227 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -91,7 +91,7 @@ class PLAIN_API Unpacker {
         Unpacker{recursive_data.data(), recursive_data.size()};
 
       value.pack(recursive_unpacker);
-      error_ = recursive_unpacker.error_;
+      if (recursive_unpacker.error_) error_ = recursive_unpacker.error_;
     }
 
   }
-- 
2.43.0


From b9a069e524146c23d709d59723bb3718b7d67e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:52 +0000
Subject: [PATCH 021/108] fix: a packet sent while the output is flushed is not
 left behind

---
 framework/core/src/net/connection/basic.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index a189b57..05aa72f 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -132,9 +132,10 @@ bool Basic::Impl::process_output(Basic *conn) noexcept {
     if (r > 0 && m) {
       m->increase_send_size(r);
     }
+    // With the lock: a send after the push must find the flag cleared.
+    if (ostream->size() == 0)
+      work_flags &= ~(0x1 << std::to_underlying(WorkFlag::Output));
   }
-  if (ostream->size() == 0)
-    set_work_flag(WorkFlag::Output, false);
   return true;
 }
 
-- 
2.43.0


From 20e41e34d2f9b32797cfae360ac96dc7f331d76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:52 +0000
Subject: [PATCH 022/108] fix: input and the peer's close are not missed while
 input is handled

---
 framework/core/src/net/connection/basic.cc | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 05aa72f..d5e27b9 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -93,11 +93,10 @@ Basic::Impl::Impl(std::shared_ptr<socket::Basic> socket) :
 Basic::Impl::~Impl() = default;
 
 bool Basic::Impl::process_input(Basic *conn) noexcept {
-  if (!has_work_flag(WorkFlag::Input)) return true;
-  scoped_executor_t check_flag([this]{
-    if (socket->avail() == 0)
-      set_work_flag(WorkFlag::Input, false);
-  });
+  // Handle the received packets before the next input(or the end of it).
+  if (has_work_flag(WorkFlag::Command)) return true;
+  // Clear before the pull: an event from now on will set it again.
+  if (!exchange_work_flag(WorkFlag::Input, false)) return true;
   assert(conn);
   if (!socket->valid()) return false;
   auto r = istream->pull();
@@ -105,15 +104,14 @@ bool Basic::Impl::process_input(Basic *conn) noexcept {
     LOG_ERROR << get_name(conn) << " pull failed: " << r;
     return false;
   }
+  if (r == 0) return true; // No more input.
   auto m = manager.lock();
   if (m) {
     m->increase_recv_size(r);
   }
   set_work_flag(WorkFlag::Command, true);
-  /*
-  if (socket->avail() == 0)
-    set_work_flag(WorkFlag::Input, false);
-  */
+  // Pull again until no more input(edge trigger), also get the peer close.
+  set_work_flag(WorkFlag::Input, true);
   return true;
 }
 
-- 
2.43.0


From a4647dd2b1849ae59b93dc3ac7bb166d91787407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:52 +0000
Subject: [PATCH 023/108] fix: incomplete packet heads are counted between
 packets only

---
 framework/core/src/net/connection/basic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index d5e27b9..88181a0 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -203,6 +203,7 @@ bool Basic::Impl::process_command(Basic *conn) noexcept {
     }
     auto p = std::get_if<std::shared_ptr<packet::Basic>>(&r);
     if (!p) return false; // impossible.
+    error_times = 0;
     // Handle packet.
     if ((*p)->is_call_request() || (*p)->is_call_notify()) {
       if (!handle_rpc_request(conn, *p)) return false;
@@ -217,7 +218,6 @@ bool Basic::Impl::process_command(Basic *conn) noexcept {
     }
     if (istream->size() == 0) break;
   }
-  error_times = 0;
   return true;
 }
 
-- 
2.43.0


From 25393dc45662c300f21bf0de468d9d7f707a3598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:52 +0000
Subject: [PATCH 024/108] fix: the connection manager worker does not miss a
 wakeup

---
 framework/core/src/net/connection/manager.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index dbc5c98..5472259 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -27,7 +27,7 @@ struct ConnectionInfo {
   std::vector<std::shared_ptr<plain::net::connection::Basic>> list;
   std::shared_ptr<std::set<id_t>> ids; // The valid ids.
   std::set<id_t> free_ids;
-  size_t size{0};
+  std::atomic_size_t size{0};
   id_t max_id{0};
 };
 
@@ -145,6 +145,7 @@ bool Manager::Impl::wait_work(std::shared_ptr<Manager> manager) noexcept {
         manager->impl_->connection_info.size > 0 || !manager->running();
     });
   }
+  lock.unlock(); // Can't hold it in work, the notify need it.
   if (!manager->running() || !manager->work()) return false;
   // std::this_thread::sleep_for(1ms); // change to executor thread work.
   return true;
@@ -269,7 +270,11 @@ void Manager::stop() {
     if (conn && conn->valid()) conn->shutdown();
   }
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
-  impl_->cv.notify_one(); // Just one for wait work.
+  {
+    // With the lock: not between the check and the wait of the worker.
+    std::unique_lock<std::mutex> lock{impl_->wait_mutex};
+    impl_->cv.notify_one(); // Just one for wait work.
+  }
 #endif
   send_ctrl_cmd("k"); // Send stop.
 
@@ -363,7 +368,11 @@ std::shared_ptr<plain::net::connection::Basic> Manager::new_conn() noexcept {
   impl_->connection_info.ids->emplace(id);
 
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
-  impl_->cv.notify_one(); // Just one for wait work.
+  {
+    // With the lock: not between the check and the wait of the worker.
+    std::unique_lock<std::mutex> lock{impl_->wait_mutex};
+    impl_->cv.notify_one(); // Just one for wait work.
+  }
 #endif
   return r;
 }
-- 
2.43.0


From dc71874ff9182ab4c2cb27c5aeefc1c7851abc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:44 +0000
Subject: [PATCH 025/108] fix: a late event of a closed socket does not remove
 the connection again

---
 framework/core/src/net/connection/epoll.cc   | 1 +
 framework/core/src/net/connection/manager.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/framework/core/src/net/connection/epoll.cc b/framework/core/src/net/connection/epoll.cc
index 7db956a..67bdc7d 100644
--- a/framework/core/src/net/connection/epoll.cc
+++ b/framework/core/src/net/connection/epoll.cc
@@ -228,6 +228,7 @@ void Epoll::handle_input() noexcept {
         remove(conn_id);
         continue;
       }
+      if (conn->socket()->id() != sock_id) continue; // Closed already.
       if (conn->socket()->error()) {
         LOG_ERROR << setting_.name << " socket error: " << conn_id;
         remove(conn_id);
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 5472259..eda8837 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -395,6 +395,7 @@ void Manager::remove(
   assert(conn_id != connection::kInvalidId);
   if (conn_id <= 0 || conn_id > impl_->connection_info.max_id)
     return;
+  if (!impl_->connection_info.ids->contains(conn_id)) return; // Removed.
   auto &conn = impl_->connection_info.list[conn_id - 1];
   if (conn) {
     if (!no_event) {
-- 
2.43.0


From 1e3bc4c8b106f29444fe060c55695849831db42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:44 +0000
Subject: [PATCH 026/108] fix: a connection is worked on by one executor thread
 at a time

---
 .../core/include/plain/net/connection/basic.h |  2 ++
 framework/core/src/net/connection/basic.cc    | 19 ++++++++++++++-----
 framework/core/src/net/connection/epoll.cc    |  2 +-
 framework/core/src/net/connection/manager.cc  |  4 ++++
 4 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/framework/core/include/plain/net/connection/basic.h b/framework/core/include/plain/net/connection/basic.h
index 5dfb42a..9e821c6 100644
--- a/framework/core/include/plain/net/connection/basic.h
+++ b/framework/core/include/plain/net/connection/basic.h
@@ -138,6 +138,8 @@ Basic final : noncopyable {
 
  private:
   bool work() noexcept;
+  bool begin_work() noexcept; // False: other thread is working on it.
+  void end_work() noexcept;
   void enqueue_work(WorkFlag flag) noexcept;
 
  private:
diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 88181a0..22e82e0 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -222,8 +222,7 @@ bool Basic::Impl::process_command(Basic *conn) noexcept {
 }
 
 bool Basic::Impl::process_exception() noexcept {
-  if (!has_work_flag(WorkFlag::Except)) return true;
-  return true;
+  return !has_work_flag(WorkFlag::Except);
 }
 
 bool Basic::Impl::work(Basic *conn) noexcept {
@@ -444,6 +443,14 @@ bool Basic::work() noexcept {
   return impl_->work(this);
 }
 
+bool Basic::begin_work() noexcept {
+  return !impl_->working.exchange(true);
+}
+
+void Basic::end_work() noexcept {
+  impl_->working.store(false);
+}
+
 void Basic::enqueue_work(WorkFlag flag) noexcept {
   if (impl_->socket->awaitable() &&
       (flag == WorkFlag::Input || flag == WorkFlag::Output)) {
@@ -526,9 +533,11 @@ void Basic::on_connect() noexcept {
 }
   
 void Basic::on_disconnect() noexcept {
-  impl_->istream->clear();
-  impl_->ostream->clear();
-  impl_->working.store(false, std::memory_order_relaxed);
+  {
+    std::unique_lock<std::mutex> lock{impl_->mutex};
+    impl_->istream->clear();
+    impl_->ostream->clear();
+  }
   check_callable(this, "__disconnect");
 }
 
diff --git a/framework/core/src/net/connection/epoll.cc b/framework/core/src/net/connection/epoll.cc
index 67bdc7d..218c164 100644
--- a/framework/core/src/net/connection/epoll.cc
+++ b/framework/core/src/net/connection/epoll.cc
@@ -231,7 +231,7 @@ void Epoll::handle_input() noexcept {
       if (conn->socket()->id() != sock_id) continue; // Closed already.
       if (conn->socket()->error()) {
         LOG_ERROR << setting_.name << " socket error: " << conn_id;
-        remove(conn_id);
+        conn->enqueue_work(WorkFlag::Except); // May be working now.
         continue;
       }
       conn->enqueue_work(WorkFlag::Input);
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index eda8837..8594868 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -173,11 +173,14 @@ void Manager::Impl::work(
     });
     if (!conn) return;
     if (!conn->valid()) return;
+    // The working one check idle at the end.
+    if (!conn->begin_work()) return;
     r = conn->work();
   }
   if (!r) {
     manager->remove(conn);
   } else {
+    conn->end_work();
     if (!conn->idle()) {
        manager->enqueue(id);
        enqueue_work = false;
@@ -406,6 +409,7 @@ void Manager::remove(
     if (sock && conn->socket()->valid()) this->sock_remove(conn->socket()->id());
     conn->shutdown();
     conn->close();
+    conn->end_work();
     if (conn->is_keep_alive()) return; // The connector will keep alive.
   }
   impl_->connection_info.free_ids.emplace(conn_id);
-- 
2.43.0


From 9c3b45608e9967d6fa2d0bd3e0b6e031024822bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:34 +0000
Subject: [PATCH 027/108] fix: the result of a rpc call keeps its data

---
 framework/core/include/plain/net/rpc/unpacker.h | 4 ++++
 framework/core/src/net/connection/basic.cc      | 2 +-
 framework/core/src/net/rpc/unpacker.cc          | 6 ++++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index 11b2227..e389148 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -26,6 +26,9 @@ class PLAIN_API Unpacker {
  public:
   Unpacker();
   Unpacker(const uint8_t *data, size_t size);
+  // The owner is kept as long as the unpacker(it holds the data).
+  Unpacker(
+    const uint8_t *data, size_t size, std::shared_ptr<const void> owner);
   ~Unpacker();
 
  public:
@@ -243,6 +246,7 @@ class PLAIN_API Unpacker {
  private:
   const uint8_t *data_{nullptr};
   const uint8_t *data_end_{nullptr};
+  std::shared_ptr<const void> owner_;
 
 };
 
diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 22e82e0..fb89480 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -369,7 +369,7 @@ bool Basic::Impl::handle_rpc_response(
     auto data = reinterpret_cast<const uint8_t *>(
       packet->data().data() + packet->offset());
     auto size = packet->data().size() - packet->offset();
-    std::get<1>(call).set_value(rpc::Unpacker(data, size));
+    std::get<1>(call).set_value(rpc::Unpacker(data, size, packet));
   } catch(...) {
     std::get<1>(call).set_exception(std::current_exception());
   }
diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index b677640..e77882a 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -12,6 +12,12 @@ Unpacker::Unpacker(const uint8_t *data, size_t size) :
 
 }
 
+Unpacker::Unpacker(
+  const uint8_t *data, size_t size, std::shared_ptr<const void> owner) :
+  data_{data}, data_end_{data + size}, owner_{std::move(owner)} {
+
+}
+
 Unpacker::~Unpacker() = default;
 
 void Unpacker::unpack(int8_t &value) noexcept {
-- 
2.43.0


From 348262388dabba012de629076e9e70c2e021dd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:34 +0000
Subject: [PATCH 028/108] fix: a rpc call is completed by one response only

---
 framework/core/src/net/connection/basic.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index fb89480..71d08ab 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -356,12 +356,17 @@ bool Basic::Impl::handle_rpc_response(
   (*packet) >> index;
   if (0 == index) return true; // No call(notify?).
   (*packet) >> error;
-  auto it = callings.find(index);
-  if (it == callings.end()) {
-    LOG_WARN << "rpc response no calling: " << index << " error: " << error;
-    return false;
+  std::promise<rpc::Unpacker> promise;
+  {
+    std::unique_lock<std::mutex> lock{mutex};
+    auto it = callings.find(index);
+    if (it == callings.end()) {
+      LOG_WARN << "rpc response no calling: " << index << " error: " << error;
+      return false;
+    }
+    promise = std::move(std::get<1>(it->second));
+    callings.erase(it); // Once response, a more one is no calling.
   }
-  auto &call = it->second;
   try {
     if (error != std::to_underlying(ErrorCode::None)) {
       throw std::logic_error("error: " + std::to_string(error));
@@ -369,9 +374,9 @@ bool Basic::Impl::handle_rpc_response(
     auto data = reinterpret_cast<const uint8_t *>(
       packet->data().data() + packet->offset());
     auto size = packet->data().size() - packet->offset();
-    std::get<1>(call).set_value(rpc::Unpacker(data, size, packet));
+    promise.set_value(rpc::Unpacker(data, size, packet));
   } catch(...) {
-    std::get<1>(call).set_exception(std::current_exception());
+    promise.set_exception(std::current_exception());
   }
   return true;
 }
-- 
2.43.0


From b6b8f64ea568a72bd2225e41deee8ff38397ff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:59 +0000
Subject: [PATCH 029/108] fix: rpc calls without response end with the
 connection

---
 framework/core/include/plain/net/connection/basic.h |  1 +
 framework/core/src/net/connection/basic.cc          | 13 ++++++++++++-
 framework/core/src/net/connection/manager.cc        |  4 ++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/net/connection/basic.h b/framework/core/include/plain/net/connection/basic.h
index 9e821c6..81067b5 100644
--- a/framework/core/include/plain/net/connection/basic.h
+++ b/framework/core/include/plain/net/connection/basic.h
@@ -149,6 +149,7 @@ Basic final : noncopyable {
     uint32_t index, const std::string &func_name,
     std::shared_ptr<std::promise<rpc::Unpacker>> promise);
   uint32_t new_call_index() noexcept;
+  void break_calls() noexcept; // No more responses.
   std::optional<int64_t> get_call_timeout() const noexcept;
 
 };
diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 71d08ab..c2e807e 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -415,7 +415,7 @@ bool Basic::init() noexcept {
   impl_->work_flags = 0;
   impl_->istream->clear();
   impl_->ostream->clear();
-  impl_->callings.clear();
+  break_calls();
   impl_->call_index = 0;
   auto connect_call_key = get_callable_key(this, "__connect");
   s_callables.erase(connect_call_key);
@@ -559,6 +559,8 @@ bool Basic::send_call(
   uint32_t index, const std::string &func_name,
   std::shared_ptr<std::promise<rpc::Unpacker>> promise) {
   std::unique_lock<std::mutex> lock{impl_->mutex};
+  auto m = impl_->manager.lock();
+  if (!m || !m->running() || !impl_->socket->valid()) return false;
   packet->set_call_request(true);
   auto r = impl_->write(packet);
   if (r && static_cast<bool>(promise)) {
@@ -571,6 +573,15 @@ bool Basic::send_call(
   return r;
 }
   
+void Basic::break_calls() noexcept {
+  decltype(impl_->callings) callings;
+  {
+    std::unique_lock<std::mutex> lock{impl_->mutex};
+    callings.swap(impl_->callings);
+  }
+  // The futures get broken promise when destroy.
+}
+
 uint32_t Basic::new_call_index() noexcept {
   std::unique_lock<std::mutex> lock{impl_->mutex};
   return ++(impl_->call_index);
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 8594868..bca736b 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -290,6 +290,9 @@ void Manager::stop() {
 #endif
   std::this_thread::sleep_for(1ms);
   impl_->executor->shutdown();
+  for (auto conn : impl_->connection_info.list) {
+    if (conn) conn->break_calls();
+  }
 }
 
 bool Manager::running() const noexcept {
@@ -409,6 +412,7 @@ void Manager::remove(
     if (sock && conn->socket()->valid()) this->sock_remove(conn->socket()->id());
     conn->shutdown();
     conn->close();
+    conn->break_calls();
     conn->end_work();
     if (conn->is_keep_alive()) return; // The connector will keep alive.
   }
-- 
2.43.0


From b8d9855d68b43bb905a16475d98fbe39f5c259ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:59 +0000
Subject: [PATCH 030/108] fix: stop the connection manager not within an
 enqueue of it

---
 framework/core/src/net/connection/manager.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index bca736b..c4b9f33 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -264,12 +264,18 @@ bool Manager::start() {
 
 void Manager::stop() {
   // std::cout << "stop: " << this << std::endl;
-  auto running = impl_->running.exchange(false, std::memory_order_relaxed);
-  if (!running) return;
+  decltype(impl_->connection_info.list) conns;
+  {
+    // With the lock: an enqueue is finished before the executor shutdown.
+    std::unique_lock<decltype(impl_->mutex)> auto_lock(impl_->mutex);
+    auto running = impl_->running.exchange(false, std::memory_order_relaxed);
+    if (!running) return;
+    conns = impl_->connection_info.list;
+  }
   if (setting_.name != "console") // console is kernel owner
     ENGINE->remove_net(setting_.name);
   off();
-  for (auto conn : impl_->connection_info.list) {
+  for (auto conn : conns) {
     if (conn && conn->valid()) conn->shutdown();
   }
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
@@ -290,7 +296,11 @@ void Manager::stop() {
 #endif
   std::this_thread::sleep_for(1ms);
   impl_->executor->shutdown();
-  for (auto conn : impl_->connection_info.list) {
+  {
+    std::unique_lock<decltype(impl_->mutex)> auto_lock(impl_->mutex);
+    conns = impl_->connection_info.list; // May be new connections.
+  }
+  for (auto conn : conns) {
     if (conn) conn->break_calls();
   }
 }
-- 
2.43.0


From 4af80b288f596685bee92c4dfe7e64e0a7596f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:53 +0000
Subject: [PATCH 031/108] fix: a rpc call of a function without result does not
 crash

---
 framework/core/src/net/connection/basic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index c2e807e..7a00fc2 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -333,7 +333,7 @@ bool Basic::Impl::handle_rpc_request(
       (*p) << error;
       if (!e) {
         auto temp = std::get_if<std::shared_ptr<rpc::Packer>>(&r);
-        if (temp) (*p) << (*temp)->vector();
+        if (temp && *temp) (*p) << (*temp)->vector(); // No result is null.
       }
       p->set_writeable(false);
       conn->send(p);
-- 
2.43.0


From f816863d2d7e42c2b2afd7f85e8ec4fef266940f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:53 +0000
Subject: [PATCH 032/108] fix: a connection name can be changed and is not
 inherited

---
 framework/core/src/net/connection/manager.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index c4b9f33..b9258d7 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -371,6 +371,7 @@ std::shared_ptr<plain::net::connection::Basic> Manager::new_conn() noexcept {
     }
   }
   if (id == kInvalidId) return {};
+  impl_->conn_names.erase(id); // The name of the last one with this id.
   auto r = impl_->connection_info.list[id - 1];
   if (!r) r = std::make_shared<Basic>();
   r->set_id(id);
@@ -639,7 +640,7 @@ void Manager::set_name(
   auto conn = get_conn(conn_id);
   if (!conn) return;
   std::unique_lock<decltype(impl_->mutex)> lock{impl_->mutex};
-  impl_->conn_names.emplace(conn_id, name.data());
+  impl_->conn_names.insert_or_assign(conn_id, std::string{name});
 }
   
 std::string Manager::get_name(connection::id_t conn_id) const noexcept {
-- 
2.43.0


From 775aba924e6074b4742d4ed78b49d52690122201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:53 +0000
Subject: [PATCH 033/108] fix: a reused connection does not inherit the
 settings of the last one

---
 framework/core/src/net/connection/basic.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 7a00fc2..002fa49 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -413,6 +413,11 @@ bool Basic::init() noexcept {
   if (!impl_->socket->close()) return false;
   impl_->working.store(false, std::memory_order_relaxed);
   impl_->work_flags = 0;
+  impl_->error_times = 0;
+  impl_->codec = {};
+  impl_->dispatcher = {};
+  impl_->keep_alive.store(false, std::memory_order_relaxed);
+  impl_->timeout = std::nullopt;
   impl_->istream->clear();
   impl_->ostream->clear();
   break_calls();
-- 
2.43.0


From f120df39cd1628134c87ceaa70177be93325bd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:45 +0000
Subject: [PATCH 034/108] fix: flushing a connection does not lock the manager
 with its lock

---
 framework/core/src/net/connection/basic.cc | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 002fa49..9ee482c 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -119,21 +119,23 @@ bool Basic::Impl::process_output(Basic *conn) noexcept {
   if (!has_work_flag(WorkFlag::Output)) return true;
   assert(conn);
   if (!socket->valid()) return false;
+  int32_t r{0};
   {
     std::unique_lock<std::mutex> lock{mutex};
-    auto r = ostream->push();
-    if (r < 0) {
-      LOG_ERROR << get_name(conn) << " push failed: " << r;
-      return false;
-    }
-    auto m = manager.lock();
-    if (r > 0 && m) {
-      m->increase_send_size(r);
-    }
+    r = ostream->push();
     // With the lock: a send after the push must find the flag cleared.
     if (ostream->size() == 0)
       work_flags &= ~(0x1 << std::to_underlying(WorkFlag::Output));
   }
+  // Without the lock: the manager locks itself then the connection in remove.
+  if (r < 0) {
+    LOG_ERROR << get_name(conn) << " push failed: " << r;
+    return false;
+  }
+  auto m = manager.lock();
+  if (r > 0 && m) {
+    m->increase_send_size(r);
+  }
   return true;
 }
 
-- 
2.43.0


From ccadcc7b18359d0f4109f79030ad9193183ef00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:25 +0000
Subject: [PATCH 035/108] fix: a connection with a socket error is removed

---
 framework/core/src/net/connection/basic.cc   | 4 ++--
 framework/core/src/net/connection/manager.cc | 5 +++--
 framework/core/src/net/stream/basic.cc       | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 9ee482c..ce686c1 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -434,7 +434,8 @@ bool Basic::init() noexcept {
 
 bool Basic::idle() const noexcept {
   std::unique_lock<std::mutex> lock{impl_->mutex};
-  return !impl_->socket->valid() || (impl_->work_flags == 0);
+  // Not with valid: it will lost the error of the socket(with works).
+  return impl_->socket->id() == socket::kInvalidId || (impl_->work_flags == 0);
 }
   
 bool Basic::shutdown(int32_t how) noexcept {
@@ -443,7 +444,6 @@ bool Basic::shutdown(int32_t how) noexcept {
 }
   
 bool Basic::close() noexcept {
-  if (!impl_->socket->valid()) return true;
   return impl_->socket->close();
 }
   
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index b9258d7..1501ed8 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -172,7 +172,7 @@ void Manager::Impl::work(
       }
     });
     if (!conn) return;
-    if (!conn->valid()) return;
+    if (conn->socket()->id() == socket::kInvalidId) return;
     // The working one check idle at the end.
     if (!conn->begin_work()) return;
     r = conn->work();
@@ -420,7 +420,8 @@ void Manager::remove(
       if (static_cast<bool>(impl_->disconnect_callback))
         impl_->disconnect_callback(conn.get());
     }
-    if (sock && conn->socket()->valid()) this->sock_remove(conn->socket()->id());
+    if (sock && conn->socket()->id() != socket::kInvalidId)
+      this->sock_remove(conn->socket()->id());
     conn->shutdown();
     conn->close();
     conn->break_calls();
diff --git a/framework/core/src/net/stream/basic.cc b/framework/core/src/net/stream/basic.cc
index a3e2f75..028601a 100644
--- a/framework/core/src/net/stream/basic.cc
+++ b/framework/core/src/net/stream/basic.cc
@@ -30,7 +30,7 @@ Basic::~Basic() = default;
 
 int32_t Basic::pull() noexcept {
   auto socket = impl_->weak_socket.lock();
-  if (!socket || !socket->valid()) return 0;
+  if (!socket || socket->id() == socket::kInvalidId) return 0;
   auto socket_avail = socket->avail();
   if (socket_avail == 0) socket_avail = 1;
   // auto once_max = impl_->buffer.write_avail() + impl_->buffer.size();
-- 
2.43.0


From 3b9b6575fe96801cb4b5b2bda6419571513669be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:31 +0000
Subject: [PATCH 036/108] fix: a kept connection works again after a reconnect

---
 .../core/include/plain/net/connection/basic.h    |  1 +
 framework/core/src/net/connection/basic.cc       |  8 ++++++++
 framework/core/src/net/connection/epoll.cc       | 16 +++++++++-------
 framework/core/src/net/connection/manager.cc     |  1 +
 framework/core/src/net/connection/select.cc      |  3 +++
 framework/core/src/net/connector.cc              |  2 ++
 6 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/framework/core/include/plain/net/connection/basic.h b/framework/core/include/plain/net/connection/basic.h
index 81067b5..105832a 100644
--- a/framework/core/include/plain/net/connection/basic.h
+++ b/framework/core/include/plain/net/connection/basic.h
@@ -140,6 +140,7 @@ Basic final : noncopyable {
   bool work() noexcept;
   bool begin_work() noexcept; // False: other thread is working on it.
   void end_work() noexcept;
+  void clear_work() noexcept; // Forget the works of the closed socket.
   void enqueue_work(WorkFlag flag) noexcept;
 
  private:
diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index ce686c1..da26a8d 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -463,6 +463,14 @@ void Basic::end_work() noexcept {
   impl_->working.store(false);
 }
 
+void Basic::clear_work() noexcept {
+  std::unique_lock<std::mutex> lock{impl_->mutex};
+  impl_->work_flags = 0;
+  impl_->error_times = 0;
+  impl_->istream->clear();
+  impl_->ostream->clear();
+}
+
 void Basic::enqueue_work(WorkFlag flag) noexcept {
   if (impl_->socket->awaitable() &&
       (flag == WorkFlag::Input || flag == WorkFlag::Output)) {
diff --git a/framework/core/src/net/connection/epoll.cc b/framework/core/src/net/connection/epoll.cc
index 218c164..31e7319 100644
--- a/framework/core/src/net/connection/epoll.cc
+++ b/framework/core/src/net/connection/epoll.cc
@@ -228,13 +228,15 @@ void Epoll::handle_input() noexcept {
         remove(conn_id);
         continue;
       }
-      if (conn->socket()->id() != sock_id) continue; // Closed already.
-      if (conn->socket()->error()) {
-        LOG_ERROR << setting_.name << " socket error: " << conn_id;
-        conn->enqueue_work(WorkFlag::Except); // May be working now.
-        continue;
-      }
-      conn->enqueue_work(WorkFlag::Input);
+      execute([this, conn, conn_id, sock_id] { // Can't be removed in this.
+        if (conn->socket()->id() != sock_id) return; // Closed already.
+        if (conn->socket()->error()) {
+          LOG_ERROR << setting_.name << " socket error: " << conn_id;
+          conn->enqueue_work(WorkFlag::Except); // May be working now.
+          return;
+        }
+        conn->enqueue_work(WorkFlag::Input);
+      });
     }
   }
 #endif
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 1501ed8..d40eef2 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -425,6 +425,7 @@ void Manager::remove(
     conn->shutdown();
     conn->close();
     conn->break_calls();
+    conn->clear_work();
     conn->end_work();
     if (conn->is_keep_alive()) return; // The connector will keep alive.
   }
diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index 1e133f4..1a533c5 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -120,7 +120,9 @@ void Select::handle_io() noexcept {
   }
   try {
     foreach([this, listen_fd = listen_fd_](std::shared_ptr<Basic> conn){
+      execute([this, conn] { // Can't be removed in this.
       auto id = conn->socket()->id();
+      if (id == socket::kInvalidId) return; // Closed already.
       if (FD_ISSET(id, &impl_->except_fds.use)) {
         LOG_ERROR << setting_.name << " connection has except: " << conn->id();
         this->remove(conn->id());
@@ -135,6 +137,7 @@ void Select::handle_io() noexcept {
         std::cout << conn->id() << ":" << id << std::endl;
       */
       
+      });
     });
   } catch(...) {
     LOG_ERROR << setting_.name << " handle io except";
diff --git a/framework/core/src/net/connector.cc b/framework/core/src/net/connector.cc
index 0a0d3a7..e57fe85 100644
--- a/framework/core/src/net/connector.cc
+++ b/framework/core/src/net/connector.cc
@@ -199,6 +199,8 @@ bool Connector::connect(
     return false;
   }
   impl_->manager->send_ctrl_cmd("w"); // wakeup to add socket descriptor.
+  // The sends before(without socket) are set work but not enqueued.
+  if (!conn->idle()) impl_->manager->enqueue(conn->id());
   conn->on_connect();
   const auto &callback = impl_->manager->connect_callback();
   if (static_cast<bool>(callback))
-- 
2.43.0


From 01033f52050df3f2715e6306d57824faa077d17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:27 +0000
Subject: [PATCH 037/108] fix: read the manager sizes with the lock

---
 framework/core/src/net/connection/manager.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index d40eef2..9e71354 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -607,10 +607,12 @@ void Manager::increase_recv_size(size_t size) {
 }
 
 uint64_t Manager::send_size() const noexcept {
+  std::unique_lock<decltype(impl_->mutex)> lock{impl_->mutex};
   return impl_->send_size;
 }
 
 uint64_t Manager::recv_size() const noexcept {
+  std::unique_lock<decltype(impl_->mutex)> lock{impl_->mutex};
   return impl_->recv_size;
 }
 
-- 
2.43.0


From 172e7a957ad0a6329518ef194095a4ce41ce58ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:27 +0000
Subject: [PATCH 038/108] fix: a socket is not shutdown by stop while it is
 closed

---
 framework/core/src/net/connection/manager.cc | 13 ++++++++-----
 framework/core/src/net/socket/basic.cc       |  6 ++----
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 9e71354..d290bb4 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -264,19 +264,21 @@ bool Manager::start() {
 
 void Manager::stop() {
   // std::cout << "stop: " << this << std::endl;
-  decltype(impl_->connection_info.list) conns;
   {
     // With the lock: an enqueue is finished before the executor shutdown.
     std::unique_lock<decltype(impl_->mutex)> auto_lock(impl_->mutex);
     auto running = impl_->running.exchange(false, std::memory_order_relaxed);
     if (!running) return;
-    conns = impl_->connection_info.list;
   }
   if (setting_.name != "console") // console is kernel owner
     ENGINE->remove_net(setting_.name);
   off();
-  for (auto conn : conns) {
-    if (conn && conn->valid()) conn->shutdown();
+  {
+    // With the lock: a socket can't be closed by remove in this.
+    std::unique_lock<decltype(impl_->mutex)> auto_lock(impl_->mutex);
+    for (auto conn : impl_->connection_info.list) {
+      if (conn && conn->valid()) conn->shutdown();
+    }
   }
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
   {
@@ -296,9 +298,10 @@ void Manager::stop() {
 #endif
   std::this_thread::sleep_for(1ms);
   impl_->executor->shutdown();
+  decltype(impl_->connection_info.list) conns;
   {
     std::unique_lock<decltype(impl_->mutex)> auto_lock(impl_->mutex);
-    conns = impl_->connection_info.list; // May be new connections.
+    conns = impl_->connection_info.list;
   }
   for (auto conn : conns) {
     if (conn) conn->break_calls();
diff --git a/framework/core/src/net/socket/basic.cc b/framework/core/src/net/socket/basic.cc
index 1c7ae20..9516a01 100644
--- a/framework/core/src/net/socket/basic.cc
+++ b/framework/core/src/net/socket/basic.cc
@@ -9,7 +9,7 @@
 using plain::net::socket::Basic;
 
 struct Basic::Impl {
-  id_t id{kInvalidId};
+  std::atomic<id_t> id{kInvalidId}; // Closed in the executor threads.
   Type type{Type::Tcp};
 };
 
@@ -41,9 +41,7 @@ bool Basic::close() noexcept {
 }
 
 plain::net::socket::id_t Basic::release() noexcept {
-  auto r = impl_->id;
-  impl_->id = kInvalidId;
-  return r;
+  return impl_->id.exchange(kInvalidId);
 }
 
 Basic Basic::clone() noexcept {
-- 
2.43.0


From c199628104acd840101ca33c2c216216df53010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:27 +0000
Subject: [PATCH 039/108] fix: the select sets are changed with the lock

---
 framework/core/src/net/connection/select.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index 1a533c5..cd63cd4 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -53,10 +53,15 @@ struct Select::Impl {
 };
 
 void Select::Impl::select() noexcept {
+  socket::id_t max_fd{socket::kInvalidId};
+  {
+    std::unique_lock lock{mutex};
+    max_fd = this->max_fd;
+    read_fds.use = read_fds.full;
+    // write_fds.use = write_fds.full;
+    except_fds.use = except_fds.full;
+  }
   if (max_fd == socket::kInvalidId) return;
-  read_fds.use = read_fds.full;
-  // write_fds.use = write_fds.full;
-  except_fds.use = except_fds.full;
   if (select_timeout >= 0) {
     select_result = socket::select(
       max_fd + 1, &read_fds.use, nullptr, &except_fds.use, &timeout);
@@ -163,12 +168,10 @@ bool Select::sock_remove(socket::id_t sock_id) noexcept {
   std::unique_lock lock{impl_->mutex};
   assert(sock_id != socket::kInvalidId);
   auto id = static_cast<uint32_t>(sock_id);
+  // The use ones just for the worker.
   FD_CLR(id, &impl_->read_fds.full);
-  FD_CLR(id, &impl_->read_fds.use);
   FD_CLR(id, &impl_->write_fds.full);
-  FD_CLR(id, &impl_->write_fds.use);
   FD_CLR(id, &impl_->except_fds.full);
-  FD_CLR(id, &impl_->except_fds.use);
   impl_->change_vaild_fd(sock_id, false);
   --impl_->fd_size;
   return true;
-- 
2.43.0


From 042482f518074267b83397b09d4ed873bc84b207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:08 +0000
Subject: [PATCH 040/108] fix: the select worker goes on after a socket closed
 or a signal

---
 framework/core/src/net/connection/select.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index cd63cd4..bd82cbf 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -98,7 +98,10 @@ bool Select::prepare() noexcept {
 bool Select::work() noexcept {
   impl_->select();
   bool r{true};
-  if (impl_->select_result < 0) {
+  auto error = socket::get_last_error().code();
+  if (impl_->select_result < 0 && (error == EBADF || error == EINTR)) {
+    // A socket was closed after the sets copied(or a signal), select again.
+  } else if (impl_->select_result < 0) {
     r = false;
     LOG_ERROR << setting_.name << " error: " << impl_->select_result;
   } else if (impl_->select_result > 0) {
-- 
2.43.0


From 7ef5948227f89ff315b6d8d9a3ee6cf5f0495d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:08 +0000
Subject: [PATCH 041/108] fix: the epoll worker goes on after a signal

---
 framework/core/src/net/connection/epoll.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/net/connection/epoll.cc b/framework/core/src/net/connection/epoll.cc
index 31e7319..7381dca 100644
--- a/framework/core/src/net/connection/epoll.cc
+++ b/framework/core/src/net/connection/epoll.cc
@@ -154,6 +154,7 @@ bool Epoll::work() noexcept {
 #ifdef PLAIN_EPOLL_ENABLE
   poll_wait(impl_->data, -1);
   if (impl_->data.result_event_count < 0) {
+    if (errno == EINTR) return true; // By a signal, wait again.
     LOG_ERROR << "error: " << impl_->data.result_event_count;
     return false;
   }
-- 
2.43.0


From 42c0d9528576d53d57439db8711c9edefccbd7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:45 +0000
Subject: [PATCH 042/108] fix: the connection callbacks are set and found with
 a lock

---
 framework/core/src/net/connection/basic.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index da26a8d..d5d047d 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -16,6 +16,7 @@ using plain::net::connection::Basic;
 using plain::net::connection::callable_func;
 
 static std::unordered_map<std::string, callable_func> s_callables;
+static std::mutex s_callables_mutex;
 static constexpr size_t kOnceHandlePacketCount{12};
 static constexpr size_t kCantPeekMaxCount{60};
 
@@ -27,9 +28,14 @@ get_callable_key(Basic *p, std::string_view suffix) noexcept {
 
 static void check_callable(Basic *p, std::string_view suffix) noexcept {
   auto key = get_callable_key(p, suffix);
-  auto it = s_callables.find(key);
-  if (it != s_callables.end())
-    it->second(p);
+  callable_func func;
+  {
+    std::unique_lock<std::mutex> lock{s_callables_mutex};
+    auto it = s_callables.find(key);
+    if (it == s_callables.end()) return;
+    func = it->second;
+  }
+  if (func) func(p);
 }
 
 struct Basic::Impl {
@@ -425,9 +431,12 @@ bool Basic::init() noexcept {
   break_calls();
   impl_->call_index = 0;
   auto connect_call_key = get_callable_key(this, "__connect");
-  s_callables.erase(connect_call_key);
   auto disconnect_call_key = get_callable_key(this, "__disconnect");
-  s_callables.erase(disconnect_call_key);
+  {
+    std::unique_lock<std::mutex> lock{s_callables_mutex};
+    s_callables.erase(connect_call_key);
+    s_callables.erase(disconnect_call_key);
+  }
   // if (!impl_->socket->create()) return false;
   return true;
 }
@@ -524,11 +533,13 @@ void Basic::set_codec(const stream::codec_t &codec) noexcept {
   
 void Basic::set_connect_callback(callable_func func) noexcept {
   auto key = get_callable_key(this, "__connect");
+  std::unique_lock<std::mutex> lock{s_callables_mutex};
   s_callables[key] = func;
 }
   
 void Basic::set_disconnect_callback(callable_func func) noexcept {
   auto key = get_callable_key(this, "__disconnect");
+  std::unique_lock<std::mutex> lock{s_callables_mutex};
   s_callables[key] = func;
 }
   
-- 
2.43.0


From 1f22a59245522373f27c694f8e0af88debd65a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:46 +0000
Subject: [PATCH 043/108] fix: TaskQueue::work_all looks at the queue with its
 lock

---
 framework/core/include/plain/basic/task_queue.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/framework/core/include/plain/basic/task_queue.h b/framework/core/include/plain/basic/task_queue.h
index 9cf7680..e9f6d44 100644
--- a/framework/core/include/plain/basic/task_queue.h
+++ b/framework/core/include/plain/basic/task_queue.h
@@ -18,18 +18,19 @@ namespace plain {
 class TaskQueue {
 
 public:
-   void work_one() {
+   bool work_one() {
      std::function<void()> task;
      {
        std::unique_lock<std::mutex> lock(queue_mutex_);
-       if (tasks_.empty()) return;
+       if (tasks_.empty()) return false;
        task = std::move(tasks_.front());
        tasks_.pop();
      }
      task();
+     return true;
    }
    void work_all() {
-     while (!tasks_.empty()) work_one();
+     while (work_one());
    }
 
  public:
-- 
2.43.0


From 3365d22ac35428f96a8b263661554846ce96ca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:46 +0000
Subject: [PATCH 044/108] fix: Time::format uses the reentrant localtime

---
 framework/core/src/basic/time.cc | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/basic/time.cc b/framework/core/src/basic/time.cc
index d797f9a..f39a41d 100644
--- a/framework/core/src/basic/time.cc
+++ b/framework/core/src/basic/time.cc
@@ -4,6 +4,17 @@
 
 using namespace plain;
 
+// The buffer of std::localtime is shared by all threads.
+static std::tm local_time(time_t timestamp) {
+  std::tm r{};
+#if OS_WIN
+  ::localtime_s(&r, &timestamp);
+#else
+  ::localtime_r(&timestamp, &r);
+#endif
+  return r;
+}
+
 Time::Time() :
   s_time_{std::chrono::steady_clock::now()} {
   // do nothing
@@ -29,13 +40,15 @@ std::string Time::format() {
   auto now = std::chrono::system_clock::now();
   auto tm = std::chrono::system_clock::to_time_t(now);
   std::ostringstream os;
-  os << std::put_time(std::localtime(&tm), "%FT%T");
+  auto local = local_time(tm);
+  os << std::put_time(&local, "%FT%T");
   return os.str();
 }
 
 std::string Time::format(time_t timestamp) {
   std::ostringstream os;
-  os << std::put_time(std::localtime(&timestamp), "%FT%T");
+  auto local = local_time(timestamp);
+  os << std::put_time(&local, "%FT%T");
   return os.str();
 }
 
@@ -45,7 +58,8 @@ std::string Time::format(bool show_microseconds) {
   auto value = now_ms.time_since_epoch();
   auto tm = std::chrono::system_clock::to_time_t(now);
   std::ostringstream os;
-  os << std::put_time(std::localtime(&tm), "%FT%T");
+  auto local = local_time(tm);
+  os << std::put_time(&local, "%FT%T");
   if (show_microseconds) {
     os << "." << std::setfill('0') << std::setw(3);
     os << (value % 1000);
-- 
2.43.0


From 8c2d63dad34c235324d8645b2d537378c18a5a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:46 +0000
Subject: [PATCH 045/108] fix: the thread status table is used with a lock

---
 framework/core/include/plain/sys/thread.h | 27 +++++++++++------------
 framework/core/src/sys/thread.cc          | 22 ++++++++++++++++++
 2 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/framework/core/include/plain/sys/thread.h b/framework/core/include/plain/sys/thread.h
index 22af1d0..a656c56 100644
--- a/framework/core/include/plain/sys/thread.h
+++ b/framework/core/include/plain/sys/thread.h
@@ -99,6 +99,11 @@ inline const std::string get_id(const thread_t &thread) {
   return std::string(ss.str());
 }
 
+// The status of a thread is set and read from several threads, so it is kept
+// in a table of its own with a lock (not in the globals).
+PLAIN_API void set_status(const std::string &key, ThreadStatus status);
+PLAIN_API variable_t get_status(const std::string &key);
+
 //用下面的方法的线程可以启动与停止
 inline const std::string status_key(thread_t &thread) {
   std::string _status_key{"thread.status."};
@@ -116,34 +121,29 @@ template<typename _Callable, typename... _Args>
 inline void start(thread_t &thread, _Callable &&__f, _Args &&...__args) {
   thread = thread_t(
         std::forward<_Callable>(__f), std::forward<_Args>(__args)...);
-  const std::string _status_key = status_key(thread);
-  GLOBALS[_status_key] = ThreadStatus::Running;
+  set_status(status_key(thread), ThreadStatus::Running);
 }
 
 inline void start(thread_t &thread) {
-  const std::string _status_key = status_key(thread);
-  GLOBALS[_status_key] = ThreadStatus::Running;
+  set_status(status_key(thread), ThreadStatus::Running);
 }
 
 inline void start() {
-  const std::string _status_key = status_key();
-  GLOBALS[_status_key] = ThreadStatus::Running;
+  set_status(status_key(), ThreadStatus::Running);
 }
 
 inline void stop() {
-  const std::string _status_key = status_key();
-  GLOBALS[_status_key] = ThreadStatus::Stopped;
+  set_status(status_key(), ThreadStatus::Stopped);
 }
 
 inline void stop(thread_t &thread) {
   const std::string _status_key = status_key(thread);
-  if (GLOBALS[_status_key] == ThreadStatus::Running) 
-    GLOBALS[_status_key] = ThreadStatus::Stopped;
+  if (get_status(_status_key) == ThreadStatus::Running) 
+    set_status(_status_key, ThreadStatus::Stopped);
 }
 
 inline variable_t status(thread_t &thread) {
-  const std::string _status_key = status_key(thread);
-  return GLOBALS[_status_key];
+  return get_status(status_key(thread));
 }
 
 inline bool is_running(thread_t &thread) {
@@ -155,8 +155,7 @@ inline bool is_stopping(thread_t &thread) {
 }
 
 inline variable_t status() {
-  const std::string _status_key = status_key();
-  return GLOBALS[_status_key];
+  return get_status(status_key());
 }
 
 inline bool is_running() {
diff --git a/framework/core/src/sys/thread.cc b/framework/core/src/sys/thread.cc
index 0002dbd..99c4fa4 100644
--- a/framework/core/src/sys/thread.cc
+++ b/framework/core/src/sys/thread.cc
@@ -20,6 +20,16 @@ struct thread_per_thread_data {
 
 thread_local thread_per_thread_data s_tl_thread_per_data;
 
+struct status_table {
+  std::mutex mutex;
+  variable_map_t status;
+};
+
+status_table &get_status_table() {
+  static status_table r;
+  return r;
+}
+
 }
 
 } // namespace detail
@@ -35,6 +45,18 @@ void set_name(const std::string_view &name) noexcept {
 #endif
 }
 
+void set_status(const std::string &key, ThreadStatus status) {
+  auto &table = detail::get_status_table();
+  std::unique_lock<std::mutex> auto_lock{table.mutex};
+  table.status[key] = status;
+}
+
+variable_t get_status(const std::string &key) {
+  auto &table = detail::get_status_table();
+  std::unique_lock<std::mutex> auto_lock{table.mutex};
+  return table.status[key];
+}
+
 std::uintptr_t get_current_virtual_id() noexcept {
   return detail::s_tl_thread_per_data.id;
 }
-- 
2.43.0


From 2a25aab0f687c69a78d7b385cb8dc060515365fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:46 +0000
Subject: [PATCH 046/108] fix: thread::create calls its function again and
 keeps its name and an early stop

---
 framework/core/include/plain/sys/thread.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/sys/thread.h b/framework/core/include/plain/sys/thread.h
index a656c56..2274c19 100644
--- a/framework/core/include/plain/sys/thread.h
+++ b/framework/core/include/plain/sys/thread.h
@@ -15,6 +15,7 @@
 #include "plain/sys/config.h"
 #include <thread>
 #include <atomic>
+#include <latch>
 #include "plain/basic/io.h"
 #include "plain/basic/logger.h"
 #include "plain/basic/global.h"
@@ -185,13 +186,15 @@ thread_t create(const std::string_view &name, F &&f, Args &&... args) {
   auto task = std::make_shared< std::packaged_task<return_type()> >(
     std::bind(std::forward<F>(f), std::forward<Args>(args)...)
   );
-  auto r = thread_t([task, name](){ 
+  auto started = std::make_shared<std::latch>(1);
+  auto r = thread_t([task, started, name = std::string(name)](){ 
     set_name(name);
     start();
+    started->count_down(); // A stop from now on is not undone by the start.
     ThreadCollect tc;
-    std::future<return_type> task_res = task->get_future();
     for (;;) {
       if (is_stopping()) break;
+      std::future<return_type> task_res = task->get_future();
       (*task)(); 
       (*task).reset(); //Remeber it, the packaged_task reset then can call again.
       using is_bool_result = std::is_same<bool, return_type>;
@@ -204,6 +207,7 @@ thread_t create(const std::string_view &name, F &&f, Args &&... args) {
     }
   });
 
+  started->wait();
   if (true == GLOBALS["app.debug"]) {
     std::stringstream id_str;
     id_str << r.get_id();
-- 
2.43.0


From 5b276d40912d6b9cf8d15dbf77d00520754f9e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:14 +0000
Subject: [PATCH 047/108] fix: the asynchronous logger writes the lines
 appended before its stop

---
 framework/core/src/basic/async_logger.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/basic/async_logger.cc b/framework/core/src/basic/async_logger.cc
index 0e34b14..8638b08 100644
--- a/framework/core/src/basic/async_logger.cc
+++ b/framework/core/src/basic/async_logger.cc
@@ -172,9 +172,12 @@ void AsyncLogger::Impl::start() {
 }
 
 void AsyncLogger::Impl::stop() {
-  running_ = false;
+  {
+    std::unique_lock<std::mutex> auto_lock{mutex_};
+    running_ = false;
+  }
   cond_.notify_one();
-  thread_.join();
+  if (thread_.joinable()) thread_.join();
 }
 
 void AsyncLogger::Impl::append(const std::string_view &log) {
@@ -194,18 +197,19 @@ void AsyncLogger::Impl::append(const std::string_view &log) {
 }
 
 void AsyncLogger::Impl::thread_handle() {
-  assert(true == running_);
   File file(name_, roll_size_, false);
   BufferPtr buffer1{std::make_unique<Buffer>()};
   BufferPtr buffer2{std::make_unique<Buffer>()};
   BufferVector write_buffers;
   write_buffers.reserve(16);
-  while (running_) {
+  bool running{true};
+  while (running) {
     assert(buffer1 && 0 == buffer1->read_avail());
     assert(buffer2 && 0 == buffer2->read_avail());
     {
       std::unique_lock<std::mutex> auto_lock{mutex_};
-      if (buffers_.empty()) {
+      running = running_; // After a stop everything is written once more.
+      if (running && buffers_.empty()) {
         cond_.wait_for(auto_lock, flush_interval_ * 1000ms);
       }
       buffers_.emplace_back(std::move(current_buffer_));
-- 
2.43.0


From 90cc8e3a8e3eb4afcb13219c47efa2de6364de22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:14 +0000
Subject: [PATCH 048/108] fix: the asynchronous logger keeps all of a line
 larger than a buffer

---
 framework/core/src/basic/async_logger.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/basic/async_logger.cc b/framework/core/src/basic/async_logger.cc
index 8638b08..49bef41 100644
--- a/framework/core/src/basic/async_logger.cc
+++ b/framework/core/src/basic/async_logger.cc
@@ -133,6 +133,7 @@ struct AsyncLogger::Impl {
   void start();
   void stop();
   void append(const std::string_view &log);
+  void append_unlocked(const std::string_view &log);
   void thread_handle();
   const std::string name_;
   const std::size_t roll_size_;
@@ -182,6 +183,10 @@ void AsyncLogger::Impl::stop() {
 
 void AsyncLogger::Impl::append(const std::string_view &log) {
   std::unique_lock<std::mutex> auto_lock{mutex_};
+  append_unlocked(log);
+}
+
+void AsyncLogger::Impl::append_unlocked(const std::string_view &log) {
   if (current_buffer_->write_avail() > log.size()) {
     current_buffer_->write(log.data(), log.size());
   } else {
@@ -191,8 +196,9 @@ void AsyncLogger::Impl::append(const std::string_view &log) {
     } else {
       current_buffer_.reset(new Buffer);
     }
-    current_buffer_->write(log.data(), log.size());
+    auto size = current_buffer_->write(log.data(), log.size());
     cond_.notify_one();
+    if (size < log.size()) append_unlocked(log.substr(size));
   }
 }
 
-- 
2.43.0


From d8ea9d27720efe87491cb76cb93e487fa3b10abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:46 +0000
Subject: [PATCH 049/108] fix: a log line printed on the console is not used as
 a format

---
 framework/core/src/basic/logger.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/basic/logger.cc b/framework/core/src/basic/logger.cc
index 647cd2e..87fa2cb 100644
--- a/framework/core/src/basic/logger.cc
+++ b/framework/core/src/basic/logger.cc
@@ -116,13 +116,13 @@ void print_log(LogLevel level, const char *str) {
   switch (level) {
     case LogLevel::Fatal:
     case LogLevel::Error:
-      io_cerr(str);
+      io_cerr("{}", str);
       break;
     case LogLevel::Warn:
-      io_cwarn(str);
+      io_cwarn("{}", str);
       break;
     case LogLevel::Debug:
-      io_cdebug(str);
+      io_cdebug("{}", str);
       break;
     default:
       std::cout << str << std::endl;
-- 
2.43.0


From 9e233a0a217a31b50fb038abcddcbed33be19ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:46 +0000
Subject: [PATCH 050/108] fix: a log line larger than its buffer still ends
 with a line feed

---
 framework/core/src/basic/logger.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/basic/logger.cc b/framework/core/src/basic/logger.cc
index 87fa2cb..f2b2103 100644
--- a/framework/core/src/basic/logger.cc
+++ b/framework/core/src/basic/logger.cc
@@ -141,7 +141,8 @@ void Logger::Impl::finish() {
   if (true == GLOBALS["log.print"]) {
     print_log(level_, buffer_.peek());
   }
-  buffer_.write("\n", 1);
+  if (0 == buffer_.write("\n", 1)) // Full, so the line was cut.
+    buffer_.peek()[buffer_.read_avail() - 1] = '\n';
 }
 
 Logger::Logger(LogLevel level, const std::source_location &location)
-- 
2.43.0


From 638f83d9bb6b72a0a1e8d06b1a4690510387289b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:46 +0000
Subject: [PATCH 051/108] fix: Logger::appendf can be used

---
 framework/core/include/plain/basic/logger.h | 2 +-
 framework/core/src/basic/logger.cc          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/basic/logger.h b/framework/core/include/plain/basic/logger.h
index 77e16ae..72cb76f 100644
--- a/framework/core/include/plain/basic/logger.h
+++ b/framework/core/include/plain/basic/logger.h
@@ -93,7 +93,7 @@ using flush_func_t = std::function<void()>;
   Logger &operator<<(const std::string &v);
   Logger &operator<<(const Error &e);
 
-  void append(std::string_view &log);
+  void append(std::string_view log);
   template<class... Args> 
   void appendf(const std::string_view &format, Args... args) {
     auto log = std::vformat(format, std::make_format_args(args...));
diff --git a/framework/core/src/basic/logger.cc b/framework/core/src/basic/logger.cc
index f2b2103..b7ef27c 100644
--- a/framework/core/src/basic/logger.cc
+++ b/framework/core/src/basic/logger.cc
@@ -275,7 +275,7 @@ Logger &Logger::operator<<(const Error &e) {
   return *this;
 }
 
-void Logger::append(std::string_view &log) {
+void Logger::append(std::string_view log) {
   impl_->buffer_.write(log.data(), log.size()); 
 }
 
-- 
2.43.0


From 5e30756e8224e6428982f23282830aeaed5eb080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:29 +0000
Subject: [PATCH 052/108] fix: Ini merges repeated sections

---
 framework/core/src/file/ini.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index c92fec6..80d4b7c 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -42,9 +42,9 @@ bool Ini::open(const char *filename) noexcept {
     _trimstring(buffer);
     char *section;
     if(_parsesection(buffer, &section)) {
-      current_section_ = new valueset_t;
-      sectiondata_.insert(
-          std::make_pair(std::string(section), current_section_));
+      auto &values = sectiondata_[section];
+      if (nullptr == values) values = new valueset_t;
+      current_section_ = values;
       continue;
     }
     char *key = nullptr, *value = nullptr;
-- 
2.43.0


From 144d508a5a956fe711dc734f373e62dde49811df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:29 +0000
Subject: [PATCH 053/108] fix: Ini skips a key before the first section

---
 framework/core/src/file/ini.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index 80d4b7c..9db12bb 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -54,6 +54,7 @@ bool Ini::open(const char *filename) noexcept {
         snprintf(
           msg, 128, "[file] format invalid! file: %s, key: %s", filename, key);
         AssertEx(false, msg);
+        continue;
       }
       int position = _add_bufferstring(value);
       current_section_->insert(std::make_pair(std::string(key), position));
-- 
2.43.0


From cdd0b5d9eeff3f5ecf4192cd0e41eba064c8f36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:29 +0000
Subject: [PATCH 054/108] fix: Ini reads lines of any length

---
 framework/core/src/file/ini.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index 9db12bb..187b691 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -37,8 +37,9 @@ bool Ini::open(const char *filename) noexcept {
     AssertEx(false, msg);
     return false;
   }
-  char buffer[512] = {0};
-  while (fstream_.getline(buffer, 512)) {
+  std::string line;
+  while (std::getline(fstream_, line)) {
+    char *buffer = line.data();
     _trimstring(buffer);
     char *section;
     if(_parsesection(buffer, &section)) {
-- 
2.43.0


From c865dbc062119440ca82d1d0b39a98445604b533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:29 +0000
Subject: [PATCH 055/108] fix: Ini does not read before a line that is only a
 comment

---
 framework/core/src/file/ini.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index 187b691..149314d 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -220,6 +220,7 @@ void Ini::_trimstring(char *buffer) {
       break;
     }
   }
+  if ('\0' == buffer[0]) return;
   for (i = strlen(buffer) - 1; i > 0; --i) {
     if (' '== buffer[i] || '\t' == buffer[i]) {
       buffer[i] = 0;
-- 
2.43.0


From d979e5d2a6261f6d1986716018c456f72d92469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:29 +0000
Subject: [PATCH 056/108] fix: the value buffer of Ini grows as much as needed

---
 framework/core/src/file/ini.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index 149314d..8a16ce8 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -253,9 +253,11 @@ bool Ini::_parsekey(char *buffer, char **key, char **value) {
 }
 
 void Ini::_buffer_resize() {
+  auto buffer = new char[bufferlength_max_ * 2];
+  memcpy(buffer, buffer_, bufferlength_);
+  safe_delete_array(buffer_);
+  buffer_ = buffer;
   bufferlength_max_ *= 2;
-  buffer_ = (char*)realloc(buffer_, bufferlength_max_);
-  if (is_null(buffer_)) Assert(false);
 }
 
 char *Ini::get_bufferstring(int32_t position) {
@@ -266,7 +268,7 @@ char *Ini::get_bufferstring(int32_t position) {
 int32_t Ini::_add_bufferstring(char *str) {
   int32_t position = 0;
   size_t size = strlen(str);
-  if (bufferlength_ + static_cast<int32_t>(size + 1) >= bufferlength_max_) 
+  while (bufferlength_ + static_cast<int32_t>(size + 1) >= bufferlength_max_) 
     _buffer_resize();
   memcpy(buffer_ + bufferlength_, str, size + 1);
   position = bufferlength_;
-- 
2.43.0


From 74667cf74b11c816673e609b1a04ca90a31657c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:29 +0000
Subject: [PATCH 057/108] fix: Ini::getstring writes no more than the given
 size

---
 framework/core/src/file/ini.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index 8a16ce8..e68731d 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -197,9 +197,9 @@ bool Ini::_getstring(
     int position = it2->second;
     char *value = get_bufferstring(position);
     size_t valuelength = strlen(value);
-    safecopy(str, value, valuelength + 1);
     size_t _size = 
       valuelength > static_cast<size_t>(size - 1) ? size - 1 : valuelength;
+    memcpy(str, value, _size);
     str[_size] = 0;
     return true;
   }
-- 
2.43.0


From 3dd8981307af78ee0c6aa44e67f09c08501eb67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:29 +0000
Subject: [PATCH 058/108] fix: an Ini can be opened again

---
 framework/core/src/file/ini.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index e68731d..7468051 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -27,6 +27,7 @@ Ini::~Ini() {
 }
 
 bool Ini::open(const char *filename) noexcept {
+  close();
   buffer_ = new char[INI_VALUE_MAX];
   bufferlength_max_ += INI_VALUE_MAX; 
   strncpy(filename_, filename, FILENAME_MAX - 1);
@@ -66,7 +67,9 @@ bool Ini::open(const char *filename) noexcept {
 }
 
 void Ini::close() noexcept {
-  if (fstream_) fstream_.close();
+  if (fstream_.is_open()) fstream_.close();
+  fstream_.clear();
+  current_section_ = nullptr;
   safe_delete_array(buffer_);
   sectionset_t::iterator iter = sectiondata_.begin();
   for (; iter != sectiondata_.end(); iter++) {
-- 
2.43.0


From 0979216f5f02e9c66c5c27133eb11045dfdfbc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:29 +0000
Subject: [PATCH 059/108] fix: Ini::get can be used, also for strings

---
 framework/core/include/plain/file/ini.h |  7 +++----
 framework/core/src/file/ini.cc          | 10 ++++++++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/framework/core/include/plain/file/ini.h b/framework/core/include/plain/file/ini.h
index 4fcad71..ad75a7e 100644
--- a/framework/core/include/plain/file/ini.h
+++ b/framework/core/include/plain/file/ini.h
@@ -53,7 +53,8 @@ class PLAIN_API Ini {
   T get(
     std::string_view section, std::string_view key, T _default = {}) noexcept {
     T r{};
-    if (!_get<T>(section.data(), key.data(), r)) return _default;
+    if (!_get(std::string(section).c_str(), std::string(key).c_str(), r))
+      return _default;
     return r;
   }
 
@@ -72,9 +73,7 @@ class PLAIN_API Ini {
   bool _get(const char *section, const char *key, int32_t &result);
   bool _get(const char *section, const char *key, float &result);
   bool _get(
-    const char *section, const char *key, std::string &result) noexcept {
-    return _getstring(section, key, result.data(), result.capacity() - 1);
-  }
+    const char *section, const char *key, std::string &result) noexcept;
   bool _getstring(
     const char *section, const char *key, char *str, int32_t size) noexcept;
   void _trimstring(char *buffer);
diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index 7468051..073db5c 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -185,6 +185,16 @@ bool Ini::_get(const char *section, const char *key, float &result) {
   return false;
 }
  
+bool Ini::_get(
+  const char *section, const char *key, std::string &result) noexcept {
+  auto it = sectiondata_.find(section);
+  if (it == sectiondata_.end()) return false;
+  auto it2 = it->second->find(key);
+  if (it2 == it->second->end()) return false;
+  result = get_bufferstring(it2->second);
+  return true;
+}
+ 
 const char *Ini::getstring(int32_t position) noexcept {
   return get_bufferstring(position);
 }
-- 
2.43.0


From aad9fad3559614531ab00d11e89dea7c716e8067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:29 +0000
Subject: [PATCH 060/108] fix: assertion messages of any length are shown

---
 framework/core/src/sys/assert.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/framework/core/src/sys/assert.cc b/framework/core/src/sys/assert.cc
index 6d61a96..5ef8df0 100644
--- a/framework/core/src/sys/assert.cc
+++ b/framework/core/src/sys/assert.cc
@@ -29,9 +29,9 @@ void __assert__(
   const char *file, unsigned int line, const char *func, const char *expr) {
   char temp[1024] = {0};
 #if OS_UNIX || OS_MAC //换个格式
-  sprintf(temp, "[%s][%d][%s][%s]\n", file, line, func, expr);
+  snprintf(temp, sizeof temp, "[%s][%d][%s][%s]\n", file, line, func, expr);
 #else
-  sprintf(temp, "[%s][%d][%s][%s]", file, line, func, expr);
+  snprintf(temp, sizeof temp, "[%s][%d][%s][%s]", file, line, func, expr);
 #endif
   __show__(temp);
 }
@@ -41,9 +41,9 @@ void __assertex__(
   const char *msg) {
   char temp[1024] = {0};
 #if OS_UNIX || OS_MAC
-  sprintf(temp, "[%s][%d][%s][%s]\n[%s]\n", file, line, func, expr, msg);
+  snprintf(temp, sizeof temp, "[%s][%d][%s][%s]\n[%s]\n", file, line, func, expr, msg);
 #else
-  sprintf(temp, "[%s][%d][%s][%s]\n[%s]", file, line, func, expr, msg);
+  snprintf(temp, sizeof temp, "[%s][%d][%s][%s]\n[%s]", file, line, func, expr, msg);
 #endif
   __show__(temp);
 }
@@ -53,9 +53,9 @@ void __assertspecial__(
   const char *msg) {
   char temp[1024] = {0};
 #if OS_UNIX || OS_MAC
-  sprintf(temp, "S[%s][%d][%s][%s]\n[%s]\n", file, line, func, expr, msg) ;
+  snprintf(temp, sizeof temp, "S[%s][%d][%s][%s]\n[%s]\n", file, line, func, expr, msg) ;
 #else
-  sprintf(temp, "S[%s][%d][%s][%s]\n[%s]", file, line, func, expr, msg ) ;
+  snprintf(temp, sizeof temp, "S[%s][%d][%s][%s]\n[%s]", file, line, func, expr, msg ) ;
 #endif
   __show__(temp) ;
 }
-- 
2.43.0


From 9bcad80807e2514815f3f4a94ac2b7a992ea2329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:17 +0000
Subject: [PATCH 061/108] fix: Tab checks the line and column of every access

---
 framework/core/src/file/tab.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 91ff2c1..35558e4 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -59,7 +59,9 @@ const Tab::field_data* Tab::search_index_equal(int32_t index) const {
 
 const char *Tab::get_fieldname(int32_t index) {
   const char *name = nullptr;
-  Assert(index >= 0 && index <= field_number_);
+  bool valid{index >= 0 && index < static_cast<int32_t>(fieldnames_.size())};
+  Assert(valid);
+  if (!valid) return nullptr;
   name = fieldnames_[index].c_str();
   return name;
 }
@@ -77,15 +79,19 @@ int32_t Tab::get_fieldindex(const char *name) {
 }
 
 uint8_t Tab::get_fieldtype(int32_t index) {
-  Assert(index >= 0 && index <= field_number_);
+  bool valid{index >= 0 && index < field_number_};
+  Assert(valid);
+  if (!valid) return kTypeInt;
   uint8_t result = static_cast<uint8_t>(type_[index]);
   return result;
 }
 
 const Tab::field_data *
 Tab::search_position(int32_t line, int32_t column) const {
-  int32_t position = line * get_field_number() + column;
-  if (line < 0 || position > static_cast<int32_t>(data_buffer_.size())) {
+  auto position = static_cast<int32_t>(
+    static_cast<int64_t>(line) * get_field_number() + column);
+  if (line < 0 || line >= record_number_ ||
+      column < 0 || column >= field_number_) {
     char temp[256];
     memset(temp, '\0', sizeof(temp));
     snprintf(temp, 
@@ -107,7 +113,7 @@ Tab::search_position(int32_t line, int32_t column) const {
 
 const Tab::field_data *
 Tab::search_first_column_equal(int32_t column, const field_data &value) const {
-  if (column < 0 || column > field_number_) return nullptr;
+  if (column < 0 || column >= field_number_) return nullptr;
   field_type_enum type = type_[column];
   int32_t i;
   for (i = 0; i < record_number_; ++i) {
@@ -141,7 +147,7 @@ int32_t Tab::get_record_number() const {
 }
 
 void Tab::create_index(int32_t column, const char *filename) {
-  if (column < 0 || column > field_number_ || index_column_ == column) return;
+  if (column < 0 || column >= field_number_ || index_column_ == column) return;
   hash_index_.clear();
   int32_t i;
   for (i = 0; i < record_number_; ++i) {
-- 
2.43.0


From fc132e8124c12ca397160a4b7454e8876b958729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:17 +0000
Subject: [PATCH 062/108] fix: Tab::create_index uses the given column

---
 framework/core/src/file/tab.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 35558e4..265302e 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -149,9 +149,11 @@ int32_t Tab::get_record_number() const {
 void Tab::create_index(int32_t column, const char *filename) {
   if (column < 0 || column >= field_number_ || index_column_ == column) return;
   hash_index_.clear();
+  index_column_ = column;
   int32_t i;
   for (i = 0; i < record_number_; ++i) {
-    field_data* _field_data = &(data_buffer_[i * field_number_]);
+    field_data* record = &(data_buffer_[i * field_number_]);
+    field_data* _field_data = record + column;
     field_hashmap::iterator it_find = hash_index_.find(_field_data->int_value);
     if (it_find != hash_index_.end()) {
       char temp[256];
@@ -165,7 +167,7 @@ void Tab::create_index(int32_t column, const char *filename) {
       AssertEx(false, temp);
 #endif
     }
-    hash_index_.insert(std::make_pair(_field_data->int_value, _field_data));
+    hash_index_.insert(std::make_pair(_field_data->int_value, record));
   }
 }
 
-- 
2.43.0


From 7202314a3491fbccce5c3cf6903c72573261b705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:17 +0000
Subject: [PATCH 063/108] fix: a Tab can be opened again

---
 framework/core/src/file/tab.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 265302e..093b6f7 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -42,6 +42,15 @@ bool Tab::open_from_txt(const char *filename) {
 bool Tab::open_from_memory(
   const char *memory, const char *end, const char *filename) {
   bool result = true;
+  safe_delete_array(string_buffer_);
+  string_buffer_size_ = 0;
+  record_number_ = 0;
+  field_number_ = 0;
+  type_.clear();
+  fieldnames_.clear();
+  data_buffer_.clear();
+  hash_index_.clear();
+  index_column_ = INDEX_INVALID;
   if (end - memory >= static_cast<int32_t>(sizeof(file_head_t)) && 
       *((uint32_t*)memory) == FILE_DATABASE_INDENTIFY) {
     result = open_from_memory_binary(memory, end, filename);
-- 
2.43.0


From 43f01ab30484e8660d211d1d9931678e4fa4adf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:17 +0000
Subject: [PATCH 064/108] fix: Tab reads more than 65535 records

---
 framework/core/src/file/tab.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 093b6f7..3b33276 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -340,7 +340,7 @@ bool Tab::open_from_memory_text(
   }
 
   //relocate string block
-  uint16_t m, n;
+  int32_t m, n;
   for (m = 0; m < field_number; ++m) {
     if (type_[m] != kTypeString) continue;
     for (n = 0; n < record_number; ++n) {
-- 
2.43.0


From 2b71390f1031b40e78f1dfe38eed6f95a1c0a461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:17 +0000
Subject: [PATCH 065/108] fix: Tab keeps the position of the field names after
 an empty one

---
 framework/core/src/file/tab.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 3b33276..804b181 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -245,7 +245,7 @@ bool Tab::open_from_memory_text(
   std::unordered_map<std::string, int32_t> map_string_buffer;
   _memory = get_line_from_memory(line, sizeof(line) - 1, _memory, end);
   //第二行为列名（相当于数据库的字段名），应尽量使用英文
-  explode(line, fieldnames_, "\t", true, true);
+  explode(line, fieldnames_, "\t", true, false);
   if (!_memory) return false;
   int32_t string_buffer_size = 0;
   bool loop = true;
-- 
2.43.0


From 1d61d730e279cdff806d9e3904cf53f061a5ff6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:17 +0000
Subject: [PATCH 066/108] fix: Tab saves field names as they are

---
 framework/core/src/file/tab.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 804b181..0dccb92 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -466,9 +466,7 @@ bool Tab::save_totext(const char *filename) {
   }
 
   for(int i=0; i<static_cast<int>(fieldnames_.size()); ++i){
-    char temp[64] = {0};
-    snprintf(temp, sizeof(temp) - 1, fieldnames_[i].c_str());
-    fwrite(temp, strlen(temp), 1, fp); 
+    fwrite(fieldnames_[i].c_str(), fieldnames_[i].size(), 1, fp); 
     if(i == static_cast<int>(fieldnames_.size()-1)){
       fwrite("\n", 1, 1, fp);
     } else{
-- 
2.43.0


From 88f48e7340145cd4f3462e31c56360e4a9b61f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:17 +0000
Subject: [PATCH 067/108] fix: Tab reads back the binary files it saves

---
 framework/core/src/file/tab.cc | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 0dccb92..f195a6f 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -377,7 +377,8 @@ bool Tab::open_from_memory_binary(
   if (!string_buffer_) return false;
   std::vector<uint32_t> field_types;
   field_types.resize(field_number_);
-  memcpy(&(field_types[0]), _memory, sizeof(uint32_t) * field_number_);
+  memcpy(field_types.data(), _memory, sizeof(uint32_t) * field_number_);
+  _memory += sizeof(uint32_t) * field_number_;
 
   //check it
   type_.resize(field_number_);
@@ -402,9 +403,11 @@ bool Tab::open_from_memory_binary(
 
   //read all field
   data_buffer_.resize(field_number_ * record_number_);
-  memcpy(
-    &(data_buffer_[0]), _memory, 
-    sizeof(field_data) * field_number_ * record_number_);
+  if (!data_buffer_.empty()) {
+    memcpy(
+      data_buffer_.data(), _memory, 
+      sizeof(field_data) * field_number_ * record_number_);
+  }
   _memory += sizeof(field_data) * field_number_ * record_number_;
   memcpy(string_buffer_, _memory, string_buffer_size_);
   string_buffer_[string_buffer_size_ - 1] = '\0';
@@ -415,8 +418,8 @@ bool Tab::open_from_memory_binary(
     std::string str;
     int32_t j;
     for (j = 0; j < record_number_; ++j) {
-      data_buffer_[i + field_number_ + j].string_value += 
-        reinterpret_cast<uint64_t>(string_buffer_); 
+      auto &data = data_buffer_[j * field_number_ + i];
+      data.string_value = string_buffer_ + data.int_value;
     }
   }
   create_index(0, filename);
@@ -431,10 +434,17 @@ bool Tab::save_tobinary(const char *filename) {
     FILE *fp = fopen(filename, "wb");
     if (nullptr == fp) return false;
     fwrite(&filehead, sizeof(filehead), 1, fp);
-    fwrite(&(type_[0]), sizeof(field_type_enum) *filehead.field_number, 1, fp);
-    fwrite(
-      &(data_buffer_[0]), filehead.field_number * filehead.record_number, 
-      1, fp);
+    fwrite(type_.data(), sizeof(field_type_enum) *filehead.field_number, 1, fp);
+    // A string is saved as its offset in the string block.
+    data_buffer data{data_buffer_};
+    for (size_t i = 0; i < data.size(); ++i) {
+      if (type_[i % field_number_] != kTypeString) continue;
+      auto offset = data_buffer_[i].string_value - string_buffer_;
+      memset(&data[i], 0, sizeof(field_data));
+      data[i].int_value = static_cast<int32_t>(offset);
+    }
+    if (!data.empty())
+      fwrite(data.data(), sizeof(field_data) * data.size(), 1, fp);
     fwrite(string_buffer_, filehead.string_block_size, 1, fp);
     fclose(fp);
     return true;
-- 
2.43.0


From a4db81e94e026a69250453ccf6a7c74f4c049c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:17 +0000
Subject: [PATCH 068/108] fix: Tab refuses damaged binary files

---
 framework/core/src/file/tab.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index f195a6f..c60a175 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -358,11 +358,17 @@ bool Tab::open_from_memory_binary(
   file_head_t file_head;
   memcpy(&file_head, _memory, sizeof(file_head_t));
   if (file_head.identify != FILE_DATABASE_INDENTIFY) return false;
+  if (file_head.field_number <= 0 || file_head.record_number < 0 ||
+      file_head.string_block_size <= 0) return false;
   //check memory size
+  auto size = static_cast<uint64_t>(end - memory);
+  auto data_number = static_cast<uint64_t>(file_head.record_number) *
+    static_cast<uint64_t>(file_head.field_number);
+  if (data_number > size / sizeof(field_data)) return false;
   if (sizeof(file_head) +
-      sizeof(uint32_t) * file_head.field_number +
-      sizeof(field_data) * file_head.record_number * file_head.field_number +
-      + file_head.string_block_size > static_cast<uint64_t>(end - memory)) {
+      sizeof(uint32_t) * static_cast<uint64_t>(file_head.field_number) +
+      sizeof(field_data) * data_number +
+      static_cast<uint64_t>(file_head.string_block_size) > size) {
     return false;
   }
   _memory += sizeof(file_head);
@@ -396,6 +402,8 @@ bool Tab::open_from_memory_binary(
           delete[] string_buffer_;
           string_buffer_ = nullptr;
         }
+        record_number_ = 0;
+        field_number_ = 0;
         return false;
       }
     }
@@ -419,7 +427,9 @@ bool Tab::open_from_memory_binary(
     int32_t j;
     for (j = 0; j < record_number_; ++j) {
       auto &data = data_buffer_[j * field_number_ + i];
-      data.string_value = string_buffer_ + data.int_value;
+      auto offset = data.int_value;
+      if (offset < 0 || offset >= string_buffer_size_) offset = 0;
+      data.string_value = string_buffer_ + offset;
     }
   }
   create_index(0, filename);
-- 
2.43.0


From 6dade83298ac8381f1c8748cf5025abb713a740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:29 +0000
Subject: [PATCH 069/108] fix: trim removes every character of the mask from
 both ends

---
 framework/core/include/plain/basic/utility.h |  6 +++---
 framework/core/src/basic/utility.cc          | 15 +++------------
 2 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/framework/core/include/plain/basic/utility.h b/framework/core/include/plain/basic/utility.h
index 14d4ca3..ad64e96 100644
--- a/framework/core/include/plain/basic/utility.h
+++ b/framework/core/include/plain/basic/utility.h
@@ -56,15 +56,15 @@ PLAIN_API bool checkstr(const char *in, uint32_t size);
 
 // Retira espacios en blanco (u otros caracteres) del inicio de un string.
 PLAIN_API std::string &ltrim(
-    std::string &str, std::string_view character_mask = " \t\n\r\0\x0B");
+    std::string &str, std::string_view character_mask = {" \t\n\r\0\x0B", 6});
 
 // Retira los espacios en blanco (u otros caracteres) del final de un string.
 PLAIN_API std::string &rtrim(
-    std::string &str, std::string_view character_mask = " \t\n\r\0\x0B");
+    std::string &str, std::string_view character_mask = {" \t\n\r\0\x0B", 6});
 
 // Elimina espacio en blanco (u otro tipo de caracteres) del inicio y el final de la cadena.
 PLAIN_API std::string &trim(
-    std::string &str, std::string_view character_mask = " \t\n\r\0\x0B");
+    std::string &str, std::string_view character_mask = {" \t\n\r\0\x0B", 6});
 
 // Determine if a given string contains a given substring.
 PLAIN_API bool contains(
diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index ff253ec..ccc3a74 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -621,27 +621,18 @@ bool decrypt(std::string_view in, int32_t &number, std::string &out) {
 
 std::string &ltrim(std::string &str, std::string_view character_mask) {
   if (str.empty()) return str;
-  for (size_t i = 0; i < character_mask.length(); ++i) {
-    str.erase(0, str.find_first_not_of(character_mask[i]));
-  }
+  str.erase(0, str.find_first_not_of(character_mask));
   return str;
 }
 
 std::string &rtrim(std::string &str, std::string_view character_mask) {
   if (str.empty()) return str;
-  for (size_t i = 0; i < character_mask.length(); ++i) {
-    str.erase(str.find_last_not_of(character_mask[i]) + 1);
-  }
+  str.erase(str.find_last_not_of(character_mask) + 1);
   return str;
 }
 
 std::string &trim(std::string &str, std::string_view character_mask) {
-  if (str.empty()) return str;
-  for (size_t i = 0; i < character_mask.length(); ++i) {
-    str.erase(0, str.find_first_not_of(character_mask[i]));
-    str.erase(str.find_last_not_of(character_mask[i]) + 1);
-  }
-  return str;
+  return ltrim(rtrim(str, character_mask), character_mask);
 }
 
 bool contains(
-- 
2.43.0


From f6df0037b78dfd4223a2bf67f013430a642fe461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:29 +0000
Subject: [PATCH 070/108] fix: str_replace ends with an empty search string,
 str_replaces uses every one

---
 framework/core/src/basic/utility.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index ccc3a74..0484149 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -648,6 +648,7 @@ std::string str_replace(
   std::string_view search, std::string_view replace, std::string_view subject, 
   int32_t count) {
   std::string r{subject};
+  if (search.empty()) return r;
   int32_t replace_count{0};
   auto it = r.find(search);
   auto search_length = search.length();
@@ -665,7 +666,7 @@ std::string str_replaces(
   std::string_view subject, int32_t count) {
   std::string r{subject};
   for (std::string_view item : search)
-    r = str_replace(item, replace, subject, count);
+    r = str_replace(item, replace, r, count);
   return r;
 }
 
-- 
2.43.0


From e7d0bcdc33b9cb12a08e1d3d38f253f6af01d30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:29 +0000
Subject: [PATCH 071/108] fix: binary_tostring and string_tobinary are right
 for every byte

---
 framework/core/src/basic/utility.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 0484149..827f6aa 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -712,7 +712,7 @@ static char ascii_table[] = {
 
 char value_toascii(char in) {
   char out =
-    0 < in && sizeof(ascii_table) / sizeof(char) >
+    0 <= in && sizeof(ascii_table) / sizeof(char) >
     static_cast< size_t >(in) ? ascii_table[(uint8_t)in] : '?';
   return out;
 }
@@ -799,7 +799,7 @@ bool binary_tostring(const char *in, uint32_t in_length, char *out) {
   for (i = 0; i < in_length; ++i) {
     out[out_index] = value_toascii((static_cast<uint8_t>(in[i] & 0xF0)) >> 4);
     ++out_index;
-    out[out_index] = value_toascii(in[i] & 0xF0);
+    out[out_index] = value_toascii(in[i] & 0x0F);
     ++out_index;
   }
   return true;
@@ -811,12 +811,11 @@ bool string_tobinary(
   if (0 == in_length) return false;
   uint32_t out_index = 0;
   uint32_t i;
-  for (i = 0; i < in_length; ++i) {
+  for (i = 0; i + 1 < in_length; i += 2) {
+    if (out_index >= out_limit) break;
     if ('\0' == in[i] || '\0' == in[i + 1]) break;
     out[out_index] = (ascii_tovalue(in[i]) << 4) + ascii_tovalue(in[i + 1]);
     ++out_index;
-    i += 2;
-    if (out_index > out_limit) break;
   }
   out_length = out_index; //length must be the out_limit
   return true;
-- 
2.43.0


From 007efef8c5f1617d7af1640c595cde2e16e2fb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:29 +0000
Subject: [PATCH 072/108] fix: getescape does not write beyond its output

---
 framework/core/src/basic/utility.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 827f6aa..3084a62 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -250,6 +250,7 @@ bool getescape(const char *in, size_t insize, char *out, size_t outsize) {
   for ( ; index1 < insize && index2 < outsize; ++index1) {
     char _char;
     if (get_escapechar(in[index1], _char)) {
+    if (index2 + 1 >= outsize) return false;
     out[index2] = '\\';
     ++index2;
     out[index2] = _char;
@@ -259,7 +260,7 @@ bool getescape(const char *in, size_t insize, char *out, size_t outsize) {
     ++index2;
     }
   }
-  return true;
+  return index1 == insize;
 }
 
 int64_t toint64(const char *str) {
-- 
2.43.0


From 8c39fdee6a089155f9ebbe0e0a4f02820f158fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:29 +0000
Subject: [PATCH 073/108] fix: complementpath ends the path it completes

---
 framework/core/src/basic/utility.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 3084a62..a2f8db6 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -983,8 +983,10 @@ uint32_t get_lowsection(uint64_t value) {
 
 void complementpath(char *filepath, size_t size, char delimiter) {
   uint32_t length = static_cast<uint32_t>(strlen(filepath));
-  if (size <= length) return;
-  filepath[length] = delimiter == filepath[length - 1] ? '\0' : delimiter;
+  if (0 == length || delimiter == filepath[length - 1]) return;
+  if (size <= length + 1) return;
+  filepath[length] = delimiter;
+  filepath[length + 1] = '\0';
 }
 
 char *strerror_pl(int32_t saved_errno) {
-- 
2.43.0


From 100a49e600dcf74797f2bb255f98b60fbab46a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:29 +0000
Subject: [PATCH 074/108] fix: encrypt of a password returns its result

---
 framework/core/src/basic/utility.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index a2f8db6..21f4bf3 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -457,7 +457,8 @@ static bool pg_decrypt_password(char *password, const char *encrypted) {
   if (pk_length < PG_MINPKEYLEN || pk_length > PG_MAXPKEYLEN)
     return false;
   length = pg_char2int(buffer[pk_length + 1]);
-  if (length < 0 || length > PG_MAXPASSWORDLEN)
+  if (length < 0 || length > PG_MAXPASSWORDLEN ||
+      pk_length + 2 + length > PG_RESULTLENSTD)
     return false;
   pg_decrypt(buffer + 1, pk_length, password, buffer + pk_length + 2, length);
 
@@ -523,9 +524,9 @@ static bool pg_encrypt_password(
 
   //recheck password
   if (encryptok) decrypt_ok = pg_decrypt_password(password_check, result);
-  if (!encryptok || !decrypt_ok || stricmp(password_check, password) != 0)
+  if (!encryptok || !decrypt_ok || strcmp(password_check, password) != 0)
     return pg_encrypt_password(result, password, tickcount + 9929, level);
-  return false;
+  return true;
 }
 
 bool encrypt(std::string_view in, std::string &out) {
@@ -533,16 +534,16 @@ bool encrypt(std::string_view in, std::string &out) {
   char temp[PG_RESULTLENSTD + 1]{0};
   int32_t level = 0;
   bool result{false};
-  if (pg_encrypt_password(temp, in.data(), tickcount, level)) {
+  if (pg_encrypt_password(temp, std::string(in).c_str(), tickcount, level)) {
     result = true;
-    out = result;
+    out = temp;
   }
   return result;
 }
 
 bool decrypt(std::string_view in, std::string &out) {
   char temp[PG_RESULTLENSTD + 1]{0};
-  if (!pg_decrypt_password(temp, in.data())) return false;
+  if (!pg_decrypt_password(temp, std::string(in).c_str())) return false;
   out = temp;
   return true;
 }
-- 
2.43.0


From b74d3df645cad8acf4aabbb6894df6aa437b6315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:29 +0000
Subject: [PATCH 075/108] fix: encrypt and decrypt with a number work for every
 string and number

---
 framework/core/src/basic/utility.cc | 34 +++++++++++++----------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 21f4bf3..8a96165 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -553,7 +553,7 @@ bool encrypt_number(int32_t number, char _char, std::string &out) {
   auto number_len = number_str.size();
   out = "";
   for (decltype(number_len) i = 0; i < number_len; ++i) {
-    auto n = number / static_cast<int32_t>((pow(10, number_len - i - 1))) % 10;
+    auto n = number / static_cast<int64_t>((pow(10, number_len - i - 1))) % 10;
     char c = (char)n + _char;
     out = out + c;
   }
@@ -561,12 +561,13 @@ bool encrypt_number(int32_t number, char _char, std::string &out) {
 }
 
 bool decrypt_number(std::string_view in, char _char, int32_t &number) {
-  auto number_len = in.size();
-  number = 0;
-  for (decltype(number_len) i = 0; i < number_len; ++i) {
-    number += (in[i] - _char) 
-              * static_cast<int32_t>(pow(10, number_len - i -1));
+  int64_t result{0};
+  for (auto c : in) {
+    result = result * 10 + (c - _char);
+    if (result > std::numeric_limits<int32_t>::max() ||
+        result < std::numeric_limits<int32_t>::min()) return false;
   }
+  number = static_cast<int32_t>(result);
   return true;
 }
 
@@ -592,13 +593,7 @@ bool encrypt(std::string_view in, int32_t number, std::string &out) {
   char pos_len_char = first_char + (char)pos_str.size(); 
   out = "";
   out = out + first_char + len_char + pos_len_char + pos_str;
-  if (0 == pos) {
-    out = out + number_str + in.data();
-  } else if (pos == in.size()) {
-    out = out + in.data() + number_str;
-  } else {
-    out = out + in.substr(0, pos).data() + number_str + in.substr(pos).data();
-  }
+  out.append(in.substr(0, pos)).append(number_str).append(in.substr(pos));
   return true;
 }
 
@@ -608,16 +603,17 @@ bool decrypt(std::string_view in, int32_t &number, std::string &out) {
   int32_t length = in[1] - first_char;
   int32_t pos_len = in[2] - first_char;
   int32_t header_size = 3 + pos_len;
+  if (length < 0 || pos_len < 0) return false;
   if (in.size() < (size_t)header_size) return false;
   int32_t pos{0};
   auto pos_str = in.substr(3, pos_len);
-  decrypt_number(pos_str, first_char, pos);
+  if (!decrypt_number(pos_str, first_char, pos) || pos < 0) return false;
   size_t rsize = in.size() - header_size;
-  if (rsize < (size_t)(pos + length)) return false;
-  std::string number_str = in.substr(header_size + pos, length).data();
-  decrypt_number(number_str, first_char, number);
-  out = std::string{in.substr(header_size, pos).data()} + 
-        in.substr(header_size + pos + length).data();
+  if (rsize < (size_t)pos + (size_t)length) return false;
+  auto number_str = in.substr(header_size + pos, length);
+  if (!decrypt_number(number_str, first_char, number)) return false;
+  out = std::string{in.substr(header_size, pos)} + 
+        std::string{in.substr(header_size + pos + length)};
   return true;
 }
 
-- 
2.43.0


From 5e32d3ee384f939182b323e1c7de59b9c7c3452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:29 +0000
Subject: [PATCH 076/108] fix: makedir creates directories with mode 0755

---
 framework/core/include/plain/basic/utility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/basic/utility.h b/framework/core/include/plain/basic/utility.h
index ad64e96..8b482e9 100644
--- a/framework/core/include/plain/basic/utility.h
+++ b/framework/core/include/plain/basic/utility.h
@@ -139,7 +139,7 @@ PLAIN_API void get_module_filename(char *buffer, size_t size);
 
 PLAIN_API void disable_windowclose();
 
-PLAIN_API bool makedir(const char *path, uint16_t mode = 755);
+PLAIN_API bool makedir(const char *path, uint16_t mode = 0755);
 
 PLAIN_API uint32_t get_highsection(uint64_t value);
 
-- 
2.43.0


From ed18d523fec62fecced99bc1afa5d0369f3e77e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:21 +0000
Subject: [PATCH 077/108] fix: str2wstr and wstr2str convert strings of any
 length

str2wstr told mbstowcs the buffer has sizeof(temp) - 1 wide characters, four
times what it holds, so a string of more than 512 characters wrote beyond it,
and it read past views that do not end with a zero byte.
---
 framework/core/src/basic/utility.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 8a96165..827ad2b 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -679,9 +679,10 @@ std::string wstr2str(const std::wstring &str) {
   r = psText;
   safe_delete_array(psText);
 #else
-  char temp[512]{0,};
-  wcstombs(temp, str.c_str(), sizeof(temp) - 1);
-  r = temp;
+  auto size = wcstombs(nullptr, str.c_str(), 0);
+  if (size == static_cast<size_t>(-1)) return r;
+  r.resize(size);
+  wcstombs(r.data(), str.c_str(), size);
 #endif
   return r;
 }
@@ -696,9 +697,11 @@ std::wstring str2wstr(std::string_view str) {
   r = wszUtf8;
   safe_delete_array(wszUtf8);
 #else
-  wchar_t temp[512]{0,};
-  mbstowcs(temp, str.data(), sizeof(temp) - 1);
-  r = temp;
+  std::string in{str};
+  auto size = mbstowcs(nullptr, in.c_str(), 0);
+  if (size == static_cast<size_t>(-1)) return r;
+  r.resize(size);
+  mbstowcs(r.data(), in.c_str(), size);
 #endif
   return r;
 }
-- 
2.43.0


From 0a726d08e0e25d937a28e7dfaaabd8e95aec991f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:21 +0000
Subject: [PATCH 078/108] fix: makedir refuses empty and overlong paths

It read before the path when it was empty and wrote behind its buffer when the
path did not fit.
---
 framework/core/src/basic/utility.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 827ad2b..7b81c51 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -939,6 +939,8 @@ bool makedir(const char *path, uint16_t) {
   int32_t i = 0;
   int32_t result = 0;
   int32_t length = static_cast<int32_t>(strlen(path));
+  if (length <= 0 || length + 2 > static_cast<int32_t>(sizeof(_path)))
+    return false;
   safecopy(_path, path, sizeof(_path));
   path_tounix(_path, static_cast<uint16_t>(length));
   if (_path[length - 1] != '/') {
-- 
2.43.0


From b8bc9ac0717e6e4cc3dc6b3ac0d4a5095472285d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:21 +0000
Subject: [PATCH 079/108] fix: explode ends with an empty key

Without one_key an empty key was found again and again at the same place.
---
 framework/core/src/basic/utility.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 7b81c51..cd9e5c1 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -281,6 +281,10 @@ int32_t explode(
   result.clear();
   std::string str = source; //use stanard string class to source
   if (str.empty()) return 0;
+  if ('\0' == key[0]) { // Nothing to split at.
+    result.push_back(str);
+    return 1;
+  }
   std::string::size_type left = 0;
   std::string::size_type right;
   if (one_key) {
-- 
2.43.0


From 1b433d4cfe8660cf6bc733ccd3beb9f8308a82be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:20 +0000
Subject: [PATCH 080/108] fix: the postfix decrement of variable_t decrements

It added one.
---
 framework/core/include/plain/basic/type/variable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/basic/type/variable.h b/framework/core/include/plain/basic/type/variable.h
index 9041689..1c51031 100644
--- a/framework/core/include/plain/basic/type/variable.h
+++ b/framework/core/include/plain/basic/type/variable.h
@@ -162,7 +162,7 @@ struct PLAIN_API variable_struct {
   }
   variable_t &operator--(int32_t) noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_int64() + 1;
+    value = to_int64() - 1;
     return *this;
   }
   
-- 
2.43.0


From c5ccfba0649eabdbd150e0d72a831a7bde46ef77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:20 +0000
Subject: [PATCH 081/108] fix: operator> of variable_t is not operator<

---
 framework/core/include/plain/basic/type/variable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/basic/type/variable.h b/framework/core/include/plain/basic/type/variable.h
index 1c51031..6ce8928 100644
--- a/framework/core/include/plain/basic/type/variable.h
+++ b/framework/core/include/plain/basic/type/variable.h
@@ -180,7 +180,7 @@ struct PLAIN_API variable_struct {
   }
 
   friend bool operator>(const variable_t &lhs, const variable_t &rhs) noexcept {
-    return lhs.value < rhs.value;
+    return lhs.value > rhs.value;
   }
 
   friend auto operator<=>(
-- 
2.43.0


From 772bd95e4c8d06e428293db9b9b6d9d581aa3f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:20 +0000
Subject: [PATCH 082/108] fix: arithmetic between variables keeps the fraction
 of the right one

variable_t + 0.5 added a half, variable_t + variable_t{0.5} added nothing and
variable_t / variable_t{0.5} divided by zero.
---
 framework/core/include/plain/basic/type/variable.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/framework/core/include/plain/basic/type/variable.h b/framework/core/include/plain/basic/type/variable.h
index 6ce8928..0c3cc18 100644
--- a/framework/core/include/plain/basic/type/variable.h
+++ b/framework/core/include/plain/basic/type/variable.h
@@ -98,7 +98,7 @@ struct PLAIN_API variable_struct {
 
   variable_t &operator+=(const variable_t &object) noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = object.to_int64() + to_double();
+    value = object.to_double() + to_double();
     return *this;
   }
   template <typename T>
@@ -110,7 +110,7 @@ struct PLAIN_API variable_struct {
 
   variable_t &operator-=(const variable_t &object) noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() - object.to_int64();
+    value = to_double() - object.to_double();
     return *this;
   }
   template <typename T>
@@ -122,7 +122,7 @@ struct PLAIN_API variable_struct {
 
   variable_t &operator*=(const variable_t &object) noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() * object.to_int64();
+    value = to_double() * object.to_double();
     return *this;
   }
   
@@ -135,7 +135,7 @@ struct PLAIN_API variable_struct {
 
   variable_t &operator/=(const variable_t &object) {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() / object.to_int64();
+    value = to_double() / object.to_double();
     return *this;
   }
   template <typename T>
-- 
2.43.0


From 7073723a1ab83225d32f8460e47de76832f34c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:20 +0000
Subject: [PATCH 083/108] fix: variable_t locks every variable it reads or
 writes

Copying, assigning, comparing, converting and printing a variable did not take
its mutex, and arithmetic took only that of the left one, so they raced with
every operation that does.
---
 .../core/include/plain/basic/type/variable.h  | 68 +++++++++++++------
 framework/core/src/basic/type/variable.cc     |  2 +-
 2 files changed, 48 insertions(+), 22 deletions(-)

diff --git a/framework/core/include/plain/basic/type/variable.h b/framework/core/include/plain/basic/type/variable.h
index 0c3cc18..e514a74 100644
--- a/framework/core/include/plain/basic/type/variable.h
+++ b/framework/core/include/plain/basic/type/variable.h
@@ -32,9 +32,10 @@ struct PLAIN_API variable_struct {
   variable_struct() {}
 
   variable_struct(const variable_t &object) {
-    value = object.value;
+    value = object.load();
   } 
   variable_struct(variable_t &&object) {
+    std::unique_lock<std::mutex> auto_lock(object.mutex);
     std::swap(value, object.value);
   }
   template <typename T>
@@ -60,7 +61,23 @@ struct PLAIN_API variable_struct {
     return std::get<std::string>(value).c_str();
   }
 
+  // A copy of the current value.
+  value_type load() const {
+    std::unique_lock<std::mutex> auto_lock(mutex);
+    return value;
+  }
+
   int64_t to_int64() const noexcept {
+    std::unique_lock<std::mutex> auto_lock(mutex);
+    return _to_int64();
+  }
+
+  double to_double() const noexcept {
+    std::unique_lock<std::mutex> auto_lock(mutex);
+    return _to_double();
+  }
+
+  int64_t _to_int64() const noexcept {
     int64_t r{0};
     std::visit([&r](auto &&val) {
       using type = std::decay_t<decltype(val)>;
@@ -74,7 +91,7 @@ struct PLAIN_API variable_struct {
     return r;
   }
 
-  double to_double() const noexcept {
+  double _to_double() const noexcept {
     double r{0.0};
     std::visit([&r](auto &&val) {
       using type = std::decay_t<decltype(val)>;
@@ -85,107 +102,116 @@ struct PLAIN_API variable_struct {
       }
     }, value);
     return r;
-  }
+  } //Not safe in multi threads, like _to_int64.
 
   variable_t &operator=(const variable_t &object) {
-    value = object.value;
+    if (this == &object) return *this;
+    auto _value = object.load();
+    std::unique_lock<std::mutex> auto_lock(mutex);
+    value = std::move(_value);
     return *this;
   }
   variable_t &operator=(variable_t &&object) {
+    if (this == &object) return *this;
+    std::scoped_lock auto_lock(mutex, object.mutex);
     std::swap(object.value, value);
     return *this;
   }
 
   variable_t &operator+=(const variable_t &object) noexcept {
+    auto rhs = object.to_double();
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = object.to_double() + to_double();
+    value = rhs + _to_double();
     return *this;
   }
   template <typename T>
   variable_t &operator+=(T _value) {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = _value + to_double();
+    value = _value + _to_double();
     return *this;
   }
 
   variable_t &operator-=(const variable_t &object) noexcept {
+    auto rhs = object.to_double();
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() - object.to_double();
+    value = _to_double() - rhs;
     return *this;
   }
   template <typename T>
   variable_t &operator -= (T _value) {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() - _value;
+    value = _to_double() - _value;
     return *this;
   }
 
   variable_t &operator*=(const variable_t &object) noexcept {
+    auto rhs = object.to_double();
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() * object.to_double();
+    value = _to_double() * rhs;
     return *this;
   }
   
   template <typename T>
   variable_t &operator *= (T _value) {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() * _value;
+    value = _to_double() * _value;
     return *this;
   }
 
   variable_t &operator/=(const variable_t &object) {
+    auto rhs = object.to_double();
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() / object.to_double();
+    value = _to_double() / rhs;
     return *this;
   }
   template <typename T>
   variable_t &operator /= (T _value) {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() / _value;
+    value = _to_double() / _value;
     return *this;
   }
 
   variable_t &operator++() noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_int64() + 1;
+    value = _to_int64() + 1;
     return *this;
   }
   variable_t &operator--() noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_int64() - 1;
+    value = _to_int64() - 1;
     return *this;
   }
   variable_t &operator++(int32_t) noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_int64() + 1;
+    value = _to_int64() + 1;
     return *this;
   }
   variable_t &operator--(int32_t) noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_int64() - 1;
+    value = _to_int64() - 1;
     return *this;
   }
   
   friend bool operator==(
       const variable_t &lhs, const variable_t &rhs) noexcept {
-    return lhs.value == rhs.value;
+    return lhs.load() == rhs.load();
   }
   
   friend bool operator!=(const variable_t &lhs, const variable_t &rhs) noexcept {
-    return lhs.value != rhs.value;
+    return lhs.load() != rhs.load();
   }
 
   friend bool operator<(const variable_t &lhs, const variable_t &rhs) noexcept {
-    return lhs.value < rhs.value;
+    return lhs.load() < rhs.load();
   }
 
   friend bool operator>(const variable_t &lhs, const variable_t &rhs) noexcept {
-    return lhs.value > rhs.value;
+    return lhs.load() > rhs.load();
   }
 
   friend auto operator<=>(
       const variable_t &lhs, const variable_t &rhs) noexcept {
-    return lhs.value <=> rhs.value;
+    return lhs.load() <=> rhs.load();
   }
 
   explicit operator const char*() {
diff --git a/framework/core/src/basic/type/variable.cc b/framework/core/src/basic/type/variable.cc
index 7d4c140..e98143c 100644
--- a/framework/core/src/basic/type/variable.cc
+++ b/framework/core/src/basic/type/variable.cc
@@ -4,7 +4,7 @@
 namespace plain {
 
 std::ostream &operator<<(std::ostream &os, const variable_t &object) noexcept {
-  std::visit([&os](auto &&val){ os << val; }, object.value);
+  std::visit([&os](auto &&val){ os << val; }, object.load());
   return os;
 }
 
-- 
2.43.0


From 8a848ad2a5392f0aad6efa8772699f903f74635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:06 +0000
Subject: [PATCH 084/108] fix: md5 and the output of MD5 are defined where they
 are declared

The definitions were in the global namespace, so nothing that used plain::md5
could be linked.
---
 framework/core/src/basic/md5.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/basic/md5.cc b/framework/core/src/basic/md5.cc
index 23f7e07..4c4dd85 100644
--- a/framework/core/src/basic/md5.cc
+++ b/framework/core/src/basic/md5.cc
@@ -51,7 +51,7 @@ documentation and/or software.
  
 ///////////////////////////////////////////////
  
-using namespace plain;
+namespace plain {
 
 // F, G, H and I are basic MD5 functions.
 inline MD5::uint4 MD5::F(uint4 x, uint4 y, uint4 z) {
@@ -347,3 +347,5 @@ std::string md5(const std::string &str) {
   MD5 md5 = MD5(str);
   return md5.hexdigest();
 }
+
+} // namespace plain
-- 
2.43.0


From 1842635dc062a7505ad5a855090b71dc8655082d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:38 +0000
Subject: [PATCH 085/108] fix: Address clears the parts of the socket address
 it does not set

Two addresses of the same text differed in sin_zero.
---
 framework/core/src/net/address.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/net/address.cc b/framework/core/src/net/address.cc
index 297a10e..764e122 100644
--- a/framework/core/src/net/address.cc
+++ b/framework/core/src/net/address.cc
@@ -158,7 +158,7 @@ to_addr(bool ip_v4, std::string_view ip, uint16_t port, bool listen) {
   Address::value_type r;
   using value_t = Address::value_type::value_type;
   if (ip_v4) {
-    sockaddr_in addr;
+    sockaddr_in addr{};
     addr.sin_family = AF_INET;
     r.reserve(sizeof addr);
     if (ip.empty() || ip == "127.0.0.1" || ip == "0.0.0.0") {
@@ -174,7 +174,7 @@ to_addr(bool ip_v4, std::string_view ip, uint16_t port, bool listen) {
     addr.sin_port = htons(port);
     r.append(reinterpret_cast<value_t *>(&addr), sizeof(addr));
   } else {
-    sockaddr_in6 addr;
+    sockaddr_in6 addr{};
     addr.sin6_family = AF_INET6;
     addr.sin6_flowinfo = 0;
     addr.sin6_scope_id = 0;
-- 
2.43.0


From 40afbb3c608acc010ca0f41aabb758a19e5c49e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:38 +0000
Subject: [PATCH 086/108] fix: Address reads only the text it is given

The host and the port were read from string views as if they ended with a zero
byte.
---
 framework/core/src/net/address.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/net/address.cc b/framework/core/src/net/address.cc
index 764e122..fc66121 100644
--- a/framework/core/src/net/address.cc
+++ b/framework/core/src/net/address.cc
@@ -125,7 +125,7 @@ parse_address(std::string_view address) noexcept {
           ip = std::string_view{str};
         } else {
           port = static_cast<uint16_t>(
-            plain::toint64(std::string_view{str}.data()));
+            plain::toint64(std::string{std::string_view{str}}.c_str()));
           break;
         }
       }
@@ -144,7 +144,7 @@ parse_address(std::string_view address) noexcept {
           if (!ip.empty() && *ip.begin() == '[') ip.erase(ip.begin());
         } else {
           port = static_cast<uint16_t>(
-            plain::toint64(std::string_view{str}.data()));
+            plain::toint64(std::string{std::string_view{str}}.c_str()));
           break;
         }
       }
@@ -167,7 +167,7 @@ to_addr(bool ip_v4, std::string_view ip, uint16_t port, bool listen) {
       else
         addr.sin_addr.s_addr = inet_addr("127.0.0.1");
     } else {
-      addr.sin_addr.s_addr = inet_addr(ip.data());
+      addr.sin_addr.s_addr = inet_addr(std::string{ip}.c_str());
     }
     if (addr.sin_addr.s_addr == INADDR_NONE)
       throw std::invalid_argument("ip invalid");
@@ -188,7 +188,7 @@ to_addr(bool ip_v4, std::string_view ip, uint16_t port, bool listen) {
           throw std::invalid_argument("ip invalid");
       }
     } else {
-      auto cr = inet_pton(AF_INET6, ip.data(), &addr.sin6_addr);
+      auto cr = inet_pton(AF_INET6, std::string{ip}.c_str(), &addr.sin6_addr);
       if (cr != 1)
         throw std::invalid_argument("ip invalid");
     }
-- 
2.43.0


From f1fa8eb1175ccdcba7d99351e23af53ac989abab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:38 +0000
Subject: [PATCH 087/108] fix: Address accepts 255.255.255.255

inet_addr returns INADDR_NONE for it as it does for an error.
---
 framework/core/src/net/address.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/net/address.cc b/framework/core/src/net/address.cc
index fc66121..ff7a393 100644
--- a/framework/core/src/net/address.cc
+++ b/framework/core/src/net/address.cc
@@ -167,10 +167,12 @@ to_addr(bool ip_v4, std::string_view ip, uint16_t port, bool listen) {
       else
         addr.sin_addr.s_addr = inet_addr("127.0.0.1");
     } else {
-      addr.sin_addr.s_addr = inet_addr(std::string{ip}.c_str());
+      std::string str{ip};
+      addr.sin_addr.s_addr = inet_addr(str.c_str());
+      if (addr.sin_addr.s_addr == INADDR_NONE &&
+          inet_pton(AF_INET, str.c_str(), &addr.sin_addr) != 1)
+        throw std::invalid_argument("ip invalid");
     }
-    if (addr.sin_addr.s_addr == INADDR_NONE)
-      throw std::invalid_argument("ip invalid");
     addr.sin_port = htons(port);
     r.append(reinterpret_cast<value_t *>(&addr), sizeof(addr));
   } else {
-- 
2.43.0


From c895b6587be29bd94d6274d24c89b889e10c5ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:38 +0000
Subject: [PATCH 088/108] fix: Address takes IPv6 text with an IPv4 tail for
 what it is

[::ffff:1.2.3.4]:80 became 0.0.0.0 with port 0, because the dots made it IPv4
and the host ends at the first colon.
---
 framework/core/src/net/address.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/framework/core/src/net/address.cc b/framework/core/src/net/address.cc
index ff7a393..e73fb39 100644
--- a/framework/core/src/net/address.cc
+++ b/framework/core/src/net/address.cc
@@ -102,8 +102,7 @@ bool plain::net::is_valid_addr(const bytes_t &addr, bool verbose) noexcept {
 }
 
 static bool is_ipv4(std::string_view address) noexcept {
-  if (address.find(':') == address.rfind(':')) return true;
-  return address.find('.') != std::string::npos;
+  return address.find(':') == address.rfind(':');
 }
 
 /* std::tuple<ip_v4, ip, port> */
-- 
2.43.0


From 7a62becfaabb0aa704519628fea195c54ffa0a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:38 +0000
Subject: [PATCH 089/108] fix: Address accepts an IPv6 address in brackets
 without a port

---
 framework/core/src/net/address.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/net/address.cc b/framework/core/src/net/address.cc
index e73fb39..ceb1e4b 100644
--- a/framework/core/src/net/address.cc
+++ b/framework/core/src/net/address.cc
@@ -141,6 +141,7 @@ parse_address(std::string_view address) noexcept {
         if (index++ == 0) {
           ip = std::string_view{str};
           if (!ip.empty() && *ip.begin() == '[') ip.erase(ip.begin());
+          if (!ip.empty() && ip.back() == ']') ip.pop_back();
         } else {
           port = static_cast<uint16_t>(
             plain::toint64(std::string{std::string_view{str}}.c_str()));
-- 
2.43.0


From 1d87e41ef6f9f9975675c247111a0dccf52162cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:38 +0000
Subject: [PATCH 090/108] fix: Address refuses a port that is none

70000 became 4464, and what is no number became 0.
---
 framework/core/src/net/address.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/net/address.cc b/framework/core/src/net/address.cc
index ceb1e4b..e343eff 100644
--- a/framework/core/src/net/address.cc
+++ b/framework/core/src/net/address.cc
@@ -105,9 +105,18 @@ static bool is_ipv4(std::string_view address) noexcept {
   return address.find(':') == address.rfind(':');
 }
 
+static uint16_t parse_port(std::string_view str) {
+  if (str.size() > 5 ||
+      str.find_first_not_of("0123456789") != std::string_view::npos)
+    throw std::invalid_argument("port invalid");
+  auto r = plain::toint64(std::string{str}.c_str());
+  if (r > 65535) throw std::invalid_argument("port invalid");
+  return static_cast<uint16_t>(r);
+}
+
 /* std::tuple<ip_v4, ip, port> */
 static std::tuple<bool, std::string, uint16_t>
-parse_address(std::string_view address) noexcept {
+parse_address(std::string_view address) {
   uint16_t port{0};
   if (address.empty())
     return std::make_tuple(true, "", port);
@@ -123,8 +132,7 @@ parse_address(std::string_view address) noexcept {
         if (index++ == 0) {
           ip = std::string_view{str};
         } else {
-          port = static_cast<uint16_t>(
-            plain::toint64(std::string{std::string_view{str}}.c_str()));
+          port = parse_port(std::string_view{str});
           break;
         }
       }
@@ -143,8 +151,7 @@ parse_address(std::string_view address) noexcept {
           if (!ip.empty() && *ip.begin() == '[') ip.erase(ip.begin());
           if (!ip.empty() && ip.back() == ']') ip.pop_back();
         } else {
-          port = static_cast<uint16_t>(
-            plain::toint64(std::string{std::string_view{str}}.c_str()));
+          port = parse_port(std::string_view{str});
           break;
         }
       }
-- 
2.43.0


From 04f06cbe35fd0f9a45fd6f9d3f5fb4516312e9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:38 +0000
Subject: [PATCH 091/108] fix: the text of an IPv6 address has brackets

Without them the port reads as the last group of the address.
---
 framework/core/src/net/address.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework/core/src/net/address.cc b/framework/core/src/net/address.cc
index e343eff..15c1b3c 100644
--- a/framework/core/src/net/address.cc
+++ b/framework/core/src/net/address.cc
@@ -275,6 +275,8 @@ size_t Address::size() const noexcept {
 }
 
 std::string Address::text() const noexcept {
+  if (family() == AF_INET6)
+    return "[" + host() + "]:" + std::to_string(port());
   return host() + ":" + std::to_string(port());
 }
 
-- 
2.43.0


From dc3a555f4e6d2e98eadb5dfcd18089817daabfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:54 +0000
Subject: [PATCH 092/108] fix: the background executor uses the options of the
 background executor

---
 framework/core/src/engine/kernel.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 2c65989..e916489 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -214,8 +214,8 @@ Kernel::Kernel(const engine_option &option) : impl_{std::make_unique<Impl>()} {
   impl_->registered_executors.register_executor(impl_->thread_pool_executor);
 
   impl_->background_executor = std::make_shared<executor::ThreadPool>(
-    "thread background executor", option.max_cpu_threads, 
-    option.max_thread_pool_executor_waiting_time,
+    "thread background executor", option.max_background_threads, 
+    option.max_background_executor_waiting_time,
     option.thread_started_callback,
     option.thread_terminated_callback
   );
-- 
2.43.0


From 09ce50097cbd2f97eb49ac1a2831c23589ac74cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:54 +0000
Subject: [PATCH 093/108] fix: a Kernel that was not started is not running

running_ was not initialised, so enqueue and newthread accepted or refused at
random.
---
 framework/core/include/plain/engine/kernel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/engine/kernel.h b/framework/core/include/plain/engine/kernel.h
index 5a7fba6..56aa2a7 100644
--- a/framework/core/include/plain/engine/kernel.h
+++ b/framework/core/include/plain/engine/kernel.h
@@ -123,7 +123,7 @@ class PLAIN_API Kernel {
   }
 
  private:
-  bool running_;
+  bool running_{false};
   std::mutex mutex_;
   std::queue<std::function<void()>> tasks_;
   std::vector<std::thread> thread_workers_;
-- 
2.43.0


From 2f3b61aa42169a054d22a1af79650352cadb6819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:54 +0000
Subject: [PATCH 094/108] fix: Kernel reads only the names it is given

---
 framework/core/src/engine/kernel.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index e916489..4429081 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -309,7 +309,7 @@ void Kernel::remove(std::shared_ptr<net::connection::Manager> net) noexcept {
    
 void Kernel::remove_net(std::string_view name) noexcept {
   std::unique_lock<decltype(impl_->mutex)> auto_lock{impl_->mutex};
-  impl_->nets.erase(name.data());
+  impl_->nets.erase(std::string{name});
 }
 
 bool Kernel::enable_console(std::string_view addr) noexcept {
@@ -355,9 +355,9 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
 void Kernel::register_console_handler(
   std::string_view cmd, console_func func, std::string_view desc) noexcept {
   std::unique_lock<decltype(impl_->mutex)> auto_lock{impl_->mutex};
-  auto it = impl_->console_handlers.find(cmd.data());
+  auto it = impl_->console_handlers.find(std::string{cmd});
   if (it != impl_->console_handlers.end())
-    LOG_WARN << "cmd: " << cmd.data() << " handler will replace";
+    LOG_WARN << "cmd: " << std::string{cmd} << " handler will replace";
   impl_->console_handlers.emplace(cmd, func);
   if (!desc.empty())
     impl_->console_descs.emplace(cmd, desc);
-- 
2.43.0


From a1684f4372418d0340cb38aa716aa1d77ebeb438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:54 +0000
Subject: [PATCH 095/108] fix: registering a console command again replaces it

The log said so, but emplace keeps what is there.
---
 framework/core/src/engine/kernel.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 4429081..b1f93af 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -358,7 +358,7 @@ void Kernel::register_console_handler(
   auto it = impl_->console_handlers.find(std::string{cmd});
   if (it != impl_->console_handlers.end())
     LOG_WARN << "cmd: " << std::string{cmd} << " handler will replace";
-  impl_->console_handlers.emplace(cmd, func);
+  impl_->console_handlers.insert_or_assign(std::string{cmd}, func);
   if (!desc.empty())
-    impl_->console_descs.emplace(cmd, desc);
+    impl_->console_descs.insert_or_assign(std::string{cmd}, std::string{desc});
 }
-- 
2.43.0


From 5923826503e200b34d93c395b07c2f182e8c95a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:54 +0000
Subject: [PATCH 096/108] fix: the console reads only the line it received

The data of a packet does not end with a zero byte.
---
 framework/core/src/engine/kernel.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index b1f93af..5e97c11 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -326,9 +326,10 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
   
   impl_->console_listener->set_dispatcher([](
     net::connection::Basic *conn, std::shared_ptr<net::packet::Basic> packet){
-    auto d = reinterpret_cast<const char *>(packet->data().data());
+    auto d = packet->data();
+    std::string line{reinterpret_cast<const char *>(d.data()), d.size()};
     std::vector<std::string> params;
-    explode(d, params, " ", true, true);
+    explode(line.c_str(), params, " ", true, true);
     if (params.empty()) return true;
     auto cmd = params[0];
     auto it = ENGINE->impl_->console_handlers.find(cmd);
-- 
2.43.0


From 2e03e8bf577c05a1f6e138e0180d5c9a5bfe6180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:54 +0000
Subject: [PATCH 097/108] fix: console commands may be registered while the
 console is used

The console read the tables of commands without the lock.
---
 framework/core/src/engine/kernel.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 5e97c11..7788193 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -165,6 +165,8 @@ std::string Kernel::Impl::console_cmd_kill(
 
 std::string Kernel::Impl::console_cmd_help(
   const std::vector<std::string> &args) {
+  std::unique_lock<decltype(ENGINE->impl_->mutex)>
+    auto_lock{ENGINE->impl_->mutex};
   std::string r;
   if (args.empty()) {
     for (const auto &it : ENGINE->impl_->console_descs) {
@@ -332,10 +334,16 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
     explode(line.c_str(), params, " ", true, true);
     if (params.empty()) return true;
     auto cmd = params[0];
-    auto it = ENGINE->impl_->console_handlers.find(cmd);
-    if (it == ENGINE->impl_->console_handlers.end()) return false;
+    console_func func;
+    {
+      std::unique_lock<decltype(ENGINE->impl_->mutex)>
+        auto_lock{ENGINE->impl_->mutex};
+      auto it = ENGINE->impl_->console_handlers.find(cmd);
+      if (it == ENGINE->impl_->console_handlers.end()) return false;
+      func = it->second;
+    }
     params.erase(params.begin());
-    auto r = it->second(params);
+    auto r = func(params);
     if (!r.empty()) {
       auto p = std::make_shared<net::packet::Basic>();
       p->set_writeable(true);
-- 
2.43.0


From 1e2f39771b79348a0a2caba4bcd34696eb983364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:54 +0000
Subject: [PATCH 098/108] fix: the console is ready when it starts, and can be
 enabled again if it did not

A client that connected at once was served with the wrong codec and no
dispatcher; an address that could not be used ended the process or left the
console disabled for good.
---
 framework/core/src/engine/kernel.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 7788193..59b8034 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -321,11 +321,6 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
   setting.address = addr;
   setting.name = "console";
   impl_->console_listener = std::make_unique<net::Listener>(setting);
-  if (!impl_->console_listener->start())
-    return false;
-  LOG_INFO << "console listen on " <<
-    impl_->console_listener->address().text();
-  
   impl_->console_listener->set_dispatcher([](
     net::connection::Basic *conn, std::shared_ptr<net::packet::Basic> packet){
     auto d = packet->data();
@@ -358,6 +353,19 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
   impl_->console_listener->set_codec(
     {.encode = net::stream::line_encode, .decode = net::stream::line_decode});
 
+  bool started{false};
+  try {
+    started = impl_->console_listener->start();
+  } catch (const std::exception &e) {
+    LOG_ERROR << "console start failed: " << e.what();
+  }
+  if (!started) {
+    impl_->console_listener.reset();
+    return false;
+  }
+  LOG_INFO << "console listen on " <<
+    impl_->console_listener->address().text();
+
   return true;
 }
 
-- 
2.43.0


From d1cfd5087b92a84ce269d2d789328dafd8726c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:54 +0000
Subject: [PATCH 099/108] fix: a Kernel stops its console before the parts the
 console uses

---
 framework/core/src/engine/kernel.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 59b8034..56f42cd 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -238,6 +238,7 @@ Kernel::Kernel(const engine_option &option) : impl_{std::make_unique<Impl>()} {
   
 Kernel::~Kernel() noexcept {
   try {
+    impl_->console_listener.reset();
     impl_->timer_queue->shutdown();
     impl_->registered_executors.shutdown_all();
   } catch (...) {
-- 
2.43.0


From c065a7d3c05f9649c28cc791b3eb96aee7e49aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:54 +0000
Subject: [PATCH 100/108] fix: killall from the console spares the console

As kill does: the console cannot stop itself from its own dispatcher.
---
 framework/core/src/engine/kernel.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 56f42cd..686ead6 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -137,6 +137,7 @@ std::string Kernel::Impl::console_cmd_kill(
   if (args.empty()) {
     // killall
     for (auto it : nets) {
+      if (it.first == "console") continue;
       auto net = it.second.lock();
       if (net) net->stop();
     }
-- 
2.43.0


From 4e2652db0db200939889d0d88dce17b26254fb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:02 +0000
Subject: [PATCH 101/108] fix: a stopped listener does not listen any more

Its socket stayed open until the listener was destroyed, so clients connected
to it and waited for an answer nobody would give.
---
 framework/core/src/net/connection/manager.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index d290bb4..e41a643 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -296,6 +296,7 @@ void Manager::stop() {
   if (impl_->worker.joinable())
     impl_->worker.join();
 #endif
+  if (listen_sock_) listen_sock_->close();
   std::this_thread::sleep_for(1ms);
   impl_->executor->shutdown();
   decltype(impl_->connection_info.list) conns;
-- 
2.43.0


From ccdbad4232e05198bd5f1c4d6810aa448aaede74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:22 +0000
Subject: [PATCH 102/108] fix: stop ends the connections accepted while it runs

The worker may accept a client after stop went through the connections; that
client saw no end until the listener was destroyed.
---
 framework/core/src/net/connection/manager.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index e41a643..9565bb1 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -303,6 +303,9 @@ void Manager::stop() {
   {
     std::unique_lock<decltype(impl_->mutex)> auto_lock(impl_->mutex);
     conns = impl_->connection_info.list;
+    for (auto conn : conns) {
+      if (conn && conn->valid()) conn->shutdown();
+    }
   }
   for (auto conn : conns) {
     if (conn) conn->break_calls();
-- 
2.43.0


From d0408d9f3c456b9668597157c73725ec857c1ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:07 +0000
Subject: [PATCH 103/108] fix: a bulk post to a thread pool is accepted or
 refused as a whole

When a shutdown reached the workers one by one while a batch was being spread
over them, the batch was reported as refused although the part handed to other
workers ran. Now the rest of a batch that was accepted in part is dropped, as
the shutdown does with all accepted work.
---
 .../core/src/concurrency/executor/thread_pool.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/concurrency/executor/thread_pool.cc b/framework/core/src/concurrency/executor/thread_pool.cc
index 512259d..6997e0f 100644
--- a/framework/core/src/concurrency/executor/thread_pool.cc
+++ b/framework/core/src/concurrency/executor/thread_pool.cc
@@ -565,8 +565,15 @@ void ThreadPool::enqueue(std::span<Task> tasks) {
     return this_worker->enqueue_local(tasks);
   }
   if (tasks.size() < workers_.size()) {
+    bool accepted{false};
     for (auto &task : tasks) {
-      enqueue(std::move(task));
+      try {
+        enqueue(std::move(task));
+        accepted = true;
+      } catch (const std::runtime_error &) {
+        if (!accepted) throw;
+        return; // Shut down in the meantime, the rest is dropped.
+      }
     }
     return;
   }
@@ -593,7 +600,12 @@ void ThreadPool::enqueue(std::span<Task> tasks) {
     assert(tasks_begin_it < tasks.end());
     assert(tasks_end_it <= tasks.end());
 
-    workers_[i].enqueue_foreign(tasks_begin_it, tasks_end_it);
+    try {
+      workers_[i].enqueue_foreign(tasks_begin_it, tasks_end_it);
+    } catch (const std::runtime_error &) {
+      if (i == 0) throw;
+      return; // Shut down in the meantime, the rest is dropped.
+    }
 
     begin = end;
     end += donation_count;
-- 
2.43.0


From 4aaea6f567e76edca3badb52f5a62f83ae00316d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:04 +0000
Subject: [PATCH 104/108] fix: memory pool blocks belong to one owner at a time

The unused and the returned space of a leaf were two counters: between reading
one and resetting the other a leaf could be reset while a block in it was in
use (the block was handed out twice), a block's header was wiped after the
block had been given back, and a failed attempt to take a block made the leaf
unusable for ever. Both counters are one atomic value now and the header is
wiped first.
---
 .../core/include/plain/sys/memory/pool.h      | 73 ++++++++++---------
 1 file changed, 39 insertions(+), 34 deletions(-)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index e7807cc..e6d0238 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -70,19 +70,17 @@ public:
       functionality will remain operational.
     */
     do {
-      const int32_t available =
-        leaf_array_[leaf_id].available.load(std::memory_order_acquire);
-      // std::cout << "available: " << available << std::endl;
-      if (available <= 0) break;
-      if (available >= real_size) {
+      uint64_t state =
+        leaf_array_[leaf_id].state.load(std::memory_order_acquire);
+      while (available_of(state) >= real_size) {
         // we reserve memory 
         // (the buffer is distributed from the end with a bite):
-        const int32_t available_after =
-          leaf_array_[leaf_id].available.fetch_sub(
-              real_size, std::memory_order_acq_rel) - real_size;
-        // and if successful, a positive number should have returned,
-        // otherwise we would have broken through the bottom of the buffer:
-        if (available_after >= 0) {
+        const int32_t available_after = available_of(state) - real_size;
+        const uint64_t state_after =
+          pack(available_after, used_of(state) + real_size);
+        if (leaf_array_[leaf_id].state.compare_exchange_weak(
+              state, state_after,
+              std::memory_order_acq_rel, std::memory_order_acquire)) {
           // the resulting distribution address is easy to obtain, because it
           // starts immediately after "available", since addressing from &[0]
           // then this is "buf + available":
@@ -100,6 +98,7 @@ public:
           break; // finished the search, return the allocation pointer
         }
       }
+      if (re) break;
       ++leaf_id;
       if (kLeafCount == leaf_id) { leaf_id = 0; }
     } while (leaf_id != start_leaf);
@@ -154,21 +153,21 @@ public:
         && leaf_array_[head->leaf_id].buf) {
       // ok this is my allocation
       const int32_t real_size = head->size + sizeof(AllocHeader);
-      const int32_t deallocated =
-        leaf_array_[head->leaf_id].deallocated.fetch_add(
-            real_size, std::memory_order_acq_rel) + real_size;
-      int32_t available =
-        leaf_array_[head->leaf_id].available.load(std::memory_order_acquire);
-      if (deallocated == (kLeafSizeBytes - available)) {
-        // everything that was allocated is now returned, we will try, carefully, reset the Leaf
-        if (leaf_array_[head->leaf_id].available.compare_exchange_strong(
-              available, kLeafSizeBytes)) {
-          leaf_array_[head->leaf_id].deallocated -= deallocated;
-        }
-      }
+      auto &leaf = leaf_array_[head->leaf_id];
 
-      // Cleanup so that unique TAG_my_alloc will be keep unique in RAM:
+      // Cleanup so that unique TAG_my_alloc will be keep unique in RAM
+      // (before somebody else can get this block):
       memset((char *)head, 0, sizeof(AllocHeader));
+
+      uint64_t state = leaf.state.load(std::memory_order_acquire);
+      uint64_t state_after;
+      do {
+        const int32_t used = used_of(state) - real_size;
+        // if everything that was allocated is now returned, reset the Leaf
+        state_after = pack(used == 0 ? kLeafSizeBytes : available_of(state), used);
+      } while (!leaf.state.compare_exchange_weak(
+          state, state_after,
+          std::memory_order_acq_rel, std::memory_order_acquire));
     } else if ((uint64_t)kTagOSMalloc == head->tag_this
         && kOSMallocID == head->leaf_id
         && head->size > 0) {
@@ -277,14 +276,11 @@ public:
     for (int32_t i = 0; i < kLeafCount; ++i) {
       if (buf_array[i]) {
         leaf_array_[i].buf = static_cast<char *>(buf_array[i]);
-        leaf_array_[i].available.store(
-            kLeafSizeBytes, std::memory_order_relaxed);
-        leaf_array_[i].deallocated.store(0, std::memory_order_relaxed);
+        leaf_array_[i].state.store(
+            pack(kLeafSizeBytes, 0), std::memory_order_relaxed);
       } else {
         leaf_array_[i].buf = nullptr;
-        leaf_array_[i].available.store(0, std::memory_order_relaxed);
-        leaf_array_[i].deallocated.store(
-            kLeafSizeBytes, std::memory_order_relaxed);
+        leaf_array_[i].state.store(0, std::memory_order_relaxed);
       }
     }
     std::atomic_thread_fence(std::memory_order_release);
@@ -439,12 +435,21 @@ public:
 private:
   struct leaf_t {
     char *buf;
-    // available == offset
-    std::atomic<int32_t> available{ kLeafSizeBytes };
-    // control of deallocations:
-    std::atomic<int32_t> deallocated{ 0 };
+    // available == offset, and the space in use, changed together:
+    std::atomic<uint64_t> state{ pack(kLeafSizeBytes, 0) };
   };
 
+  static constexpr uint64_t pack(int32_t available, int32_t used) noexcept {
+    return (static_cast<uint64_t>(static_cast<uint32_t>(available)) << 32) |
+      static_cast<uint32_t>(used);
+  }
+  static constexpr int32_t available_of(uint64_t state) noexcept {
+    return static_cast<int32_t>(state >> 32);
+  }
+  static constexpr int32_t used_of(uint64_t state) noexcept {
+    return static_cast<int32_t>(state & 0xffffffff);
+  }
+
   /*
    * AllocHeader
     Allows you to quickly assess whether your allocation and where:
-- 
2.43.0


From 87df65a5c0d9e441db93843a044a97c7b2ef082d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:04 +0000
Subject: [PATCH 105/108] fix: memory pool blocks are aligned, of any size and
 can be empty

Blocks of a leaf had no alignment at all, a size that does not fit an int made
the pool hand out wrong memory, and an empty block could not be given back to
the system.
---
 .../core/include/plain/sys/memory/pool.h      | 29 ++++++++++++++-----
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index e6d0238..baccb4a 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -53,8 +53,8 @@ public:
    */
   void* malloc(std::size_t allocation_size) {
     // Allocation will include a header with service information:
-    const int32_t real_size = static_cast<int32_t>(
-        allocation_size + sizeof(AllocHeader));
+    if (allocation_size > kMaxAllocation) return nullptr;
+    const int32_t real_size = real_size_of(allocation_size);
     // Starting leaf for finding the allocation place:
     const int32_t start_leaf = static_cast<int32_t>(
         cur_leaf_.load(std::memory_order_relaxed));
@@ -152,7 +152,7 @@ public:
         && ((uint64_t)this) == (head->tag_this - head->leaf_id)
         && leaf_array_[head->leaf_id].buf) {
       // ok this is my allocation
-      const int32_t real_size = head->size + sizeof(AllocHeader);
+      const int32_t real_size = real_size_of(head->size);
       auto &leaf = leaf_array_[head->leaf_id];
 
       // Cleanup so that unique TAG_my_alloc will be keep unique in RAM
@@ -164,13 +164,13 @@ public:
       do {
         const int32_t used = used_of(state) - real_size;
         // if everything that was allocated is now returned, reset the Leaf
-        state_after = pack(used == 0 ? kLeafSizeBytes : available_of(state), used);
+        state_after = pack(used == 0 ? kLeafCapacity : available_of(state), used);
       } while (!leaf.state.compare_exchange_weak(
           state, state_after,
           std::memory_order_acq_rel, std::memory_order_acquire));
     } else if ((uint64_t)kTagOSMalloc == head->tag_this
         && kOSMallocID == head->leaf_id
-        && head->size > 0) {
+        && head->size >= 0) {
       // ok, to OS malloc
       // Cleanup so that unique TAG_my_alloc will be keep unique in RAM:
       memset((char *)head,  0,  sizeof(AllocHeader));
@@ -235,7 +235,7 @@ public:
       } // elseif (!buf
     } else if (kTagOSMalloc == head->tag_this
          && kOSMallocID == head->leaf_id
-         && head->size > 0) {
+         && head->size >= 0) {
       // Let's check whether it has gone beyond the allocation limits:
       char *start = static_cast<char *>(base_alloc_ptr);
       char *end = start + head->size;
@@ -277,7 +277,7 @@ public:
       if (buf_array[i]) {
         leaf_array_[i].buf = static_cast<char *>(buf_array[i]);
         leaf_array_[i].state.store(
-            pack(kLeafSizeBytes, 0), std::memory_order_relaxed);
+            pack(kLeafCapacity, 0), std::memory_order_relaxed);
       } else {
         leaf_array_[i].buf = nullptr;
         leaf_array_[i].state.store(0, std::memory_order_relaxed);
@@ -433,10 +433,23 @@ public:
 
 #endif
 private:
+  // Every block, with its header, takes a multiple of this.
+  static constexpr int32_t kAlignment = alignof(std::max_align_t);
+  static constexpr int32_t kLeafCapacity =
+    kLeafSizeBytes - kLeafSizeBytes % kAlignment;
+  static constexpr std::size_t kMaxAllocation =
+    std::numeric_limits<int32_t>::max() - 4 * kAlignment;
+
+  static constexpr int32_t real_size_of(std::size_t allocation_size) noexcept {
+    const auto size = allocation_size + sizeof(AllocHeader);
+    return static_cast<int32_t>(
+      (size + kAlignment - 1) / kAlignment * kAlignment);
+  }
+
   struct leaf_t {
     char *buf;
     // available == offset, and the space in use, changed together:
-    std::atomic<uint64_t> state{ pack(kLeafSizeBytes, 0) };
+    std::atomic<uint64_t> state{ pack(kLeafCapacity, 0) };
   };
 
   static constexpr uint64_t pack(int32_t available, int32_t used) noexcept {
-- 
2.43.0


From dafa58fd6090d87ba709789545ebca7b22e0336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:55 +0000
Subject: [PATCH 106/108] fix: the pool allocator works without a pool, in
 every container and across pools

The documented default did not compile, no container that rebinds its allocator
accepted an own pool, and containers on different pools claimed to be able to
free each other's memory.
---
 .../core/include/plain/sys/memory/pool.h      | 31 +++++++++++++------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index baccb4a..ca7551a 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -595,13 +595,20 @@ struct PoolAllocator : public std::allocator<T>  {
   PoolAllocator(MyAllocatorType *in_allocator) : allocator_(in_allocator) {
 
   }
-  template <class U> constexpr PoolAllocator(const PoolAllocator<U> &)
-  noexcept {}
+  template <class U>
+  constexpr PoolAllocator(const PoolAllocator<U, FAllocator> &other) noexcept
+    : allocator_(other.allocator_) {}
+
+  // The memory goes with its pool.
+  using is_always_equal = std::false_type;
+  using propagate_on_container_copy_assignment = std::false_type;
+  using propagate_on_container_move_assignment = std::true_type;
+  using propagate_on_container_swap = std::true_type;
 
   T *allocate(std::size_t n) {
     if (n > std::numeric_limits<std::size_t>::max() / sizeof (T))
       throw std::bad_alloc();
-    if (std::is_same<FAllocator, PoolNull>::value) {
+    if constexpr (std::is_same<FAllocator, PoolNull>::value) {
       if (auto p = static_cast<T *>(
             PLAIN_MALLOC(Pool<>::instance(), (n * sizeof (T)))))
         return p;
@@ -619,7 +626,7 @@ struct PoolAllocator : public std::allocator<T>  {
   } // alloc
 
   void deallocate(T *p, std::size_t) noexcept {
-    if (std::is_same<FAllocator, PoolNull>::value) {
+    if constexpr (std::is_same<FAllocator, PoolNull>::value) {
       PLAIN_FREE(Pool<>::instance(),  p);
     } else {
       if (allocator_) {
@@ -639,14 +646,18 @@ struct PoolAllocator : public std::allocator<T>  {
   void destroy(_Up* __p) { __p->~_Up(); }
 };
 
-template <class T, class U>
-bool operator == (const PoolAllocator<T>&, const PoolAllocator<U>&) {
-  return true;
+template <class T, class U, class FAllocator>
+bool operator == (
+  const PoolAllocator<T, FAllocator> &lhs,
+  const PoolAllocator<U, FAllocator> &rhs) noexcept {
+  return lhs.allocator_ == rhs.allocator_;
 }
 
-template<class T, class U>
-bool operator != (const PoolAllocator<T>&, const PoolAllocator<U>&) {
-  return false;
+template <class T, class U, class FAllocator>
+bool operator != (
+  const PoolAllocator<T, FAllocator> &lhs,
+  const PoolAllocator<U, FAllocator> &rhs) noexcept {
+  return !(lhs == rhs);
 }
 
 } // namespace plain::memory
-- 
2.43.0


From f330273728a973d3d343cb4f075df518c1260538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:43 +0000
Subject: [PATCH 107/108] fix: a tab text line can be longer than 10 KB

---
 framework/core/src/file/tab.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index c60a175..6307ee6 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -215,10 +215,13 @@ bool Tab::field_equal(
 
 bool Tab::open_from_memory_text(
   const char *memory, const char *end, const char *filename) {
-  char line[(1024 * 10) + 1]; //long string
-  memset(line, '\0', sizeof(line));
   const char *_memory = memory;
-  _memory = get_line_from_memory(line, sizeof(line) - 1, _memory, end);
+  if (!_memory || _memory >= end) return false;
+  // A line is at most as long as the text.
+  const int32_t line_size = static_cast<int32_t>(end - memory) + 2;
+  std::vector<char> line_buffer(line_size);
+  char *line = line_buffer.data();
+  _memory = get_line_from_memory(line, line_size, _memory, end);
   if (!_memory) return false;
   std::vector<std::string> result;
   explode(line, result, "\t", true, true);
@@ -243,7 +246,7 @@ bool Tab::open_from_memory_text(
   int32_t field_number = static_cast<int32_t>(_field_type.size());
   std::vector<std::pair<std::string, int32_t> > string_buffer;
   std::unordered_map<std::string, int32_t> map_string_buffer;
-  _memory = get_line_from_memory(line, sizeof(line) - 1, _memory, end);
+  _memory = get_line_from_memory(line, line_size, _memory, end);
   //第二行为列名（相当于数据库的字段名），应尽量使用英文
   explode(line, fieldnames_, "\t", true, false);
   if (!_memory) return false;
@@ -251,7 +254,7 @@ bool Tab::open_from_memory_text(
   bool loop = true;
   do {
     //以行读取数据
-    _memory = get_line_from_memory(line, sizeof(line) - 1, _memory, end);
+    _memory = get_line_from_memory(line, line_size, _memory, end);
     if (!_memory) break;
     if ('#' == line[0]) continue; //注释行
     explode(line, result, "\t", true, false);
-- 
2.43.0


From 5cbbdab919f804710223bb8be3639db12400d119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:43 +0000
Subject: [PATCH 108/108] fix: a log line is printed whole

---
 framework/core/src/basic/logger.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/basic/logger.cc b/framework/core/src/basic/logger.cc
index b7ef27c..272db7e 100644
--- a/framework/core/src/basic/logger.cc
+++ b/framework/core/src/basic/logger.cc
@@ -112,7 +112,7 @@ void Logger::Impl::format_time() {
   buffer_.write(" ", 1);
 }
 
-void print_log(LogLevel level, const char *str) {
+void print_log(LogLevel level, const std::string_view &str) {
   switch (level) {
     case LogLevel::Fatal:
     case LogLevel::Error:
@@ -139,7 +139,7 @@ void Logger::Impl::finish() {
     buffer_.write(line, ptr - line);
   }
   if (true == GLOBALS["log.print"]) {
-    print_log(level_, buffer_.peek());
+    print_log(level_, {buffer_.peek(), buffer_.read_avail()});
   }
   if (0 == buffer_.write("\n", 1)) // Full, so the line was cut.
     buffer_.peek()[buffer_.read_avail() - 1] = '\n';
-- 
2.43.0

