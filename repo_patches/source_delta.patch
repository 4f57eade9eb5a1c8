From 9f2bcf3606538944479a07af58e014475917c124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 01/48] fix: eager_task must not use done() while the coroutine
 runs on another thread

await_ready() and is_ready() called coroutine_handle::done() on a coroutine
that may be running on another thread, which is a data race, and done()
turns true before the coroutine has released its result: the task could be
destroyed or its result read while final_suspend is still executing. Track
completion in the atomic that already orders completion and continuation.
---
 macoro/task.h | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/macoro/task.h b/macoro/task.h
index b553067..41107e3 100644
--- a/macoro/task.h
+++ b/macoro/task.h
@@ -154,10 +154,11 @@ namespace macoro
 				{
 					auto& promise = coro.promise();
 					// release our result. acquire their continuation (if they beat us).
-					auto b = promise.has_completed_or_continutation.exchange(true, std::memory_order_acq_rel);
+					// Once the completed bit is set, the task can be destroyed by its owner.
+					auto old = promise.m_state.fetch_or(completed_bit, std::memory_order_acq_rel);
 
-					// if b, then we have finished after the continuation was set. 
-					if (b)
+					// if set, then we have finished after the continuation was set. 
+					if (old & continuation_bit)
 					{
 						assert(promise.m_continuation);
 						return promise.m_continuation;
@@ -171,7 +172,7 @@ namespace macoro
 		public:
 
 			task_promise_base() noexcept
-				: has_completed_or_continutation(false)
+				: m_state(0)
 			{
 				//std::cout << "eager" << std::endl;
 			}
@@ -200,12 +201,22 @@ namespace macoro
 			{
 				assert(!m_continuation);
 				m_continuation = continuation;
-				return has_completed_or_continutation.exchange(true, std::memory_order_acq_rel);
+				return m_state.fetch_or(continuation_bit, std::memory_order_acq_rel) & completed_bit;
+			}
+
+			// true once the coroutine has finished and suspended at its final suspend point.
+			// Unlike coroutine_handle::done(), this can be called while the coroutine is
+			// running on another thread.
+			bool is_completed() const noexcept
+			{
+				return m_state.load(std::memory_order_acquire) & completed_bit;
 			}
 
 		private:
-			std::atomic<bool> has_completed_or_continutation;
-			
+			static constexpr unsigned char completed_bit = 1;
+			static constexpr unsigned char continuation_bit = 2;
+			std::atomic<unsigned char> m_state;
+
 			coroutine_handle<> m_continuation;
 		};
 
@@ -477,7 +488,7 @@ namespace macoro
 
 			bool await_ready() const noexcept
 			{
-				return !m_coroutine || m_coroutine.done();
+				return !m_coroutine || m_coroutine.promise().is_completed();
 			}
 
 #ifdef MACORO_CPP_20
@@ -584,7 +595,10 @@ namespace macoro
 		/// Awaiting a task that is ready is guaranteed not to block/suspend.
 		bool is_ready() const noexcept
 		{
-			return m_coroutine && m_coroutine.done();
+			if constexpr (lazy)
+				return m_coroutine && m_coroutine.done();
+			else
+				return m_coroutine && m_coroutine.promise().is_completed();
 		}
 
 		struct ref_awaitable : detail::task_awaitable_base<T,lazy>
-- 
2.43.0


From 5d6a3532ee57f6db2e884e396ab6c2064ced4445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 02/48] fix: barrier::decrement must not touch the barrier
 after the count reached 0

decrement() read m_continuation after its fetch_sub: when the awaiting
coroutine came meanwhile (and found the count at zero) it continues and may
destroy or re-arm the barrier, which makes this a use after free, a data race
and a possible second resumption. Let the operation that changes the count to
zero also decide whether there is someone to resume. Also qualify
detail::get_traceable, which otherwise is only found by ADL for macoro's own
promise types.
---
 macoro/barrier.h | 57 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/macoro/barrier.h b/macoro/barrier.h
index 2698b5d..687e169 100644
--- a/macoro/barrier.h
+++ b/macoro/barrier.h
@@ -65,20 +65,24 @@ namespace macoro
 		// the coro that is awaiting the barrier
 		coroutine_handle<> m_continuation;
 
-		// the current count, once it decrements to 0, 
-		// m_continuation is called if set.
-		std::atomic<std::size_t> m_count;
+		// Twice the current count, plus one if m_continuation is set. Once the
+		// count decrements to 0, m_continuation is called if set. Whether there is
+		// someone to resume has to be decided by the operation that changes the
+		// count to 0: after that, the barrier may be destroyed or reused.
+		std::atomic<std::size_t> m_state;
+
+		static constexpr std::size_t waiting = 1;
 	public:
 
 		// construct a new barrier with the given initial value.
 		explicit barrier(std::size_t initial_count = 0) noexcept
-			: m_count(initial_count)
+			: m_state(initial_count * 2)
 		{}
 
 		// increament the count by amount and return the new count.
 		std::size_t add(size_t amount) noexcept
 		{
-			auto old = m_count.fetch_add(amount, std::memory_order_relaxed);
+			auto old = m_state.fetch_add(amount * 2, std::memory_order_relaxed) / 2;
 			auto ret = old + amount;
 			assert(ret >= old);
 			return ret;
@@ -93,17 +97,27 @@ namespace macoro
 		// returns the current count.
 		std::size_t count() const noexcept 
 		{
-			return m_count.load(std::memory_order_acquire);
+			return m_state.load(std::memory_order_acquire) / 2;
 		}
 
 		// decrease the count by 1. Returns the new count.
 		std::size_t decrement() noexcept
 		{
-			const std::size_t old_count = m_count.fetch_sub(1, std::memory_order_acq_rel);
+			std::size_t old = m_state.load(std::memory_order_relaxed);
+			std::size_t next;
+			do
+			{
+				assert(old / 2);
+				next = old - 2;
 
-			assert(old_count);
+				// we take the continuation if the count reached 0.
+				if (next == waiting)
+					next = 0;
+			} while (!m_state.compare_exchange_weak(old, next,
+				std::memory_order_acq_rel, std::memory_order_relaxed));
 
-			if (old_count == 1 && m_continuation)
+			const std::size_t old_count = old / 2;
+			if (old_count == 1 && (old & waiting))
 			{
 				std::exchange(m_continuation, nullptr).resume();
 			}
@@ -125,16 +139,29 @@ namespace macoro
 		coroutine_handle<Promise> continuation,
 		std::source_location loc) noexcept
 	{
-		coroutine_handle<> ret = continuation;
-		if (m_barrier.increment() > 1)
+		auto& state = m_barrier.m_state;
+		std::size_t old = state.load(std::memory_order_acquire);
+		if (old / 2)
 		{
-			set_parent(get_traceable(continuation), loc);
+			set_parent(detail::get_traceable(continuation), loc);
 			assert(m_barrier.m_continuation == nullptr);
-			m_barrier.m_continuation = std::exchange(ret, noop_coroutine());
+			m_barrier.m_continuation = continuation;
+			do
+			{
+				assert((old & barrier::waiting) == 0);
+
+				// once this succeeds, we can be resumed, and must not touch
+				// this object or the barrier.
+				if (state.compare_exchange_weak(old, old | barrier::waiting,
+					std::memory_order_acq_rel, std::memory_order_acquire))
+					return noop_coroutine();
+			} while (old / 2);
+
+			// the count reached zero before we were suspended.
+			m_barrier.m_continuation = nullptr;
 		}
-		m_barrier.decrement();
 
-		return ret;
+		return continuation;
 	}
 
 }
\ No newline at end of file
-- 
2.43.0


From 8f0b77d82d42de8f03858f290b10b2873c8cbd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:57 +0000
Subject: [PATCH 03/48] fix: async_scope join must collect exceptions when it
 completes, not when it starts

The awaiter took the scope's exceptions when it was created, so the exception
of a task that was still running at that point was not reported.
---
 macoro/async_scope.h    | 19 +++++++++++++++----
 macoro/when_all_scope.h |  2 +-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/macoro/async_scope.h b/macoro/async_scope.h
index ebb5732..44a8c86 100644
--- a/macoro/async_scope.h
+++ b/macoro/async_scope.h
@@ -189,7 +189,7 @@ namespace macoro
 		struct join_awaiter
 		{
 			barrier_awaiter m_barrier;
-			std::vector<std::exception_ptr> m_exceptions;
+			async_scope& m_scope;
 
 			bool await_ready() const noexcept { return m_barrier.await_ready(); }
 
@@ -212,8 +212,12 @@ namespace macoro
 			void await_resume()
 			{
 				m_barrier.await_resume();
-				if (m_exceptions.size())
-					throw async_scope_exception(std::move(m_exceptions));
+
+				// the exceptions have to be collected now, tasks can add 
+				// theirs up to the point where the barrier is released.
+				auto exceptions = m_scope.take_exceptions();
+				if (exceptions.size())
+					throw async_scope_exception(std::move(exceptions));
 			}
 		};
 
@@ -229,10 +233,17 @@ namespace macoro
 		// until all added awaitables have been completed.
 		join_awaiter MACORO_OPERATOR_COAWAIT() & noexcept
 		{
-			return { m_barrier.MACORO_OPERATOR_COAWAIT(), std::move(m_exceptions) };
+			return { m_barrier.MACORO_OPERATOR_COAWAIT(), *this };
 		}
 
 	private:
+		// returns the exceptions of the unjoined tasks, each is returned once.
+		std::vector<std::exception_ptr> take_exceptions()
+		{
+			std::lock_guard<std::mutex> lock(m_exception_mutex);
+			return std::exchange(m_exceptions, {});
+		}
+
 		// used to count how many active tasks exists. barrier
 		// then then be awaited to
 		traceable* m_parent = nullptr;
diff --git a/macoro/when_all_scope.h b/macoro/when_all_scope.h
index f36bb3d..0b8b4ee 100644
--- a/macoro/when_all_scope.h
+++ b/macoro/when_all_scope.h
@@ -151,7 +151,7 @@ namespace macoro
 
 			void await_resume()
 			{
-				m_join.await_resume();
+				m_join.m_barrier.await_resume();
 			}
 		};
 
-- 
2.43.0


From 51856beda9a956e7ddb1851193167f08e6e3ec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 04/48] fix: scoped_task must be suspended before its
 completion is published

The completion was published in the final awaiter's await_ready(), while the
coroutine was still running. The owner of the scoped_task, or the joiner of the
scope resumed from within, could destroy the frame under it.
---
 macoro/async_scope.h                | 24 ++++++++++-----------
 macoro/detail/scoped_task_promise.h | 33 +++++++++++------------------
 2 files changed, 23 insertions(+), 34 deletions(-)

diff --git a/macoro/async_scope.h b/macoro/async_scope.h
index 44a8c86..29f2bec 100644
--- a/macoro/async_scope.h
+++ b/macoro/async_scope.h
@@ -270,15 +270,18 @@ namespace macoro
 
 
 		template<typename T>
-		bool scoped_task_promise<T>::final_awaitable::await_ready() noexcept
+		coroutine_handle<> scoped_task_promise<T>::final_awaitable::complete(
+			coroutine_handle<scoped_task_promise> coro) noexcept
 		{
-			scoped_task_promise& promise = m_promise;
+			scoped_task_promise& promise = coro.promise();
 			async_scope* scope = promise.m_scope;
-			bool done = false;
+			coroutine_handle<> continuation = noop_coroutine();
 
 			// race to see if we need to call the completion handle
 			// it might not have been set yet (or ever).
 			// release our result. acquire their continuation (if they beat us).
+			// Once this is done, the coro can be destroyed by the owner of
+			// the scoped_task if it had not set the continuation.
 			completion_state b = promise.completion_state_fetch_or(
 				completion_state::has_completed,
 				std::memory_order_acq_rel);
@@ -296,8 +299,7 @@ namespace macoro
 				// the return value. 
 				if (promise.m_continuation)
 				{
-					m_run_continutation = true;
-					done = false;
+					continuation = promise.m_continuation;
 				}
 				else
 				{
@@ -306,14 +308,11 @@ namespace macoro
 						// todo, replace vector by a lock free linked list, either to the full
 						// coro frame (no allocations) or to the execptions (node allocations).
 						// for now, locking on expcetions should be fine.
-						std::lock_guard<std::mutex> lock(promise.m_scope->m_exception_mutex);
-						promise.m_scope->m_exceptions.push_back(std::move(promise.m_exception));
+						std::lock_guard<std::mutex> lock(scope->m_exception_mutex);
+						scope->m_exceptions.push_back(std::move(promise.m_exception));
 					}
 
-					// destroy the coro.
-					// this is the same as coro.destroy()
-					// but there is a msvc bug if you do that.
-					done = true;
+					coro.destroy();
 				}
 			}
 			else
@@ -326,12 +325,11 @@ namespace macoro
 				// If a continuation is never set, then the scoped_task
 				// will destroy the coro in its distructor. 
 				assert(b == completion_state::inprogress);
-				done = false;
 			}
 
 			// notify the scope that we are done.
 			scope->m_barrier.decrement();
-			return done;
+			return continuation;
 		}
 	}
 
diff --git a/macoro/detail/scoped_task_promise.h b/macoro/detail/scoped_task_promise.h
index 76e27cd..942aeb4 100644
--- a/macoro/detail/scoped_task_promise.h
+++ b/macoro/detail/scoped_task_promise.h
@@ -262,38 +262,29 @@ namespace macoro
 			// the status of the value/exception storage.
 			result_type m_result_type = result_type::empty;
 
-			// this final awaiter runs the suspend logic in await_ready
-			// due to a bug un msvc. Using symetric transfer and called
-			// destroy when done = true causes a segfault. This alternative
-			// implementation implicitly destroys the coro by returning
-			// true from await_ready.
+			// the coro has to be suspended before its completion is made 
+			// public, the owner of the scoped_task or the scope can destroy
+			// it from then on, possibly on another thread.
 			struct final_awaitable
 			{
-				scoped_task_promise& m_promise;
+				// publishes the completion and returns what to resume next. 
+				// This object may be destroyed by the time it returns. 
+				static coroutine_handle<> complete(coroutine_handle<scoped_task_promise> coro) noexcept;
 
-				// a variable used to remember if we need to call the continuation.
-				bool m_run_continutation = false;
-
-				bool await_ready() noexcept;
+				bool await_ready() const noexcept { return false; }
 
 #ifdef MACORO_CPP_20
 				std::coroutine_handle<> await_suspend(
-					std::coroutine_handle<scoped_task_promise> coro) noexcept
+					std::coroutine_handle<scoped_task_promise> coro) const noexcept
 				{
-					if (m_run_continutation)
-						return m_promise.m_continuation.std_cast();
-					else
-						return std::noop_coroutine();
+					return complete(coroutine_handle<scoped_task_promise>(coro)).std_cast();
 				}
 #endif
 
 				coroutine_handle<> await_suspend(
-					coroutine_handle<scoped_task_promise> coro) noexcept
+					coroutine_handle<scoped_task_promise> coro) const noexcept
 				{
-					if (m_run_continutation)
-						return m_promise.m_continuation;
-					else
-						return noop_coroutine();
+					return complete(coro);
 				}
 
 				void await_resume() noexcept {
@@ -311,7 +302,7 @@ namespace macoro
 			}
 
 			suspend_never initial_suspend() noexcept { return {}; }
-			final_awaitable final_suspend() noexcept { return { *this }; }
+			final_awaitable final_suspend() noexcept { return {}; }
 
 #ifdef MACORO_CPP_20
 			completion_state try_set_continuation(std::coroutine_handle<> continuation) noexcept
-- 
2.43.0


From 33dfb0c21351cc02ae1c0b167fea4fcd6ff43a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 05/48] fix: when_all_scope must destroy its coroutine frame

Nothing destroyed it: every co_await of a when_all_scope leaked the frame and
the parameters of the coroutine.
---
 macoro/when_all_scope.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/macoro/when_all_scope.h b/macoro/when_all_scope.h
index 0b8b4ee..10ab97c 100644
--- a/macoro/when_all_scope.h
+++ b/macoro/when_all_scope.h
@@ -132,6 +132,20 @@ namespace macoro
 			: m_handle(h)
 		{}
 
+		when_all_scope(when_all_scope&& other) noexcept
+			: m_handle(std::exchange(other.m_handle, nullptr))
+		{}
+
+		when_all_scope(const when_all_scope&) = delete;
+		when_all_scope& operator=(const when_all_scope&) = delete;
+
+		// destroys the coroutine frame.
+		~when_all_scope()
+		{
+			if (m_handle)
+				m_handle.destroy();
+		}
+
 		struct awaiter
 		{
 			coroutine_handle<promise_type> m_handle;
-- 
2.43.0


From a5b698cec96ca17c2e7d3a6a39d62ddedb7cdb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 06/48] fix: sequence_barrier's resume hand-shake must
 synchronise both ways

Whichever of await_suspend and resume comes second goes on to use (and
free) the awaiter, so each exchange needs acquire and release.
---
 macoro/sequence_barrier.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macoro/sequence_barrier.h b/macoro/sequence_barrier.h
index 9977680..0b4221d 100644
--- a/macoro/sequence_barrier.h
+++ b/macoro/sequence_barrier.h
@@ -167,7 +167,7 @@ namespace macoro
 		{
 			m_awaitingCoroutine = awaitingCoroutine;
 			m_barrier.add_awaiter(this);
-			return !m_readyToResume.exchange(true, std::memory_order_acquire);
+			return !m_readyToResume.exchange(true, std::memory_order_acq_rel);
 		}
 
 		SEQUENCE await_resume() noexcept
@@ -182,7 +182,7 @@ namespace macoro
 		void resume() noexcept
 		{
 			// This synchronises with the exchange(true, std::memory_order_acquire) in await_suspend().
-			if (m_readyToResume.exchange(true, std::memory_order_release))
+			if (m_readyToResume.exchange(true, std::memory_order_acq_rel))
 			{
 				m_awaitingCoroutine.resume();
 				//resume_impl();
-- 
2.43.0


From fa722b0589524977a40ac3abf9ce9ec69c1e7301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:45 +0000
Subject: [PATCH 07/48] fix: sequence_spsc claim_up_to must not overclaim when
 a narrow sequence wraps

lastAvailable - begin was computed in int for 8 and 16 bit sequences.
---
 macoro/sequence_spsc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/sequence_spsc.h b/macoro/sequence_spsc.h
index e282cf6..6f9c367 100644
--- a/macoro/sequence_spsc.h
+++ b/macoro/sequence_spsc.h
@@ -242,7 +242,7 @@ namespace macoro
 			const SEQUENCE lastAvailableSequence =
 				static_cast<SEQUENCE>(m_consumerWaitOperation.await_resume() + m_sequencer.m_bufferSize);
 			const SEQUENCE begin = m_sequencer.m_nextToClaim;
-			const std::size_t availableCount = static_cast<std::size_t>(lastAvailableSequence - begin) + 1;
+			const std::size_t availableCount = static_cast<std::size_t>(static_cast<SEQUENCE>(lastAvailableSequence - begin)) + 1;
 			const std::size_t countToClaim = std::min(m_count, availableCount);
 			const SEQUENCE end = static_cast<SEQUENCE>(begin + countToClaim);
 			m_sequencer.m_nextToClaim = end;
-- 
2.43.0


From 3dc3b96f5b3e6f064640429be6ce1ba8e92b09d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 08/48] fix: sequence_mpsc's resume hand-shake must synchronise
 both ways

As in sequence_barrier: whichever of await_suspend and resume comes
second goes on to use (and free) the awaiter.
---
 macoro/sequence_mpsc.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index 4833646..2719468 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -362,7 +362,7 @@ namespace macoro
 			// If it was already marked as ready-to-resume within the call to add_awaiter() or
 			// on another thread then this exchange() will return true. In this case we want to
 			// resume immediately and continue execution by returning false.
-			return !m_readyToResume.exchange(true, std::memory_order_acquire);
+			return !m_readyToResume.exchange(true, std::memory_order_acq_rel);
 		}
 
 		SEQUENCE await_resume() noexcept
@@ -377,7 +377,7 @@ namespace macoro
 		void resume(SEQUENCE lastKnownPublished) noexcept
 		{
 			m_lastKnownPublished = lastKnownPublished;
-			if (m_readyToResume.exchange(true, std::memory_order_release))
+			if (m_readyToResume.exchange(true, std::memory_order_acq_rel))
 			{
 				resume_impl();
 			}
-- 
2.43.0


From b6c6d312f8303f55fd0cb4e9e3d8d9c6b76bdf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 09/48] fix: sequence_mpsc any_available was false with exactly
 one slot free

---
 macoro/sequence_mpsc.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index 2719468..3a5eed7 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -453,9 +453,10 @@ namespace macoro
 	template<typename SEQUENCE, typename TRAITS>
 	bool sequence_mpsc<SEQUENCE, TRAITS>::any_available() const noexcept
 	{
-		return TRAITS::precedes(
-			m_nextToClaim.load(std::memory_order_relaxed),
-			m_consumerBarrier.last_published() + buffer_size());
+		// The slot of m_nextToClaim is free unless it lies beyond last_published + buffer_size.
+		return !TRAITS::precedes(
+			static_cast<SEQUENCE>(m_consumerBarrier.last_published() + buffer_size()),
+			m_nextToClaim.load(std::memory_order_relaxed));
 	}
 
 	template<typename SEQUENCE, typename TRAITS>
-- 
2.43.0


From 38ae264f1b793ab352d09efc06d44cdf52e37a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:05 +0000
Subject: [PATCH 10/48] fix: sequence_mpsc add_awaiter resumed waiters whose
 sequence was not published

When one of the awaiters it re-acquired was satisfied, all of them were
resumed: the test used the earliest target instead of each awaiter's own.
---
 macoro/sequence_mpsc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index 3a5eed7..8130d88 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -687,7 +687,7 @@ namespace macoro
 
 				while (awaiters != nullptr)
 				{
-					diff_t diff = TRAITS::difference(targetSequence, lastKnownPublished);
+					diff_t diff = TRAITS::difference(awaiters->m_targetSequence, lastKnownPublished);
 					if (diff > 0)
 					{
 						// Not yet ready.
-- 
2.43.0


From 90185c12fbe5106cc8894b7b6cac9639e82fd20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:05 +0000
Subject: [PATCH 11/48] fix: sequence_mpsc lost a waiter where a narrow
 sequence wraps

lastKnownPublished + 1 is an int for 8 and 16 bit sequences and never
equals the published sequence 0 after the wrap-around.
---
 macoro/sequence_mpsc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index 8130d88..533c4ef 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -670,7 +670,7 @@ namespace macoro
 			//
 			// TODO: Check whether we can weaken the memory order here to just use 'seq_cst' on the
 			// first .load() and then use 'acquire' on subsequent .load().
-			while (m_published[(lastKnownPublished + 1) & sequenceMask].load(std::memory_order_seq_cst) == (lastKnownPublished + 1))
+			while (m_published[(lastKnownPublished + 1) & sequenceMask].load(std::memory_order_seq_cst) == static_cast<SEQUENCE>(lastKnownPublished + 1))
 			{
 				++lastKnownPublished;
 			}
-- 
2.43.0


From 742da193ce0a104fbd7027ef81ebadfeaff98737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 12/48] fix: popping a closed channel must throw
 channel_closed_exception

pop() returned a wrapper around a default constructed element.
---
 macoro/channel.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/macoro/channel.h b/macoro/channel.h
index 598efa3..cd6d6d7 100644
--- a/macoro/channel.h
+++ b/macoro/channel.h
@@ -324,6 +324,8 @@ namespace macoro
                 pop_wrapper await_resume() {
                     this->mChl->mLastKnown = this->mInner.await_resume();
                     assert(this->mChl->mLastKnown >= this->mChl->mFrontIndex);
+                    if (!this->mChl->mData[this->mChl->mFrontIndex & this->mChl->mIndexMask])
+                        throw channel_closed_exception{};
                     return pop_wrapper(this->mChl, this->mChl->mFrontIndex);
                 }
             };
-- 
2.43.0


From 560c596337595fdb997d58e96c0086a034877f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 13/48] fix: check a channel's capacity before the sequencer is
 built from it

An mpsc channel of a capacity that is not a power of two failed an
assertion, or wrote out of bounds, instead of throwing.
---
 macoro/channel.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/macoro/channel.h b/macoro/channel.h
index cd6d6d7..4b58be6 100644
--- a/macoro/channel.h
+++ b/macoro/channel.h
@@ -29,6 +29,15 @@ namespace macoro
         static constexpr bool multi_sender = SEQUENCE_TYPE::multi_sender;
     private:
         using value_type = T;
+
+        static std::size_t checked_capacity(std::size_t capacity)
+        {
+            auto powOf2 = (capacity > 0 && (capacity & (capacity - 1)) == 0);
+            if (!powOf2)
+                throw std::runtime_error("capacity must be a power of 2");
+            return capacity;
+        }
+
         sequence_barrier<> mBarrier;
         SEQUENCE_TYPE mSequence;
 
@@ -155,12 +164,9 @@ namespace macoro
         // Initialize the channel with an internal max storage of capacity.
         // capacity must be a power of two.
         channel(std::size_t capacity)
-            : mSequence(mBarrier, capacity)
+            : mSequence(mBarrier, checked_capacity(capacity))
             , mData(capacity)
         {
-            auto powOf2 = (capacity > 0 && (capacity & (capacity - 1)) == 0);
-            if (!powOf2)
-                throw std::runtime_error("capacity must be a power of 2");
             mIndexMask = capacity - 1;
         }
 
-- 
2.43.0


From 104e5613c508b9d4f274d6e8838396312f7f54e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:27 +0000
Subject: [PATCH 14/48] fix: thread_pool must not touch its state after
 releasing the lock in post, dispatch and work::reset

The notification came after the unlock, when the posted coroutine may
already have run and the pool have been joined and destroyed.
---
 macoro/thread_pool.h | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 8bf9478..2d8dda0 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -76,10 +76,10 @@ namespace macoro
             {
                 //log("post");
                 assert(fn);
-                {
-                    std::lock_guard<std::mutex> lock(mMutex);
-                    mDeque.push_back(std::move(fn));
-                }
+                // notify under the lock: once it is released fn may run and
+                // the pool may be destroyed.
+                std::lock_guard<std::mutex> lock(mMutex);
+                mDeque.push_back(std::move(fn));
                 mCondition.notify_one();
             }
 
@@ -91,11 +91,8 @@ namespace macoro
                     return true;
                 else
                 {
-                    {
-                        std::lock_guard<std::mutex> lock(mMutex);
-                        mDeque.push_back(std::move(fn));
-                    }
-
+                    std::lock_guard<std::mutex> lock(mMutex);
+                    mDeque.push_back(std::move(fn));
                     mCondition.notify_one();
                     return false;
                 }
@@ -243,14 +240,14 @@ namespace macoro
                 if (mEx)
                 {
 
-                    std::size_t v = 0;
                     {
+                        // notify under the lock: once it is released the
+                        // pool may be joined and destroyed.
                         std::lock_guard<std::mutex> lock(mEx->mMutex);
-                        v = --mEx->mWork;
-                    }
-                    if (v == 0)
-                    {
-                        mEx->mCondition.notify_all();
+                        if (--mEx->mWork == 0)
+                        {
+                            mEx->mCondition.notify_all();
+                        }
                     }
                     mEx = nullptr;
                 }
-- 
2.43.0


From 87d5caffa43e04bb0ea9770023c70d583ce3096e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:27 +0000
Subject: [PATCH 15/48] fix: moving a thread_pool left its threads with a
 dangling reference

The threads captured the thread_pool object; they now refer to its state.
Assigning to a pool joins the threads it had.
---
 macoro/thread_pool.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 2d8dda0..f78c0c9 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -263,7 +263,15 @@ namespace macoro
             :mState(new detail::thread_pool_state)
         {}
         thread_pool(thread_pool&&) = default;
-        thread_pool& operator=(thread_pool&&) = default;
+        thread_pool& operator=(thread_pool&& o)
+        {
+            if (this != &o)
+            {
+                join();
+                mState = std::move(o.mState);
+            }
+            return *this;
+        }
 
         thread_pool(std::size_t number_of_threads, work& w)
             : mState(new detail::thread_pool_state)
@@ -333,7 +341,7 @@ namespace macoro
                 mState->mThreads.reserve(mState->mThreads.size() + n);
                 for (std::size_t i = 0; i < n; ++i)
                 {
-                    mState->mThreads.emplace_back([this] {run(); });
+                    mState->mThreads.emplace_back([state = mState.get()] {run(state); });
                 }
             }
         }
@@ -374,7 +382,14 @@ namespace macoro
 
         void run()
         {
-            auto state = mState.get();
+            run(mState.get());
+        }
+
+    private:
+
+        // the threads refer to the state and not to the thread_pool, which may be moved.
+        static void run(detail::thread_pool_state* state)
+        {
             //state->log("run");
 
             if (detail::thread_pool_state::mCurrentExecutor != nullptr)
-- 
2.43.0


From c2f501f9fdc906ff4e445902c538390d50040437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:25 +0000
Subject: [PATCH 16/48] fix: schedule_after must register its stop callback
 before the operation is queued

The operation was queued first: a pool thread could resume the coroutine,
which frees the callback, while it was still being registered.
---
 macoro/thread_pool.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index f78c0c9..c9dd89f 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -111,16 +111,23 @@ namespace macoro
                     {
                         std::unique_lock<std::mutex> lock(mMutex);
                         idx = mDelayOpIdx++;
-                        mDelayHeap.emplace_back(idx, h, deadline);
-                        std::push_heap(mDelayHeap.begin(), mDelayHeap.end());
                     }
 
+                    // once the operation is queued another thread may resume h
+                    // and destroy reg and token, so register the callback first.
                     if (token.stop_possible())
                     {
-                        reg.emplace(std::move(token), [idx, this] {
+                        reg.emplace(token, [idx, this] {
                             cancel_delay_op(idx);
                             });
                     }
+
+                    std::unique_lock<std::mutex> lock(mMutex);
+                    // the callback may have been called before there was an operation to cancel.
+                    if (token.stop_requested())
+                        deadline = thread_pool_clock::now();
+                    mDelayHeap.emplace_back(idx, h, deadline);
+                    std::push_heap(mDelayHeap.begin(), mDelayHeap.end());
                     mCondition.notify_one();
                 }
                 else
-- 
2.43.0


From 185aa0fe9fffa29c29fef37277bd3fd342da00ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:50 +0000
Subject: [PATCH 17/48] fix: cancelling a delayed operation must wake every
 thread waiting for its deadline

Only one thread was woken; the others slept on until the original
deadline, which kept an otherwise finished pool from being joined.
---
 macoro/thread_pool.h | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index c9dd89f..b432414 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -140,22 +140,19 @@ namespace macoro
             void cancel_delay_op(std::size_t idx)
             {
                 //log("cancel_delay_op");
-                bool notify = false;
+                std::unique_lock<std::mutex> lock(mMutex);
+                for (std::size_t i = 0; i < mDelayHeap.size(); ++i)
                 {
-                    std::unique_lock<std::mutex> lock(mMutex);
-                    for (std::size_t i = 0; i < mDelayHeap.size(); ++i)
+                    if (mDelayHeap[i].idx == idx)
                     {
-                        if (mDelayHeap[i].idx == idx)
-                        {
-                            mDelayHeap[i].deadline = thread_pool_clock::now();
-                            std::make_heap(mDelayHeap.begin(), mDelayHeap.end());
-                            notify = true;
-                            break;
-                        }
+                        mDelayHeap[i].deadline = thread_pool_clock::now();
+                        std::make_heap(mDelayHeap.begin(), mDelayHeap.end());
+                        // every thread that waits for the old deadline must
+                        // look again; it may have nothing left to wait for.
+                        mCondition.notify_all();
+                        break;
                     }
                 }
-                if (notify)
-                    mCondition.notify_one();
             }
 
         };
-- 
2.43.0


From f7c5533d5610404828f4bdc8e8fe2349c8c1b717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:22 +0000
Subject: [PATCH 18/48] fix: thread_pool::run must not wait on a reference into
 the delay heap

---
 macoro/thread_pool.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index b432414..cd78120 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -417,7 +417,9 @@ namespace macoro
 
                         if (state->mDelayHeap.size())
                         {
-                            state->mCondition.wait_until(lock, state->mDelayHeap.front().deadline);
+                            // a copy: the heap may change while waiting.
+                            auto deadline = state->mDelayHeap.front().deadline;
+                            state->mCondition.wait_until(lock, deadline);
                         }
                         else
                         {
-- 
2.43.0


From b864fb4c70da4f0bb8b51759916e221d9b3d71ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:45 +0000
Subject: [PATCH 19/48] fix: removing a stop_callback must wait for that
 callback only

---
 macoro/detail/stop_callback.h |  4 ++++
 macoro/detail/stop_state.cpp  | 17 ++++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/macoro/detail/stop_callback.h b/macoro/detail/stop_callback.h
index 460fbc5..0dbcd90 100644
--- a/macoro/detail/stop_callback.h
+++ b/macoro/detail/stop_callback.h
@@ -116,6 +116,10 @@ namespace macoro
 		Callback m_callback;
 		detail::stop_callback_list_chunk* m_chunk;
 		std::uint32_t m_entryIndex;
+
+		// set while the callback runs, by the thread that runs it.
+		bool* m_destroyed = nullptr;
+		std::atomic<bool> m_callbackDone{ false };
 	};
 }
 
diff --git a/macoro/detail/stop_state.cpp b/macoro/detail/stop_state.cpp
index 2bb786a..9a280b0 100644
--- a/macoro/detail/stop_state.cpp
+++ b/macoro/detail/stop_state.cpp
@@ -468,6 +468,9 @@ void macoro::detail::stop_state::request_stop()
 						registration = entry.exchange(nullptr, std::memory_order_seq_cst);
 						if (registration != nullptr)
 						{
+							// The callback may destroy its own registration.
+							bool destroyed = false;
+							registration->m_destroyed = &destroyed;
 							try
 							{
 								registration->m_callback();
@@ -477,6 +480,13 @@ void macoro::detail::stop_state::request_stop()
 								// TODO: What should behaviour of unhandled exception in a callback be here?
 								std::terminate();
 							}
+
+							if (!destroyed)
+							{
+								// After this another thread may destroy the registration.
+								registration->m_destroyed = nullptr;
+								registration->m_callbackDone.store(true, std::memory_order_release);
+							}
 						}
 					}
 				}
@@ -608,12 +618,17 @@ void macoro::detail::stop_state::deregister_callback(stop_callback* registration
 		auto* registrationState = m_registrationState.load(std::memory_order_relaxed);
 		if (std::this_thread::get_id() != registrationState->m_notificationThreadId)
 		{
+			// Wait for this callback only: the others may wait for this thread.
 			// TODO: More efficient busy-wait backoff strategy
-			while (!is_cancellation_notification_complete())
+			while (!registration->m_callbackDone.load(std::memory_order_acquire))
 			{
 				std::this_thread::yield();
 			}
 		}
+		else if (registration->m_destroyed != nullptr)
+		{
+			*registration->m_destroyed = true;
+		}
 	}
 }
 
-- 
2.43.0


From a9f511721edd1c3b24e973bdd9415b1422e663c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:11 +0000
Subject: [PATCH 20/48] fix: stop_awaiter resumed the coroutine while its
 callback was still being registered

---
 macoro/stop.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/macoro/stop.h b/macoro/stop.h
index e603d6e..99ab6ab 100644
--- a/macoro/stop.h
+++ b/macoro/stop.h
@@ -1,6 +1,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <functional>
 #include <optional>
 #include "macoro/coroutine_handle.h"
@@ -34,6 +35,9 @@ namespace macoro
 		stop_awaiter(stop_awaiter&&) = delete;
 
 		stop_token mtoken;
+		// the callback may be called while it is still being registered.
+		// Whoever comes second, it or await_suspend, resumes the coroutine.
+		std::atomic<bool> mFirst{ false };
 		optional_stop_callback mReg;
 		bool await_ready() { return false; }
 
@@ -45,11 +49,13 @@ namespace macoro
 		{
 			if (mtoken.stop_possible() && !mtoken.stop_requested())
 			{
-				mReg.emplace(mtoken, [h] {
-					h.resume();
+				mReg.emplace(mtoken, [h, this] {
+					if (mFirst.exchange(true, std::memory_order_acq_rel))
+						h.resume();
 					});
 
-				return noop_coroutine();
+				if (!mFirst.exchange(true, std::memory_order_acq_rel))
+					return noop_coroutine();
 			}
 			return h;
 		}
-- 
2.43.0


From 0fb4c69d620b56a09e1125d0f7d2ce50bf778db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:10 +0000
Subject: [PATCH 21/48] fix: take_until must deliver references and move-only
 values

---
 macoro/take_until.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/macoro/take_until.h b/macoro/take_until.h
index 2ff14eb..9cc4fc6 100644
--- a/macoro/take_until.h
+++ b/macoro/take_until.h
@@ -21,13 +21,21 @@ namespace macoro
 	task<remove_rvalue_reference_t<awaitable_result_t<AWAITABLE>>> take_until(AWAITABLE awaitable, UNTIL until)
 	{
 		using return_type = awaitable_result_t<AWAITABLE>;
-		constexpr bool is_void = std::is_void<awaitable_result_t<AWAITABLE>>::value;
-		using storage = std::conditional_t< is_void, int, std::optional<return_type>>;
+		constexpr bool is_void = std::is_void<return_type>::value;
+		constexpr bool is_ref = std::is_lvalue_reference<return_type>::value;
+		// an lvalue reference is kept as a pointer.
+		using storage = std::conditional_t<is_void, int, std::optional<
+			std::conditional_t<is_ref, std::add_pointer_t<return_type>, remove_rvalue_reference_t<return_type>>>>;
 		storage v;
 		std::exception_ptr ex;
 		try {
 			if constexpr (is_void)
 				co_await std::move(awaitable);
+			else if constexpr (is_ref)
+			{
+				return_type r = co_await(std::move(awaitable));
+				v.emplace(std::addressof(r));
+			}
 			else
 				v.emplace(co_await(std::move(awaitable)));
 		}
@@ -47,7 +55,9 @@ namespace macoro
 		if (ex)
 			std::rethrow_exception(ex);
 
-		if constexpr (is_void == false)
-			co_return static_cast<awaitable_result_t<AWAITABLE>>(v.value());
+		if constexpr (is_ref)
+			co_return *v.value();
+		else if constexpr (is_void == false)
+			co_return std::move(v.value());
 	}
 }
-- 
2.43.0


From 3bf7181df956f008dffce3f97bf51c15d949c099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:43 +0000
Subject: [PATCH 22/48] fix: a timeout's stop callback may be destroyed while
 it requests stop

---
 macoro/timeout.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/macoro/timeout.h b/macoro/timeout.h
index c94c11b..8b09b9c 100644
--- a/macoro/timeout.h
+++ b/macoro/timeout.h
@@ -52,7 +52,9 @@ namespace macoro
 			if (token.stop_possible())
 			{
 				mReg.reset(new stop_callback(token, [src = mSrc.value()]() mutable {
-					src.request_stop();
+					// a copy: whoever is resumed may destroy this timeout, its callback and src.
+					auto s = src;
+					s.request_stop();
 				}));
 			}
 
-- 
2.43.0


From 387ae1db0c09d8f052defaad40ae41c467e8c7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:31 +0000
Subject: [PATCH 23/48] fix: MC_ coroutines must await awaiters whose
 await_suspend takes only a std handle

The noexcept specifications of macoro::await_suspend named a call with the
macoro handle, which does not compile for a void or bool await_suspend that
accepts only std::coroutine_handle.
---
 macoro/coro_frame.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 26a1772..bebe4db 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -93,6 +93,20 @@ namespace macoro
 	}
 #endif
 
+	template<typename Awaiter, typename T>
+	constexpr bool noexcept_await_suspend()
+	{
+
+		if constexpr (requires(Awaiter a, coroutine_handle<T> h) { a.await_suspend(h); })
+		{
+			return noexcept(std::declval<Awaiter>().await_suspend(coroutine_handle<T>{}));
+		}
+		else
+		{
+			return noexcept(std::declval<Awaiter>().await_suspend(std::coroutine_handle<void>{}));
+		}
+	}
+
 	template<typename Awaiter, typename T>
 	await_suspend_t<bool> await_suspend(Awaiter& a, coroutine_handle<T> h,
 		enable_if_t<
@@ -101,7 +115,7 @@ namespace macoro
 		||
 		has_void_await_suspend<Awaiter, std::coroutine_handle<void>>::value
 #endif
-		, empty_state> = {}) noexcept(noexcept(a.await_suspend(h)))
+		, empty_state> = {}) noexcept(noexcept_await_suspend<Awaiter, T>())
 	{
 		auto h2 = implicit_cast<has_void_await_suspend<Awaiter, coroutine_handle<T>>::value, T>(h);
 		a.await_suspend(h2);
@@ -116,7 +130,7 @@ namespace macoro
 		||
 		has_bool_await_suspend<Awaiter, std::coroutine_handle<void>>::value
 #endif
-		, empty_state> = {}) noexcept(noexcept(await_suspend_t<bool>{ a.await_suspend(h) }))
+		, empty_state> = {}) noexcept(noexcept_await_suspend<Awaiter, T>())
 	{
 
 		auto h2 = implicit_cast<has_bool_await_suspend<Awaiter, coroutine_handle<T>>::value, T>(h);
@@ -124,20 +138,6 @@ namespace macoro
 	}
 
 
-	template<typename Awaiter, typename T>
-	constexpr bool noexcept_await_suspend()
-	{
-
-		if constexpr (requires(Awaiter a, coroutine_handle<T> h) { a.await_suspend(h); })
-		{
-			return noexcept(std::declval<Awaiter>().await_suspend(coroutine_handle<T>{}));
-		}
-		else
-		{
-			return noexcept(std::declval<Awaiter>().await_suspend(std::coroutine_handle<void>{}));
-		}
-	}
-
 	template<typename Awaiter, typename T>
 	auto await_suspend(Awaiter& a, coroutine_handle<T> h,
 		enable_if_t<
-- 
2.43.0


From 33090738e2b71426dc50dce384425a28e47fdcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:44 +0000
Subject: [PATCH 24/48] fix: MC_ coroutines applied await_transform to
 initial_suspend, final_suspend and yield_value

As in a C++20 coroutine, await_transform is for co_await expressions only.
---
 macoro/macros.h      | 48 ++++++++++++++++++++++++--------------------
 macoro/type_traits.h |  3 +++
 2 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/macoro/macros.h b/macoro/macros.h
index 9f5ee5e..5aed9d3 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -26,9 +26,13 @@
 // the value returned from the function.
 // 
 // Then we have the awaiter, we call await_ready and await_suspend.
-#define IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX)																	\
+// 
+// TRANSFORM is the object whose await_transform, if any, is applied to the
+// expression: the promise, or no_await_transform for the initial, final and
+// yield awaits.
+#define IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX, TRANSFORM)																	\
 	using _macoro_promise_type = decltype(_macoro_frame_->promise);														\
-	using MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX) = ::macoro::AwaitContext<_macoro_promise_type, SUSPEND_IDX,		\
+	using MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX) = ::macoro::AwaitContext<std::remove_reference_t<decltype(TRANSFORM)>, SUSPEND_IDX,		\
 		::macoro::store_as_t<decltype(::macoro::as_reference(EXPRESSION)), decltype(EXPRESSION)>>;						\
 	using _macoro_Handle = ::macoro::coroutine_handle<_macoro_promise_type>;											\
 	{																													\
@@ -36,7 +40,7 @@
 		auto _macoro_handle = _macoro_Handle::from_promise(_macoro_promise, ::macoro::coroutine_handle_type::macoro);	\
 		auto& _macoro_ctx = _macoro_frame_->template makeAwaitContext<MACORO_CAT(_macoro_AwaitContext, SUSPEND_IDX)>();	\
 		_macoro_ctx.expr.ptr      = new (_macoro_ctx.expr.v())      typename decltype(_macoro_ctx.expr)::Constructor(EXPRESSION);															\
-		_macoro_ctx.awaitable.ptr = new (_macoro_ctx.awaitable.v()) typename decltype(_macoro_ctx.awaitable)::Constructor(macoro::get_awaitable(_macoro_promise, _macoro_ctx.expr.get()));	\
+		_macoro_ctx.awaitable.ptr = new (_macoro_ctx.awaitable.v()) typename decltype(_macoro_ctx.awaitable)::Constructor(macoro::get_awaitable(TRANSFORM, _macoro_ctx.expr.get()));	\
 		_macoro_ctx.awaiter.ptr   = new (_macoro_ctx.awaiter.v())   typename decltype(_macoro_ctx.awaiter)::Constructor(macoro::get_awaiter(_macoro_ctx.awaitable.get()));					\
 		auto& _macoro_awaiter = _macoro_ctx.awaiter.getRef();													\
 		*_macoro_ctx.awaiter_ptr = (void*)&_macoro_awaiter;														\
@@ -56,15 +60,15 @@
 // This macro expands out to generated the await_ready and await_suspend calls.
 // It defines a suspension point but does not call await_resume. This should be
 // used with other macros which perform the await_resume call.
-#define IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)	IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX)				\
+#define IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX, TRANSFORM)	IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX, TRANSFORM)				\
 			MACORO_FALLTHROUGH; case (std::size_t)::macoro::SuspensionPoint(SUSPEND_IDX):		
 
 // a helper macro that defines a basic co_await expression. 
 // RETURN_SLOT can be used to set a variable to the result of the co_await expression.
 // SUSPEND_IDX should be a unique integer literal. Typically obtained using __COUNTER__.
-#define IMPL_MC_AWAIT(EXPRESSION, RETURN_SLOT, SUSPEND_IDX)														\
+#define IMPL_MC_AWAIT(EXPRESSION, RETURN_SLOT, SUSPEND_IDX, TRANSFORM)														\
 				do {																							\
-					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)													\
+					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX, TRANSFORM)													\
 					/*<resume-point>*/																			\
 					RETURN_SLOT _macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume();		\
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>();		\
@@ -75,7 +79,7 @@
 // SUSPEND_IDX should be a unique integer literal. Typically obtained using __COUNTER__.
 #define IMPL_MC_AWAIT_TRY(EXPRESSION, RETURN_SLOT, SUSPEND_IDX)													\
 				do{																								\
-					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)													\
+					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX, _macoro_frame_->promise)													\
 					/*<resume-point>*/																			\
 					::macoro::detail::try_resume(RETURN_SLOT, 													\
 						_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>());	\
@@ -85,9 +89,9 @@
 // A helper macro that implements the MC_YIELD_AWAIT. We first perform a normal co_await
 // and then we call another co_await on the result of promise.yield_value(awaiter.await_resume()).
 #define IMPL_MC_YIELD_AWAIT(EXPRESSION, SUSPEND_IDX)															\
-				do {	IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)												\
+				do {	IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX, _macoro_frame_->promise)												\
 					/*<resume-point>*/																			\
-					IMPL_MC_AWAIT(_macoro_frame_->promise.yield_value(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume()), ,__COUNTER__);\
+					IMPL_MC_AWAIT(_macoro_frame_->promise.yield_value(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume()), ,__COUNTER__, ::macoro::no_await_transform::value);\
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>();		\
 				} while(0)
 
@@ -95,18 +99,18 @@
 // A helper macro that implements the MC_AWAIT_AWAIT. We first perform a normal co_await
 // and then we call another co_await on the result of awaiter.await_resume().
 #define IMPL_MC_AWAIT_AWAIT(EXPRESSION, SUSPEND_IDX)															\
-				do{	IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)													\
+				do{	IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX, _macoro_frame_->promise)													\
 					/*<resume-point>*/																			\
-					IMPL_MC_AWAIT(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume(), ,__COUNTER__);\
+					IMPL_MC_AWAIT(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume(), ,__COUNTER__, _macoro_frame_->promise);\
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>();		\
 				} while(0)
 
 
 // A helper macro that implements the MC_AWAIT_FN. We first perform a normal co_await
 // and then we call the function with the await_resume result as the parameter.
-#define IMPL_MC_AWAIT_FN(FN_SLOT, EXPRESSION, OPTIONAL_GOTO, SUSPEND_IDX)										\
+#define IMPL_MC_AWAIT_FN(FN_SLOT, EXPRESSION, OPTIONAL_GOTO, SUSPEND_IDX, TRANSFORM)										\
 				do{																								\
-					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)													\
+					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX, TRANSFORM)													\
 					/*<resume-point>*/																			\
 					FN_SLOT(_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>().await_resume());							\
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>();		\
@@ -125,7 +129,7 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 			{																									\
 			case (std::size_t)::macoro::SuspensionPoint::InitialSuspendBegin:												\
 				do {																								\
-					IMPL_MC_AWAIT_CORE(_macoro_frame_->promise.initial_suspend(), MACORO_INITIAL_SUSPEND_IDX)	\
+					IMPL_MC_AWAIT_CORE(_macoro_frame_->promise.initial_suspend(), MACORO_INITIAL_SUSPEND_IDX, ::macoro::no_await_transform::value)	\
 					_macoro_frame_->_initial_suspend_await_resumed_called_ = true;								\
 					_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,MACORO_INITIAL_SUSPEND_IDX)>().await_resume();			\
 					_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext,MACORO_INITIAL_SUSPEND_IDX)>();						\
@@ -144,7 +148,7 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 
 // Calls the given function on the result of the co_await expression. This is equivalent to
 // `f(co_await EXPRESSION)` where f is the function name provided.
-#define MC_AWAIT_FN(FN_SLOT, EXPRESSION)	IMPL_MC_AWAIT_FN(FN_SLOT,EXPRESSION, , __COUNTER__)					
+#define MC_AWAIT_FN(FN_SLOT, EXPRESSION)	IMPL_MC_AWAIT_FN(FN_SLOT,EXPRESSION, , __COUNTER__, _macoro_frame_->promise)					
 
 // Returns void. Equivalent to `co_return;`
 #define MC_RETURN_VOID()																						\
@@ -159,12 +163,12 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 
 // perform a basic co_await expression. This is equivalent to
 // `co_await EXPRESSION`
-#define MC_AWAIT(EXPRESSION)				IMPL_MC_AWAIT(EXPRESSION, , __COUNTER__)
+#define MC_AWAIT(EXPRESSION)				IMPL_MC_AWAIT(EXPRESSION, , __COUNTER__, _macoro_frame_->promise)
 
 
 // perform a basic co_await expression and set VARIABLE to the result. This is equivalent to
 // `VARIABLE = co_await EXPRESSION`
-#define MC_AWAIT_SET(VARIABLE, EXPRESSION)	IMPL_MC_AWAIT(EXPRESSION, VARIABLE = , __COUNTER__)
+#define MC_AWAIT_SET(VARIABLE, EXPRESSION)	IMPL_MC_AWAIT(EXPRESSION, VARIABLE = , __COUNTER__, _macoro_frame_->promise)
 
 
 // perform a basic co_await expression and set VARIABLE to the Ok(result) or Err(std::current_exception()). This is equivalent to
@@ -174,21 +178,21 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 
 // perform a basic co_await expression and return to the result. This is equivalent to
 // `co_return co_await EXPRESSION`
-#define MC_RETURN_AWAIT(EXPRESSION)			IMPL_MC_AWAIT_FN(_macoro_frame_->promise.return_value, EXPRESSION, goto MACORO_FINAL_SUSPEND_BEGIN;,__COUNTER__)
+#define MC_RETURN_AWAIT(EXPRESSION)			IMPL_MC_AWAIT_FN(_macoro_frame_->promise.return_value, EXPRESSION, goto MACORO_FINAL_SUSPEND_BEGIN;,__COUNTER__, _macoro_frame_->promise)
 
 
 // perform a basic co_yeild expression. This is equivalent to
 // `co_yeild EXPRESSION`
-#define MC_YIELD(EXPRESSION)				MC_AWAIT(_macoro_frame_->promise.yield_value(EXPRESSION));
+#define MC_YIELD(EXPRESSION)				IMPL_MC_AWAIT(_macoro_frame_->promise.yield_value(EXPRESSION), , __COUNTER__, ::macoro::no_await_transform::value);
 
 
 // perform a basic co_yeild expression and set VARIABLE to the result. This is equivalent to
 // `VARIABLE = co_yeild EXPRESSION`
-#define MC_YIELD_SET(VARIABLE, EXPRESSION)	MC_AWAIT_SET(VARIABLE , _macoro_frame_->promise.yield_value(EXPRESSION));
+#define MC_YIELD_SET(VARIABLE, EXPRESSION)	IMPL_MC_AWAIT(_macoro_frame_->promise.yield_value(EXPRESSION), VARIABLE = , __COUNTER__, ::macoro::no_await_transform::value);
 
 // perform a basic co_yeild expression and return to the result. This is equivalent to
 // `co_return co_yeild EXPRESSION`
-#define MC_RETURN_YIELD(EXPRESSION)			MC_RETURN_AWAIT(_macoro_frame_->promise.yield_value(EXPRESSION));
+#define MC_RETURN_YIELD(EXPRESSION)			IMPL_MC_AWAIT_FN(_macoro_frame_->promise.return_value, _macoro_frame_->promise.yield_value(EXPRESSION), goto MACORO_FINAL_SUSPEND_BEGIN;,__COUNTER__, ::macoro::no_await_transform::value);
 
 #define MC_UNHANDLED_EXCEPTION _macoro_frame_->promise.unhandled_exception()
 
@@ -213,7 +217,7 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 goto MACORO_FINAL_SUSPEND_BEGIN; /*prevents unused warning*/													\
 MACORO_FINAL_SUSPEND_BEGIN:																						\
 		_macoro_frame_->final_suspend();																		\
-		IMPL_MC_AWAIT_CORE_NS(_macoro_frame_->promise.final_suspend(), MACORO_FINAL_SUSPEND_IDX)				\
+		IMPL_MC_AWAIT_CORE_NS(_macoro_frame_->promise.final_suspend(), MACORO_FINAL_SUSPEND_IDX, ::macoro::no_await_transform::value)				\
 MACORO_FINAL_SUSPEND_RESUME:																					\
 		_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext, MACORO_FINAL_SUSPEND_IDX)>().await_resume();	\
 		_macoro_frame_->template destroyAwaiter<MACORO_CAT(_macoro_AwaitContext, MACORO_FINAL_SUSPEND_IDX)>();	\
diff --git a/macoro/type_traits.h b/macoro/type_traits.h
index 0e2258a..4d51192 100644
--- a/macoro/type_traits.h
+++ b/macoro/type_traits.h
@@ -139,6 +139,9 @@ namespace macoro
 
 	struct empty_state {};
 
+	// used in place of the promise for awaits that have no await_transform.
+	struct no_await_transform { static inline const empty_state value = {}; };
+
 	template<typename P, typename T>
 	inline decltype(auto) get_awaitable(
 		P& promise, T&& expr, enable_if_t<has_await_transform_member<P,T&&>::value, empty_state> m = {})
-- 
2.43.0


From 77956e4fa756c68fe1b441dc55110bad6f1cb4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:32 +0000
Subject: [PATCH 25/48] fix: MC_AWAIT_TRY must catch what the whole co_await
 expression throws

As documented, an exception of the expression, operator co_await, await_ready
or await_suspend becomes Err, not only one of await_resume.
---
 macoro/coro_frame.h | 11 +++++++----
 macoro/macros.h     | 20 +++++++++++++++++---
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index bebe4db..4fef50a 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -364,10 +364,13 @@ namespace macoro
 		void destroyAwaiters()
 		{
 			while (awaiters.size())
-			{
-				awaiters.back()._awaiter_deleter(awaiters.back()._ctx_ptr);
-				awaiters.pop_back();
-			}
+				destroyLastAwaiter();
+		}
+
+		void destroyLastAwaiter()
+		{
+			awaiters.back()._awaiter_deleter(awaiters.back()._ctx_ptr);
+			awaiters.pop_back();
 		}
 
 
diff --git a/macoro/macros.h b/macoro/macros.h
index 5aed9d3..33d1b3d 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -30,11 +30,15 @@
 // TRANSFORM is the object whose await_transform, if any, is applied to the
 // expression: the promise, or no_await_transform for the initial, final and
 // yield awaits.
-#define IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX, TRANSFORM)																	\
+// The types that an await uses.
+#define IMPL_MC_AWAIT_TYPES(EXPRESSION, SUSPEND_IDX, TRANSFORM)																	\
 	using _macoro_promise_type = decltype(_macoro_frame_->promise);														\
 	using MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX) = ::macoro::AwaitContext<std::remove_reference_t<decltype(TRANSFORM)>, SUSPEND_IDX,		\
 		::macoro::store_as_t<decltype(::macoro::as_reference(EXPRESSION)), decltype(EXPRESSION)>>;						\
-	using _macoro_Handle = ::macoro::coroutine_handle<_macoro_promise_type>;											\
+	using _macoro_Handle = ::macoro::coroutine_handle<_macoro_promise_type>;
+
+// Constructs the awaiter and suspends unless it is ready. Follows IMPL_MC_AWAIT_TYPES
+#define IMPL_MC_AWAIT_START(EXPRESSION, SUSPEND_IDX, TRANSFORM)															\
 	{																													\
 		auto& _macoro_promise = _macoro_frame_->promise;																\
 		auto _macoro_handle = _macoro_Handle::from_promise(_macoro_promise, ::macoro::coroutine_handle_type::macoro);	\
@@ -57,6 +61,9 @@
 		}																										\
 	}																					
 
+#define IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX, TRANSFORM)	IMPL_MC_AWAIT_TYPES(EXPRESSION, SUSPEND_IDX, TRANSFORM)	\
+			IMPL_MC_AWAIT_START(EXPRESSION, SUSPEND_IDX, TRANSFORM)
+
 // This macro expands out to generated the await_ready and await_suspend calls.
 // It defines a suspension point but does not call await_resume. This should be
 // used with other macros which perform the await_resume call.
@@ -79,7 +86,14 @@
 // SUSPEND_IDX should be a unique integer literal. Typically obtained using __COUNTER__.
 #define IMPL_MC_AWAIT_TRY(EXPRESSION, RETURN_SLOT, SUSPEND_IDX)													\
 				do{																								\
-					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX, _macoro_frame_->promise)													\
+					IMPL_MC_AWAIT_TYPES(EXPRESSION, SUSPEND_IDX, _macoro_frame_->promise)						\
+					try { IMPL_MC_AWAIT_START(EXPRESSION, SUSPEND_IDX, _macoro_frame_->promise) }				\
+					catch (...) {																				\
+						_macoro_frame_->destroyLastAwaiter();													\
+						RETURN_SLOT = ::macoro::Err(std::current_exception());									\
+						break;																					\
+					}																							\
+					MACORO_FALLTHROUGH; case (std::size_t)::macoro::SuspensionPoint(SUSPEND_IDX):				\
 					/*<resume-point>*/																			\
 					::macoro::detail::try_resume(RETURN_SLOT, 													\
 						_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>());	\
-- 
2.43.0


From d923428f51fc5a8028d680c2e366bb743faf409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:32 +0000
Subject: [PATCH 26/48] fix: an MC_ coroutine whose unhandled_exception throws
 must be done()

---
 macoro/macros.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/macoro/macros.h b/macoro/macros.h
index 33d1b3d..437a666 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -225,6 +225,8 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 			_macoro_frame_->destroyAwaiters();																	\
 			if (!_macoro_frame_->_initial_suspend_await_resumed_called_)										\
 				throw; 																							\
+			/*done, also if unhandled_exception throws*/														\
+			_macoro_frame_->_suspension_idx_ = ::macoro::SuspensionPoint::FinalSuspend;							\
 			MC_UNHANDLED_EXCEPTION;																				\
 		}																										\
 		/*final suspend*/																						\
-- 
2.43.0


From d0ccf1ffa382c72c3193f06ee42bfbdccc89e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:51 +0000
Subject: [PATCH 27/48] fix: flowing off the end of an MC_ coroutine must call
 return_void

As in a C++20 coroutine, where it is equivalent to co_return.
---
 macoro/macros.h      |  2 ++
 macoro/type_traits.h | 23 +++++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/macoro/macros.h b/macoro/macros.h
index 437a666..018b313 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -220,6 +220,8 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 				std::terminate();																				\
 				break;																							\
 			}																									\
+			/*flowing off the end is MC_RETURN_VOID()*/															\
+			::macoro::return_void(_macoro_frame_->promise);														\
 		}																										\
 		catch (...) {																							\
 			_macoro_frame_->destroyAwaiters();																	\
diff --git a/macoro/type_traits.h b/macoro/type_traits.h
index 4d51192..3b9b307 100644
--- a/macoro/type_traits.h
+++ b/macoro/type_traits.h
@@ -139,6 +139,29 @@ namespace macoro
 
 	struct empty_state {};
 
+	template<typename Promise, typename = void>
+	struct has_return_void_member : false_type
+	{};
+
+	template <typename Promise>
+	struct has_return_void_member <Promise, void_t<
+
+		// must have a return_void() member fn
+		decltype(std::declval<Promise>().return_void())
+
+		>>
+		: true_type{};
+
+	template<typename Promise>
+	inline void return_void(Promise& promise, enable_if_t<has_return_void_member<Promise&>::value, empty_state> = {})
+	{
+		promise.return_void();
+	}
+
+	template<typename Promise>
+	inline void return_void(Promise&, enable_if_t<!has_return_void_member<Promise&>::value, empty_state> = {})
+	{}
+
 	// used in place of the promise for awaits that have no await_transform.
 	struct no_await_transform { static inline const empty_state value = {}; };
 
-- 
2.43.0


From 37351c98b608c90aaa855ed5dc33308690854e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:01 +0000
Subject: [PATCH 28/48] fix: done() and destroy() of a void handle to the noop
 coroutine crashed

---
 macoro/coro_frame.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 4fef50a..a61afd0 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -813,6 +813,8 @@ namespace macoro
 
 	inline bool _macoro_coro_done(void* _address)noexcept
 	{
+		if (_address == noop_coroutine().address())
+			return false;
 #ifdef MACORO_CPP_20
 		if (!_macoro_coro_is_std(_address))
 		{
@@ -912,6 +914,8 @@ namespace macoro
 
 	inline void _macoro_coro_destroy(void* _address)noexcept
 	{
+		if (_address == noop_coroutine().address())
+			return;
 #ifdef MACORO_CPP_20
 		if (!_macoro_coro_is_std(_address))
 		{
-- 
2.43.0


From ded4bee070fc913f35139503b4cefb62ec9962af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:04 +0000
Subject: [PATCH 29/48] fix: destroying an MC_ coroutine through its std handle
 freed the adapter's frame in use

The adapter's promise destroyed the outer frame, which destroyed the adapter
again and freed its storage, while the first destruction still used it.
---
 macoro/coro_frame.h | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index a61afd0..7da5e8f 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -557,23 +557,37 @@ namespace macoro
 
 				std_handle_adapter get_return_object() { return { this }; }
 
+				// the adapter is destroyed through its own handle: destroy the
+				// outer frame, which must not destroy the adapter again.
 				~promise_type()
 				{
 					if (outer_handle)
-						outer_handle.destroy();
+						std::exchange(outer_handle, nullptr).destroy();
 				}
 
 				template<typename TT>
 				void* operator new(std::size_t size, TT& base)
 				{
 					assert(base.frame_adapter_storage == nullptr);
+					// the storage is also kept alive by a reference behind the
+					// adapter's frame, until that frame is deleted.
+					auto offset = self_offset(size);
 					base.frame_adapter_storage =
-						std::shared_ptr<char>(new char[size], std::default_delete<char[]>());
-					return base.frame_adapter_storage.get();
+						std::shared_ptr<char>(new char[offset + sizeof(std::shared_ptr<char>)], std::default_delete<char[]>());
+					auto ptr = base.frame_adapter_storage.get();
+					new (ptr + offset) std::shared_ptr<char>(base.frame_adapter_storage);
+					return ptr;
 				}
 
 				void operator delete(void* ptr, std::size_t size)
 				{
+					auto self = std::move(*reinterpret_cast<std::shared_ptr<char>*>((char*)ptr + self_offset(size)));
+				}
+
+				static std::size_t self_offset(std::size_t size)
+				{
+					auto a = alignof(std::shared_ptr<char>);
+					return (size + a - 1) / a * a;
 				}
 
 				void return_void() {}
@@ -583,7 +597,8 @@ namespace macoro
 
 			~std_handle_adapter()
 			{
-				std::coroutine_handle<promise_type>::from_promise(*promise).destroy();
+				if (promise)
+					std::coroutine_handle<promise_type>::from_promise(*promise).destroy();
 			}
 
 			promise_type* promise;
@@ -681,8 +696,12 @@ namespace macoro
 		{
 			// For when std_adapter isn'mTask the one who called our destructor,
 			// prevent it from calling it recursively by setting the handle
-			// back to this frame to null.
-			std_adapter.promise->outer_handle = std::nullptr_t{};
+			// back to this frame to null. Otherwise it is being destroyed and
+			// we must not destroy it.
+			if (std_adapter.promise->outer_handle)
+				std_adapter.promise->outer_handle = std::nullptr_t{};
+			else
+				std_adapter.promise = nullptr;
 		}
 	private:
 
-- 
2.43.0


From 107a7900d7c41e8afc874a71665d98ed3f7e47f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:17 +0000
Subject: [PATCH 30/48] fix: Ok and Err must not take from an lvalue and must
 accept a const lvalue

Ok(lvalue) selected the forwarding overload, which moves from its argument.
---
 macoro/result.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/macoro/result.h b/macoro/result.h
index 8afac5f..ecd020e 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -19,7 +19,7 @@ namespace macoro
 		struct OkTag {
 			const T& mV;
 
-			OkTag(T& e)
+			OkTag(const T& e)
 				:mV(e)
 			{}
 
@@ -53,7 +53,7 @@ namespace macoro
 		struct ErrorTag {
 			const E& mE;
 
-			ErrorTag(E& e)
+			ErrorTag(const E& e)
 				:mE(e)
 			{}
 
@@ -101,9 +101,9 @@ namespace macoro
 	}
 
 	template<typename T>
-	detail::ErrorMvTag<remove_cvref_t<T>> Err(T&& t)
+	enable_if_t<!std::is_lvalue_reference<T>::value && !std::is_const<T>::value, detail::ErrorMvTag<T>> Err(T&& t)
 	{
-		return detail::ErrorMvTag<remove_cvref_t<T>>(t);
+		return detail::ErrorMvTag<T>(t);
 	}
 
 
@@ -119,9 +119,9 @@ namespace macoro
 	}
 
 	template<typename T>
-	detail::OkMvTag<remove_cvref_t<T>> Ok(T&& t)
+	enable_if_t<!std::is_lvalue_reference<T>::value && !std::is_const<T>::value, detail::OkMvTag<T>> Ok(T&& t)
 	{
-		return detail::OkMvTag<remove_cvref_t<T>>(t);
+		return detail::OkMvTag<T>(t);
 	}
 
 
-- 
2.43.0


From d6b92678e725917a83081d3780cb957efc571797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:17 +0000
Subject: [PATCH 31/48] fix: const result::value() called itself without end

and with it operator* const, value_or const and the comparisons with Ok.
---
 macoro/result.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/result.h b/macoro/result.h
index ecd020e..a36170e 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -327,7 +327,7 @@ namespace macoro
 			if (has_error())
 				result_rethrow(error());
 
-			return value();
+			return MACORO_VARIANT_NAMESPACE::get<0>(var());
 		}
 
 		const value_type& operator*() const { return value(); }
-- 
2.43.0


From c8f721183baf8792a88481dc2464f497f82f0996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:56 +0000
Subject: [PATCH 32/48] fix: comparing a result with != did not compile

The named tag does not bind to the parameter of operator==.
---
 macoro/result.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/macoro/result.h b/macoro/result.h
index a36170e..ded1bc0 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -445,24 +445,24 @@ namespace macoro
 		template<typename T2>
 		bool operator!=(detail::OkTag<T2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 		template<typename T2>
 		bool operator!=(detail::OkMvTag<T2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 		template<typename E2>
 		bool operator!=(detail::ErrorTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 		template<typename E2>
 		bool operator!=(detail::ErrorMvTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 
@@ -600,12 +600,12 @@ namespace macoro
 		template<typename E2>
 		bool operator!=(detail::ErrorTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 		template<typename E2>
 		bool operator!=(detail::ErrorMvTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 		detail::result_awaiter<void, Error> MACORO_OPERATOR_COAWAIT()
-- 
2.43.0


From 7c32602b2eb18a55a8a2d1b051b5eff9a50c8f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:56 +0000
Subject: [PATCH 33/48] fix: a result whose value and error types are the same
 could not be constructed

---
 macoro/result.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/macoro/result.h b/macoro/result.h
index ded1bc0..0b9472b 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -287,10 +287,10 @@ namespace macoro
 		result& operator=(const result&) = default;
 		result& operator=(result&&) = default;
 
-		result(detail::OkTag<value_type>&& v) :mVar(v.mV) {}
-		result(detail::OkMvTag<value_type>&& v) : mVar(std::move(v.mV)) {}
-		result(detail::ErrorTag<error_type>&& e) : mVar(e.mE) {}
-		result(detail::ErrorMvTag<error_type>&& e) :mVar(std::move(e.mE)) {}
+		result(detail::OkTag<value_type>&& v) :mVar(MACORO_VARIANT_NAMESPACE::in_place_index<0>, v.mV) {}
+		result(detail::OkMvTag<value_type>&& v) : mVar(MACORO_VARIANT_NAMESPACE::in_place_index<0>, std::move(v.mV)) {}
+		result(detail::ErrorTag<error_type>&& e) : mVar(MACORO_VARIANT_NAMESPACE::in_place_index<1>, e.mE) {}
+		result(detail::ErrorMvTag<error_type>&& e) :mVar(MACORO_VARIANT_NAMESPACE::in_place_index<1>, std::move(e.mE)) {}
 
 
 		variant<value_type, error_type> mVar;
-- 
2.43.0


From c992acccf451a69d8fdbb6e4649f189440799111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:56 +0000
Subject: [PATCH 34/48] fix: a const result could not be tested with operator
 bool

---
 macoro/result.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macoro/result.h b/macoro/result.h
index 0b9472b..2be6830 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -310,7 +310,7 @@ namespace macoro
 			return !has_value();
 		}
 
-		explicit operator bool() {
+		explicit operator bool() const {
 			return has_value();
 		}
 
@@ -511,7 +511,7 @@ namespace macoro
 			return !has_value();
 		}
 
-		explicit operator bool() {
+		explicit operator bool() const {
 			return has_value();
 		}
 
-- 
2.43.0


From 15fe8cece0f9e59f7b7a43f0e0b583c3deaa2743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:41 +0000
Subject: [PATCH 35/48] fix: awaiting an lvalue when_all_ready did not compile

It passed a source location to try_await, and the C++20 overload replaced the
parent of the trace by null.
---
 macoro/detail/when_all_awaitable.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macoro/detail/when_all_awaitable.h b/macoro/detail/when_all_awaitable.h
index cac1a29..511bb67 100644
--- a/macoro/detail/when_all_awaitable.h
+++ b/macoro/detail/when_all_awaitable.h
@@ -131,14 +131,14 @@ namespace macoro
 				bool await_suspend(std::coroutine_handle<Promise> awaitingCoroutine, std::source_location loc = std::source_location::current()) noexcept
 				{
 					m_awaitable.set_parent(get_traceable(awaitingCoroutine), loc);
-					return await_suspend(coroutine_handle<>(awaitingCoroutine), loc);
+					return m_awaitable.try_await(coroutine_handle<>(awaitingCoroutine));
 				}
 #endif
 				template<typename Promise>
 				bool await_suspend(coroutine_handle<Promise> awaitingCoroutine, std::source_location loc = std::source_location::current()) noexcept
 				{
 					m_awaitable.set_parent(get_traceable(awaitingCoroutine), loc);
-					return m_awaitable.try_await(awaitingCoroutine, loc);
+					return m_awaitable.try_await(awaitingCoroutine);
 				}
 
 				TASK_CONTAINER& await_resume() noexcept
-- 
2.43.0


From cd524b4252ec1ac456a12a3292e5f290a587a7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:41 +0000
Subject: [PATCH 36/48] fix: a trace ended at the when_all_ready of a void task

---
 macoro/detail/when_all_task.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/macoro/detail/when_all_task.h b/macoro/detail/when_all_task.h
index a30b974..d06746e 100644
--- a/macoro/detail/when_all_task.h
+++ b/macoro/detail/when_all_task.h
@@ -222,6 +222,11 @@ namespace macoro
 
 			//private:
 
+			traceable* get_traceable()
+			{
+				return m_awaitable;
+			}
+
 			when_all_ready_awaitable_base* m_awaitable;
 			coroutine_handle_type m_type;
 			//when_all_counter* m_counter;
-- 
2.43.0


From be3d8ad04001eff27db10d41cd6d8b4bfa91d7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:41 +0000
Subject: [PATCH 37/48] fix: wrap must pass the location of the await to
 awaiters that return a handle

It asked for a result convertible to int, so a trace named wrap.h in place of
the caller.
---
 macoro/wrap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/wrap.h b/macoro/wrap.h
index 21028c6..957409f 100644
--- a/macoro/wrap.h
+++ b/macoro/wrap.h
@@ -32,7 +32,7 @@ namespace macoro
 			template<typename Handle>
 			auto await_suspend(Handle h)
 			{
-				if constexpr (requires(awaiter_storage m_awaiter) { { m_awaiter.await_suspend(h, m_loc) } -> std::convertible_to<int>; })
+				if constexpr (requires { m_awaiter.await_suspend(h, m_loc); })
 				{
 					return m_awaiter.await_suspend(h, m_loc);
 				}
-- 
2.43.0


From 6c6d3c8fc6f53ee5cc8a0bfd49c81e500c9a765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:41 +0000
Subject: [PATCH 38/48] fix: when_all_scope could only be awaited by this
 library's coroutine types

---
 macoro/when_all_scope.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/when_all_scope.h b/macoro/when_all_scope.h
index 10ab97c..8695d50 100644
--- a/macoro/when_all_scope.h
+++ b/macoro/when_all_scope.h
@@ -158,7 +158,7 @@ namespace macoro
 				std::coroutine_handle<promise> p, 
 				std::source_location loc = std::source_location::current())
 			{
-				m_handle.promise().m_scope.set_parent(get_traceable(p.promise()), loc);
+				m_handle.promise().m_scope.set_parent(detail::get_traceable(p), loc);
 				m_handle.resume();
 				return m_join.await_suspend(p);
 			}
-- 
2.43.0


From 343f321344be689a490bb7ef1bbe156880af2d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:39 +0000
Subject: [PATCH 39/48] fix: MC_ coroutines must give awaiters the location of
 the await

A trace named coro_frame.h in place of the caller for every await in an MC_
coroutine.
---
 macoro/coro_frame.h | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 7da5e8f..8bda5f2 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -12,6 +12,7 @@
 #include <vector>
 #include <cstddef>
 #include <memory>
+#include <source_location>
 #ifdef MACORO_CPP_20
 #include <coroutine>
 #endif
@@ -107,6 +108,16 @@ namespace macoro
 		}
 	}
 
+	// a.await_suspend(h), with the location of the await if the awaiter takes it.
+	template<typename Awaiter, typename Handle>
+	decltype(auto) await_suspend_at(Awaiter& a, Handle& h, std::source_location loc) noexcept(noexcept(a.await_suspend(h)))
+	{
+		if constexpr (requires { a.await_suspend(h, loc); })
+			return a.await_suspend(h, loc);
+		else
+			return a.await_suspend(h);
+	}
+
 	template<typename Awaiter, typename T>
 	await_suspend_t<bool> await_suspend(Awaiter& a, coroutine_handle<T> h,
 		enable_if_t<
@@ -115,10 +126,10 @@ namespace macoro
 		||
 		has_void_await_suspend<Awaiter, std::coroutine_handle<void>>::value
 #endif
-		, empty_state> = {}) noexcept(noexcept_await_suspend<Awaiter, T>())
+		, empty_state> = {}, std::source_location loc = std::source_location::current()) noexcept(noexcept_await_suspend<Awaiter, T>())
 	{
 		auto h2 = implicit_cast<has_void_await_suspend<Awaiter, coroutine_handle<T>>::value, T>(h);
-		a.await_suspend(h2);
+		await_suspend_at(a, h2, loc);
 		return { true };
 	}
 
@@ -130,11 +141,11 @@ namespace macoro
 		||
 		has_bool_await_suspend<Awaiter, std::coroutine_handle<void>>::value
 #endif
-		, empty_state> = {}) noexcept(noexcept_await_suspend<Awaiter, T>())
+		, empty_state> = {}, std::source_location loc = std::source_location::current()) noexcept(noexcept_await_suspend<Awaiter, T>())
 	{
 
 		auto h2 = implicit_cast<has_bool_await_suspend<Awaiter, coroutine_handle<T>>::value, T>(h);
-		return { a.await_suspend(h2) };
+		return { await_suspend_at(a, h2, loc) };
 	}
 
 
@@ -148,7 +159,7 @@ namespace macoro
 		!has_void_await_suspend<Awaiter, std::coroutine_handle<void>>::value &&
 		!has_bool_await_suspend<Awaiter, std::coroutine_handle<void>>::value
 #endif
-		, empty_state> = {}) noexcept(noexcept_await_suspend<Awaiter, T>())
+		, empty_state> = {}, std::source_location loc = std::source_location::current()) noexcept(noexcept_await_suspend<Awaiter, T>())
 	{
 
 		//auto h2 = ;
@@ -167,13 +178,13 @@ namespace macoro
 		if constexpr (requires(Awaiter a) { a.await_suspend(h); })
 		{
 			using promise_type = typename coroutine_handle_traits<decltype(a.await_suspend(h))>::promise_type;
-			auto ret = a.await_suspend(h);
+			auto ret = await_suspend_at(a, h, loc);
 			return await_suspend_t<coroutine_handle<promise_type>>{ ret, h != ret  };
 		}
 		else
 		{
 			auto hstd = h.std_cast();
-			auto ret = a.await_suspend(hstd);
+			auto ret = await_suspend_at(a, hstd, loc);
 			return await_suspend_t<coroutine_handle<void>>{ coroutine_handle<void>(ret), hstd != ret  };
 		}
 	}
-- 
2.43.0


From ef9532dc6f46cbcba3abd513eef3a73a0df772df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 40/48] fix: a blocking_task moved into itself destroyed its
 coroutine twice

---
 macoro/sync_wait.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/macoro/sync_wait.h b/macoro/sync_wait.h
index 2c48cbf..86c3673 100644
--- a/macoro/sync_wait.h
+++ b/macoro/sync_wait.h
@@ -155,8 +155,12 @@ namespace macoro
 			: m_handle(std::exchange(other.m_handle, nullptr))
 		{}
 		blocking_task& operator=(blocking_task&& h) {
-			this->~blocking_task();
-			m_handle = std::exchange(h.m_handle, std::nullptr_t{});
+			if (this != &h)
+			{
+				if (m_handle)
+					m_handle.destroy();
+				m_handle = std::exchange(h.m_handle, nullptr);
+			}
 			return *this;
 		}
 
-- 
2.43.0


From 41d666beda5b167598d037026fcef769a18fc912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:57 +0000
Subject: [PATCH 41/48] fix: a pool thread that became busy left timers and
 queued work to threads that did not watch them

---
 macoro/thread_pool.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index cd78120..0491fc8 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -451,6 +451,12 @@ namespace macoro
 
                     if (fn)
                     {
+                        // this thread is busy now, another one has to see to
+                        // what is left. the one that was notified of it or that
+                        // waits for the next deadline might be this one.
+                        if (state->mDeque.size() || state->mDelayHeap.size())
+                            state->mCondition.notify_one();
+
                         lock.unlock();
 
                         fn.resume();
-- 
2.43.0


From 39a98023bae3c20842c0103c852a9133638ca69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:17 +0000
Subject: [PATCH 42/48] fix: a pool whose threads could not be created left
 threads and work behind

---
 macoro/thread_pool.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 0491fc8..c81fc4d 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -281,7 +281,15 @@ namespace macoro
             : mState(new detail::thread_pool_state)
         {
             w = make_work();
-            create_threads(number_of_threads);
+            try { create_threads(number_of_threads); }
+            catch (...)
+            {
+                // there is no pool: stop the threads that could be
+                // created, w must not refer to it.
+                w.reset();
+                join();
+                throw;
+            }
         }
 
         ~thread_pool()
-- 
2.43.0


From 536d3c84f4e32e0a58d8e47561f92a6446d54f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:56 +0000
Subject: [PATCH 43/48] fix: an MC_ coroutine crashed when there was no memory
 for an await

---
 macoro/coro_frame.h | 16 ++++++++++++----
 macoro/macros.h     |  2 +-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 8bda5f2..47655e3 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -384,6 +384,13 @@ namespace macoro
 			awaiters.pop_back();
 		}
 
+		// for an await that failed, possibly before there was an awaiter.
+		void destroyLastAwaiter(size_t suspend_index)
+		{
+			if (awaiters.size() && awaiters.back().suspend_index == suspend_index)
+				destroyLastAwaiter();
+		}
+
 
 		template<typename CTX>
 		auto& makeAwaitContext()
@@ -394,15 +401,16 @@ namespace macoro
 				assert(aa.suspend_index != CTX::suspend_index);
 #endif
 
+			// allocated first, an entry without it could not be destroyed.
+			std::unique_ptr<CTX> ctx(new CTX);
+
 			awaiters.emplace_back();
 			auto& d = awaiters.back();
 #ifndef NDEBUG
 			d._awaiter_typeid_ = &typeid(CTX);
 #endif
 			d.suspend_index = CTX::suspend_index;
-
-			auto ctx = new CTX;
-			d._ctx_ptr = ctx;
+			d._ctx_ptr = ctx.get();
 
 			d._awaiter_deleter = [](void* ptr)
 			{
@@ -415,7 +423,7 @@ namespace macoro
 
 			ctx->awaiter_ptr = &d._awaiter_ptr;
 
-			return *ctx;
+			return *ctx.release();
 		}
 
 
diff --git a/macoro/macros.h b/macoro/macros.h
index 018b313..c1762fa 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -89,7 +89,7 @@
 					IMPL_MC_AWAIT_TYPES(EXPRESSION, SUSPEND_IDX, _macoro_frame_->promise)						\
 					try { IMPL_MC_AWAIT_START(EXPRESSION, SUSPEND_IDX, _macoro_frame_->promise) }				\
 					catch (...) {																				\
-						_macoro_frame_->destroyLastAwaiter();													\
+						_macoro_frame_->destroyLastAwaiter(SUSPEND_IDX);										\
 						RETURN_SLOT = ::macoro::Err(std::current_exception());									\
 						break;																					\
 					}																							\
-- 
2.43.0


From fe4bfb9ca5dc3bfb22939e84e218df6972edf883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 44/48] fix: an MC_ coroutine needed memory to suspend at its
 end

---
 macoro/coro_frame.h | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 47655e3..c110a3b 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -392,6 +392,39 @@ namespace macoro
 		}
 
 
+		// the context of the final await is part of the frame: the coroutine
+		// has to suspend there, also if there is no memory left.
+		using final_expression = decltype(std::declval<promise_type&>().final_suspend());
+		using final_context = AwaitContext<
+			std::remove_reference_t<decltype(no_await_transform::value)>, MACORO_FINAL_SUSPEND_IDX,
+			store_as_t<decltype(as_reference(std::declval<final_expression>())), final_expression>>;
+		alignas(final_context) unsigned char final_context_storage[sizeof(final_context)];
+
+		template<typename CTX>
+		struct context_deleter
+		{
+			void operator()(CTX* ctx) const
+			{
+				if constexpr (CTX::suspend_index == MACORO_FINAL_SUSPEND_IDX)
+					ctx->~CTX();
+				else
+					delete ctx;
+			}
+		};
+
+		template<typename CTX>
+		CTX* newContext()
+		{
+			if constexpr (CTX::suspend_index == MACORO_FINAL_SUSPEND_IDX)
+			{
+				static_assert(std::is_same<CTX, final_context>::value, "");
+				return new (final_context_storage) CTX;
+			}
+			else
+				return new CTX;
+		}
+
+
 		template<typename CTX>
 		auto& makeAwaitContext()
 		{
@@ -402,7 +435,7 @@ namespace macoro
 #endif
 
 			// allocated first, an entry without it could not be destroyed.
-			std::unique_ptr<CTX> ctx(new CTX);
+			std::unique_ptr<CTX, context_deleter<CTX>> ctx(newContext<CTX>());
 
 			awaiters.emplace_back();
 			auto& d = awaiters.back();
@@ -418,7 +451,7 @@ namespace macoro
 				p->awaiter.destroy();
 				p->awaitable.destroy();
 				p->expr.destroy();
-				delete p;
+				context_deleter<CTX>{}(p);
 			};
 
 			ctx->awaiter_ptr = &d._awaiter_ptr;
@@ -459,7 +492,7 @@ namespace macoro
 			p->awaiter.destroy();
 			p->awaitable.destroy();
 			p->expr.destroy();
-			delete p;
+			context_deleter<CTX>{}(p);
 
 			awaiters.pop_back();
 		}
-- 
2.43.0


From 38758a72b8e47f7ac145d94d841063a1e503a16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:21 +0000
Subject: [PATCH 45/48] fix: clang could not compile MC_ coroutines of promises
 with a deduced final_suspend

The type of the final await was needed to know the size of FrameBase, and
so by coroutine_handle::promise(), which final_suspend itself may use. The
storage is a part of Frame instead.
---
 macoro/coro_frame.h | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index c110a3b..9a5a1c2 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -333,6 +333,19 @@ namespace macoro
 	};
 
 
+	// the context of the final await is part of the frame: the coroutine
+	// has to suspend there, also if there is no memory left.
+	template<typename PromiseType>
+	struct FinalStorage
+	{
+		using expression = decltype(std::declval<PromiseType&>().final_suspend());
+		using context = AwaitContext<
+			std::remove_reference_t<decltype(no_await_transform::value)>, MACORO_FINAL_SUSPEND_IDX,
+			store_as_t<decltype(as_reference(std::declval<expression>())), expression>>;
+		alignas(context) unsigned char storage[sizeof(context)];
+	};
+
+
 	// The object which allows lambda based coroutines
 	// to set their current suspend point, and return a
 	// value. This base object has to be independent from
@@ -392,13 +405,8 @@ namespace macoro
 		}
 
 
-		// the context of the final await is part of the frame: the coroutine
-		// has to suspend there, also if there is no memory left.
-		using final_expression = decltype(std::declval<promise_type&>().final_suspend());
-		using final_context = AwaitContext<
-			std::remove_reference_t<decltype(no_await_transform::value)>, MACORO_FINAL_SUSPEND_IDX,
-			store_as_t<decltype(as_reference(std::declval<final_expression>())), final_expression>>;
-		alignas(final_context) unsigned char final_context_storage[sizeof(final_context)];
+		// where the context of the final await is placed.
+		void* final_context_storage = nullptr;
 
 		template<typename CTX>
 		struct context_deleter
@@ -417,7 +425,7 @@ namespace macoro
 		{
 			if constexpr (CTX::suspend_index == MACORO_FINAL_SUSPEND_IDX)
 			{
-				static_assert(std::is_same<CTX, final_context>::value, "");
+				static_assert(std::is_same<CTX, typename FinalStorage<promise_type>::context>::value, "");
 				return new (final_context_storage) CTX;
 			}
 			else
@@ -693,6 +701,7 @@ namespace macoro
 	template<typename LambdaType, typename Promise>
 	struct Frame :
 		public LambdaType,
+		private FinalStorage<Promise>,
 		public FrameBase<Promise>
 	{
 		using LambdaType::operator();
@@ -730,6 +739,7 @@ namespace macoro
 			, std_adapter(adapter())
 #endif
 		{
+			FrameBase<Promise>::final_context_storage = FinalStorage<Promise>::storage;
 			FrameBase<void>::resume = &Frame::resume_impl;
 			//FrameBase<void>::resume = &Frame::operator();
 			FrameBase<void>::destroy = &Frame::destroy_impl;
-- 
2.43.0


From bb3103f8759a94b55a035cf104cdfcf1d14b8a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:06 +0000
Subject: [PATCH 46/48] fix: awaiting an empty scoped_task crashed instead of
 throwing broken_promise

---
 macoro/detail/scoped_task_promise.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/macoro/detail/scoped_task_promise.h b/macoro/detail/scoped_task_promise.h
index 942aeb4..2b3e1ab 100644
--- a/macoro/detail/scoped_task_promise.h
+++ b/macoro/detail/scoped_task_promise.h
@@ -342,7 +342,8 @@ namespace macoro
 
 			coroutine_handle<promise_type> m_coroutine;
 
-			bool await_ready() const noexcept { return false; }
+			// there is nothing to wait for without a coroutine.
+			bool await_ready() const noexcept { return !m_coroutine; }
 
 			scoped_task_awaiter(coroutine_handle<promise_type> c)
 				:m_coroutine(c)
@@ -350,8 +351,8 @@ namespace macoro
 
 			~scoped_task_awaiter()
 			{
-				assert(m_coroutine);
-				m_coroutine.destroy();
+				if (m_coroutine)
+					m_coroutine.destroy();
 			}
 
 #ifdef MACORO_CPP_20
-- 
2.43.0


From 45c29a27e4c8c07113690ef3b36b2b23b7a835ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:26 +0000
Subject: [PATCH 47/48] fix: a returned value leaked if a destructor threw
 after the co_return

---
 macoro/detail/scoped_task_promise.h | 7 +++++++
 macoro/task.h                       | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/macoro/detail/scoped_task_promise.h b/macoro/detail/scoped_task_promise.h
index 2b3e1ab..eef216e 100644
--- a/macoro/detail/scoped_task_promise.h
+++ b/macoro/detail/scoped_task_promise.h
@@ -328,6 +328,13 @@ namespace macoro
 
 			void unhandled_exception() noexcept
 			{
+				// what threw may be a destructor that ran after the value was returned.
+				if constexpr (std::is_object_v<T>)
+				{
+					if (m_result_type == result_type::value)
+						this->m_value.~T();
+				}
+
 				::new (static_cast<void*>(std::addressof(this->m_exception))) std::exception_ptr(
 					std::current_exception());
 				m_result_type = result_type::exception;
diff --git a/macoro/task.h b/macoro/task.h
index 41107e3..3d2d266 100644
--- a/macoro/task.h
+++ b/macoro/task.h
@@ -247,6 +247,10 @@ namespace macoro
 
 			void unhandled_exception() noexcept
 			{
+				// what threw may be a destructor that ran after the value was returned.
+				if (m_resultType == result_type::value)
+					m_value.~T();
+
 				::new (static_cast<void*>(std::addressof(m_exception))) std::exception_ptr(
 					std::current_exception());
 				m_resultType = result_type::exception;
-- 
2.43.0


From f4da66edb000cefb3f83e9b5dd684ffd2318734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:54 +0000
Subject: [PATCH 48/48] fix: ranges of sequences narrower than size_t narrowed
 in an initializer list, which clang rejects

---
 macoro/sequence_mpsc.h  | 2 +-
 macoro/sequence_range.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index 533c4ef..99ba8e7 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -240,7 +240,7 @@ namespace macoro
 			return sequence_mpsc_claim_awaiter<SEQUENCE, TRAITS>{
 				m_sequencer.m_consumerBarrier,
 				m_sequencer.buffer_size(),
-				sequence_range<SEQUENCE, TRAITS>{ first, first + m_count }
+				sequence_range<SEQUENCE, TRAITS>{ first, static_cast<SEQUENCE>(first + m_count) }
 			};
 		}
 
diff --git a/macoro/sequence_range.h b/macoro/sequence_range.h
index 8b4fd5e..b6eb583 100644
--- a/macoro/sequence_range.h
+++ b/macoro/sequence_range.h
@@ -92,7 +92,7 @@ namespace macoro
 
 		constexpr sequence_range skip(size_type count) const noexcept
 		{
-			return sequence_range{ m_begin + std::min(size(), count), m_end };
+			return sequence_range{ static_cast<SEQUENCE>(m_begin + std::min(size(), count)), m_end };
 		}
 
 	private:
-- 
2.43.0

