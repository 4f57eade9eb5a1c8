#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts are reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "A lazy task runs once, only when awaited, and delivers its result",
 "The body of a task<T> does not start before the task is awaited, then runs exactly once, and every co_await on the task (by value, by reference, through when_ready(), make_task or a moved-to handle) resumes the awaiter exactly once, after the body finished, with the returned value/reference or the thrown exception. An exception that leaves the body after the result was set (from the destructor of a local) replaces the result. Awaiting an lvalue task leaves the result in place so that it can be read again; awaiting an rvalue task moves it out; awaiting a default-constructed or moved-from task fails with broken_promise. Destroying a task, started or not, destroys its frame, parameters, locals and result exactly once; moving a task into another hands the coroutine over, and into itself changes nothing.",
 ["programs", "inputs"], "all coroutine programs built from task<T> (T value, move-only, reference, void), nesting depth, loop length, order of move/await/destroy, normal and exceptional completion",
 "task_tests.cpp runs a dozen fixed coroutines with int/string results; it never counts frame/result destructions, re-awaits after exceptions, or varies composition.",
 ["macoro/task.h"], [("task_promise<T,true>, set_continuation, final_awaitable symmetric transfer", "macoro/task.h"), ("ref_awaitable / mov_awaitable / ready_awaitable", "macoro/task.h")],
 [("m_resultType", "which of empty/value/exception the promise holds", "macoro/task.h task_promise")],
 ["co_await task", "body entry/exit events", "constructor/destructor events of results and parameters"])

prop("C02", "An eager task starts at once and hands its result over under any race",
 "An eager_task (also from make_eager, start_on and their pipe forms) starts running in the call that creates it, on the scheduler's thread after the transfer for start_on, runs exactly once, and a later co_await resumes its awaiter exactly once with the value, reference or exception, no matter how completion on another thread interleaves with is_ready(), the await, and destruction of the task after it is ready. Once is_ready() returns true, awaiting does not suspend and the result and all writes made by the body are visible to the caller.",
 ["schedules", "programs"], "all thread interleavings (and C++ memory-model reorderings) of the completing thread with the awaiting/polling/destroying thread; all value kinds and exceptional completion",
 "eager_task_tests.cpp has one stress test that samples a handful of OS schedules (and is itself excluded as flaky); the completion window is a few instructions wide.",
 ["macoro/task.h", "macoro/start_on.h", "macoro/transfer_to.h"], [("task_promise_base<false>: has_completed_or_continutation handshake", "macoro/task.h"), ("task_awaitable_base<T,false>::await_ready/await_suspend", "macoro/task.h"), ("start_on", "macoro/start_on.h")],
 [("has_completed_or_continutation", "who arrived first: completion or continuation", "macoro/task.h")],
 ["co_await eager", "is_ready()", "task destruction"])

prop("C03", "sync_wait and make_blocking block until completion, then return its result",
 "sync_wait(x) and make_blocking(x).get() (and the pipe forms) start the awaitable, return only after it completed, and return exactly its result (same value, same reference, or rethrow its exception), whichever thread completes it and however completion interleaves with the wait; the blocked thread is always woken. make_blocking starts the awaitable before get() is called and all writes made before completion are visible after the wait; frame and awaitable are destroyed exactly once, also when the make_blocking object is moved (into itself included).",
 ["schedules", "programs", "inputs"], "all interleavings of the completing thread with the waiting thread, all awaitable kinds (value, reference, void, move-only, throwing in await_ready/await_suspend/await_resume)",
 "sync_wait_tests.cpp completes on the same thread or on one OS schedule; the notify/destroy window is never forced.",
 ["macoro/sync_wait.h"], [("blocking_promise: mutex + condition variable + m_is_set, final_awaiter::set", "macoro/sync_wait.h")],
 [("m_is_set", "result available", "macoro/sync_wait.h")], ["sync_wait return", "blocking_task::get"])

prop("C04", "when_all_ready completes exactly once, after all children completed",
 "Awaiting when_all_ready(a...) or when_all_ready(vector) starts every child exactly once, in order, and resumes the awaiting coroutine exactly once, after every child has completed, on whichever threads and in whatever order the children complete. The result has one entry per child in argument order, whose result() yields that child's value or reference or rethrows that child's exception; one child failing neither cancels nor hides the others.",
 ["schedules", "programs", "inputs"], "all completion orders and interleavings of 0..n children across threads, all mixes of synchronous/asynchronous/throwing/value/reference/void children",
 "when_all_tests.cpp checks a few fixed completion orders on one thread.",
 ["macoro/when_all.h", "macoro/detail/when_all_awaitable.h", "macoro/detail/when_all_task.h"], [("m_count fetch_sub countdown with n+1 references", "macoro/detail/when_all_awaitable.h"), ("when_all_task_promise::yield_value / final_suspend notifier", "macoro/detail/when_all_task.h")],
 [("m_count", "children outstanding plus the awaiter itself", "macoro/detail/when_all_awaitable.h")], ["co_await when_all_ready", "child start/finish events"])

prop("C05", "async_scope joins every task it started and loses no result or exception",
 "async_scope::add starts the awaitable immediately; awaiting the scope (or join()) resumes the joiner exactly once, only after every task added before has completed, for every interleaving of completion, awaiting or dropping the returned scoped_task, and joining, after which the scope can be destroyed or reused. Awaiting a scoped_task yields its value/reference or rethrows its exception exactly once, and broken_promise if it is empty or moved from; the exception of every task whose handle was dropped is reported exactly once by the join as part of one async_scope_exception, whose what() includes the messages of its std::exceptions. is_ready() is true only for a task that completed, and each task's frame is destroyed exactly once, also when its handle is overwritten.",
 ["schedules", "programs"], "all interleavings of task completion on other threads with add, drop, move, await of the handle and with the join; all numbers of tasks; all value kinds and exceptions",
 "async_scope_tests.cpp uses fixed single-threaded orders plus one sampled stress schedule.",
 ["macoro/async_scope.h", "macoro/detail/scoped_task_promise.h", "macoro/barrier.h"], [("m_completion_state handshake between final_awaitable, awaiter and handle destructor", "macoro/detail/scoped_task_promise.h, macoro/async_scope.h"), ("m_barrier count of running tasks", "macoro/async_scope.h"), ("m_exceptions under m_exception_mutex", "macoro/async_scope.h")],
 [("m_completion_state", "completed / continuation-or-dropped bits", "macoro/detail/scoped_task_promise.h"), ("m_exceptions", "exceptions of dropped tasks awaiting the join", "macoro/async_scope.h")],
 ["co_await scope", "co_await std::move(scoped_task)", "scoped_task destruction"])

prop("C06", "when_all_scope returns only after its body and all its scoped tasks end",
 "A when_all_scope coroutine starts when it is awaited; each co_await scoped(x) (or x | scoped()) in its body starts x at once and yields a scoped_task for it; the awaiter of the scope resumes exactly once, after the body has finished and every scoped task started in it has completed, whether its handle was awaited, dropped or kept, and on whichever threads they complete. Awaiting a handle inside the body yields the task's value or exception; exceptions of the body and of dropped tasks reach the scope's awaiter in one async_scope_exception. Frames of the body and of the tasks are destroyed exactly once.",
 ["schedules", "programs"], "all bodies (numbers of tasks, awaited/dropped/kept handles, exceptions) and all interleavings of task completion with the body and the join",
 "when_all_scope_tests.cpp runs a few fixed bodies on one thread and never checks lifetimes.",
 ["macoro/when_all_scope.h", "macoro/async_scope.h"], [("promise_type::await_transform(scoped_t) -> async_scope::add", "macoro/when_all_scope.h"), ("body counted in m_scope.m_barrier, joined by awaiter", "macoro/when_all_scope.h")],
 [("m_scope.m_barrier", "body + running tasks", "macoro/when_all_scope.h")], ["co_await of the scope", "task start/finish events"])

prop("C07", "barrier resumes its waiter exactly once, exactly when the count hits zero",
 "A coroutine awaiting a barrier resumes exactly once: immediately if the count is zero, otherwise only when decrements brought the count to zero, and never earlier, never twice and never not at all, for every interleaving of add/increment/decrement on any threads with the await. Everything done before each decrement is visible to the resumed coroutine, which may destroy or reuse the barrier at once; add/increment/decrement/count return the resulting counts.",
 ["schedules", "histories"], "all interleavings of increments, decrements and one waiter per round, over repeated rounds; destruction right after the wait",
 "barrier_tests.cpp decrements on one thread in a fixed order.",
 ["macoro/barrier.h"], [("m_count fetch_add/fetch_sub with the waiter holding a unit; m_continuation hand-over", "macoro/barrier.h")],
 [("m_count", "outstanding units", "macoro/barrier.h"), ("m_continuation", "the waiting coroutine", "macoro/barrier.h")], ["co_await barrier", "decrement()/increment() return values", "count()"])

prop("C08", "async_manual_reset_event wakes every waiter exactly once per set",
 "A coroutine awaiting a set event continues without suspending; otherwise it suspends and is resumed exactly once, by a set() that follows, for every interleaving of any number of awaiting coroutines with set(), reset() and is_set() on any threads; no waiter is lost, resumed twice, or resumed while the event was never set since it began to wait. After reset() completes and no set() follows, is_set() is false and later awaits suspend; writes before set() are visible to every coroutine it releases and to every is_set() that returns true.",
 ["schedules", "histories"], "all interleavings of n waiters with sequences of set/reset/is_set on several threads",
 "manual_reset_event tests use at most a couple of waiters on one thread.",
 ["macoro/manual_reset_event.h"], [("m_state: this / nullptr / waiter list, exchange in set, CAS push in await_suspend", "macoro/manual_reset_event.h")],
 [("m_state", "set flag or head of the waiter list", "macoro/manual_reset_event.h")], ["co_await event", "is_set()", "set() return"])

prop("C09", "sequence_barrier releases exactly the waiters whose sequence was published",
 "co_await barrier.wait_until_published(n) completes exactly once, only after a sequence s that does not precede n (in wrap-around order) was published, and yields a published sequence not preceding n; every publish wakes all waiters it satisfies and only those, for every interleaving of waiters with the publisher and for every starting value including wrap-around. Writes before publish(s) are visible to every released waiter and to every reader of last_published() that observes s.",
 ["schedules", "inputs", "histories"], "all interleavings of several waiters with a publisher; all initial sequences, targets and publish strides, including those that wrap around; several sequence types",
 "sequence_barrier_tests.cpp checks a few fixed orders and one sampled multithreaded schedule starting from the default sequence.",
 ["macoro/sequence_barrier.h", "macoro/sequence_traits.h"], [("seq_cst publish/enqueue handshake, requeue/resume split, m_readyToResume", "macoro/sequence_barrier.h"), ("precedes/difference modular comparison", "macoro/sequence_traits.h")],
 [("m_awaiters", "list of queued waiters", "macoro/sequence_barrier.h"), ("m_lastPublished", "last published sequence", "macoro/sequence_barrier.h")], ["co_await wait_until_published", "last_published()"])

prop("C10", "sequence_spsc grants each slot once, in order, and never overruns the reader",
 "With one producer and one consumer, claim_one and claim_up_to(k) yield consecutive sequence numbers, each exactly once and without gaps, at least one and at most k per claim, and never a number whose slot the consumer has not yet released (at most buffer_size claimed beyond the consumer barrier); the producer resumes whenever space becomes available. wait_until_published(n) completes exactly when n has been published and reports a published number not preceding n; data written before publish is visible to the consumer, and slots read before the consumer's publish are not overwritten earlier, across sequence wrap-around and all interleavings.",
 ["schedules", "inputs", "histories"], "all interleavings of one producer with one consumer, all buffer sizes, claim sizes, batch publishes and initial sequences including wrap-around",
 "sequence_spsc tests run one long sampled schedule with fixed sizes.",
 ["macoro/sequence_spsc.h", "macoro/sequence_barrier.h", "macoro/sequence_range.h"], [("claim waits on consumer barrier for nextToClaim - bufferSize", "macoro/sequence_spsc.h"), ("m_producerBarrier", "macoro/sequence_spsc.h")],
 [("m_nextToClaim", "next sequence to hand out", "macoro/sequence_spsc.h")], ["claim results", "publish", "wait_until_published results"])

prop("C11", "sequence_mpsc gives every producer disjoint slots and publishes in order",
 "With any number of producers, claim_one and claim_up_to(k) give out disjoint, consecutive sequence ranges that together cover the sequence without gaps, each range non-empty and at most min(k, buffer_size) long, and complete only once the consumer has released the slots; every claim completes when space appears. A consumer waiting for n resumes exactly once, when n and all sequences before it have been published in whatever order, and last_published_after reports exactly the contiguous published prefix; any_available() is true exactly when an unclaimed slot is free in a quiescent state; data written before publish is visible to the consumer.",
 ["schedules", "inputs", "histories"], "all interleavings of 1..n producers with the consumer, out-of-order publication, range publication, all buffer sizes and initial sequences including wrap-around",
 "sequence_mpsc_tests.cpp samples one schedule with two producers and fixed batch sizes.",
 ["macoro/sequence_mpsc.h", "macoro/sequence_barrier.h", "macoro/sequence_range.h"], [("m_nextToClaim fetch_add, m_published[] slots, seq_cst awaiter handshake", "macoro/sequence_mpsc.h"), ("resume_ready_awaiters / add_awaiter requeue logic", "macoro/sequence_mpsc.h")],
 [("m_published", "per-slot last published sequence", "macoro/sequence_mpsc.h"), ("m_awaiters", "queued consumers", "macoro/sequence_mpsc.h")], ["claim results", "wait_until_published results", "last_published_after", "any_available"])

prop("C12", "Channels deliver every message exactly once, in order, within capacity",
 "For spsc and mpsc channels, each completed push is received exactly once and unchanged, messages of one sender arrive in its push order, pushes complete while fewer than capacity messages are unconsumed and block (without ever losing or overwriting a message) otherwise, and blocked senders and receivers always resume when space or a message appears, under every interleaving. front() gives access to the head without consuming it and pop() consumes it when the wrapper is published or destroyed; after close() the receiver gets every message pushed before and then channel_closed_exception instead of a value. Elements are constructed and destroyed exactly once and a capacity that is not a power of two is rejected with an exception.",
 ["schedules", "histories", "inputs"], "all interleavings of 1..n senders with the receiver, all capacities, message counts, push/push(T)/front/pop mixes and close positions",
 "channel_tests.cpp runs a few fixed sequences and one sampled schedule with a small int payload.",
 ["macoro/channel.h", "macoro/sequence_spsc.h", "macoro/sequence_mpsc.h"], [("claim slot, emplace, publish", "macoro/channel.h push"), ("pop_wrapper::publish resets the slot and publishes the consumer barrier", "macoro/channel.h"), ("empty slot as close marker", "macoro/channel.h close/front")],
 [("mData", "ring of optional slots", "macoro/channel.h"), ("mFrontIndex/mLastKnown", "receiver position", "macoro/channel.h")], ["push/pop/front/close results", "element constructor/destructor events"])

prop("C13", "thread_pool runs every posted coroutine exactly once and joins cleanly",
 "Every coroutine handed to thread_pool post/schedule/dispatch (awaited or passed as a handle) is resumed exactly once, on a thread running that pool; dispatch from a pool thread continues inline and from elsewhere is queued; run() and the pool threads return if and only if no work object is held and nothing is queued, so join() returns then and not before. A posted coroutine sees all writes made before the post; a pool of n threads runs up to n coroutines at a time on no more than n threads, a queued coroutine does not wait for a timer or for a busy thread while a pool thread is idle (pool threads created later included), and nothing is lost, duplicated or stranded for any interleaving of posting, finishing, creating threads, resetting work and joining, and calling run() on a thread already inside a pool throws.",
 ["schedules", "programs"], "all interleavings of posters, pool threads, work release and join; all numbers of threads and posts; nested posts and dispatches",
 "thread_pool_tests.cpp samples a few OS schedules with fixed numbers of threads.",
 ["macoro/thread_pool.h", "macoro/thread_pool.cpp"], [("mDeque under mMutex with mCondition", "macoro/thread_pool.h"), ("run() loop exit on mWork/mDeque/mDelayHeap", "macoro/thread_pool.h"), ("mCurrentExecutor", "macoro/thread_pool.cpp")],
 [("mDeque", "ready coroutines", "macoro/thread_pool.h"), ("mWork", "live work objects", "macoro/thread_pool.h")], ["resumption events with thread ids", "join()/run() return"])

prop("C14", "schedule_after resumes once, not early, in deadline order, or upon stop",
 "A coroutine awaiting pool.schedule_after(d, token) is resumed exactly once on a pool thread: not before d has elapsed unless stop was requested on the token, promptly (without waiting out the delay) once stop is requested before or during the wait, and otherwise once d has elapsed; expired timers are run in deadline order by a single-threaded pool. This holds for every interleaving of registration, expiry, stop requests, posted work and the exit of other pool threads, an expired timer is not held up by a busy thread while another pool thread is idle nor by a stream of posted coroutines, and a pool with no remaining work exits without waiting for deadlines that no longer matter.",
 ["schedules", "inputs", "histories"], "all interleavings of timer registration, timer expiry, stop request and pool shutdown; all delays and numbers of timers, in virtual time",
 "thread_pool_tests.cpp sleeps a few real milliseconds on one schedule; cancellation racing registration or expiry is never forced.",
 ["macoro/thread_pool.h", "macoro/stop.h"], [("mDelayHeap ordered by deadline, wait_until on the earliest", "macoro/thread_pool.h"), ("post_after registers a stop callback that calls cancel_delay_op", "macoro/thread_pool.h")],
 [("mDelayHeap", "pending timers", "macoro/thread_pool.h")], ["resume events with virtual time stamps", "join() return time"])

prop("C15", "stop_source/token/callback: every callback runs once, none after its removal",
 "With either stop-token implementation, when request_stop() is called every callback registered at that time runs exactly once, a callback registered after the request runs inside its constructor, and a callback whose destructor has returned is not running and never runs later (self-removal from inside the callback does not deadlock, and removal waits for that callback only, not for other callbacks of the same notification), for every interleaving of registration, deregistration and requests on any threads. stop_requested() turns true for all tokens and sources of the state on the first request and stays true, stop_possible() is true exactly while a request was made or a source still exists, and the shared state is freed exactly once.",
 ["schedules", "histories"], "all interleavings of register, deregister, request_stop, copy, move and destruction of sources and tokens; any number of callbacks (including beyond one storage chunk)",
 "stop_tests.cpp registers a handful of callbacks in fixed orders; concurrency is one sampled schedule.",
 ["macoro/stop.h", "macoro/detail/stop_state.cpp", "macoro/detail/stop_state.h", "macoro/detail/stop_callback.h", "macoro/detail/stop_source.cpp", "macoro/detail/stop_token.cpp"], [("m_state ref counts and flags", "macoro/detail/stop_state.h"), ("per-entry exchange/CAS ownership of a callback", "macoro/detail/stop_state.cpp"), ("deregister waits for notification", "macoro/detail/stop_state.cpp")],
 [("m_state", "requested flag, completion flag, source and token counts", "macoro/detail/stop_state.h")], ["callback run events", "stop_requested()/stop_possible()", "callback destructor return"])

prop("C16", "co_await stop_token resumes the coroutine exactly once when stop is requested",
 "Awaiting a stop_token resumes the coroutine exactly once: immediately if stop was already requested or can never be requested, otherwise when request_stop() is called and not before, even when the request races the await or when the resumed coroutine immediately finishes and destroys itself; nothing the awaiter owned is touched afterwards.",
 ["schedules", "programs"], "all interleavings of the await with request_stop on another thread, with the resumed coroutine destroying its frame at once; both stop-token implementations",
 "no existing test races the request with the await; the window is inside await_suspend.",
 ["macoro/stop.h"], [("stop_awaiter::await_suspend registers a callback that resumes the coroutine", "macoro/stop.h")],
 [("mReg", "the registration, living in the coroutine frame", "macoro/stop.h")], ["resume events relative to request_stop"])

prop("C17", "timeout and take_until bound an operation and stop the other side",
 "A timeout(scheduler, d, token) requests stop on its own tokens once d has elapsed, or as soon as request_stop() is called on it or stop is requested on the outer token, never otherwise, and awaiting it completes after that; moving a timeout keeps its tokens working, also those taken from it after the move (as in f(t.get_token(), std::move(t))). take_until(op, until) completes exactly once with op's value, reference or exception, after op completed, after requesting stop on until, and after until completed too, whose own result or exception is discarded.",
 ["schedules", "inputs", "programs"], "all relative orders of operation completion, deadline expiry, outer stop request and explicit stop request, in virtual time; value, void and throwing operations",
 "take_until_tests.cpp sleeps real milliseconds on two fixed orders.",
 ["macoro/timeout.h", "macoro/take_until.h"], [("timeout::make_task awaits schedule_after with its own token, then requests stop", "macoro/timeout.h"), ("take_until awaits, requests stop, awaits until", "macoro/take_until.h")],
 [("mSrc/mReg/mTask", "own source, link to the outer token, timer task", "macoro/timeout.h")], ["token state with virtual time stamps", "take_until result"])

prop("C18", "MC_ macro coroutines behave like the equivalent C++20 coroutines",
 "A coroutine written with MC_BEGIN/MC_AWAIT/MC_AWAIT_SET/MC_AWAIT_FN/MC_AWAIT_TRY/MC_RETURN/MC_RETURN_AWAIT/MC_YIELD/MC_END produces the same observable events as the same body written as a C++20 coroutine: the same suspensions and resumptions, the same control flow through loops, branches and awaits that suspend or not, the same results and exceptions delivered to the awaiter, and each captured local, temporary awaiter, return value and promise constructed and destroyed exactly once, also when the coroutine is destroyed while suspended. Macro and C++20 coroutines can await each other in any nesting.",
 ["programs", "inputs"], "all coroutine bodies over the macro vocabulary (nesting, loops, awaits that throw in any of the three awaiter functions, destruction at any suspension point), all mixtures of macro and native coroutines",
 "coro_frame/macro tests check a few fixed bodies; no lifetime or exception path is compared with the native equivalent.",
 ["macoro/macros.h", "macoro/coro_frame.h", "macoro/coroutine_handle.h"], [("Coro frame state machine, awaiter storage, exception/destroy dispatch", "macoro/coro_frame.h"), ("MC_* macro expansion", "macoro/macros.h")],
 [("suspension state and awaiter storage of the frame", "where the body resumes", "macoro/coro_frame.h")], ["event trace of body, awaiter and value lifetimes"])

prop("C19", "result holds exactly a value or an error, and wrap() never throws",
 "result<T,E> holds exactly one of a value or an error at any time: has_value/has_error/bool agree with what was stored by construction, assignment, copy or move; value()/error()/operator*/value_or/unwrap-style accessors return the stored object (const or not, lvalue or rvalue) or throw/rethrow the stored error; and stored objects are copied, moved and destroyed exactly as often as their owner, never taken from a caller's lvalue that was only passed to Ok() or Err(). A coroutine returning result<T,E> gives what it co_returns, and the error of an uncaught exception; co_await of a result inside it takes its value or throws its error. co_await wrap(x) (x | wrap()) resumes with Ok holding x's value (a copy of what a reference refers to), or Err holding the exception with which x completed, and does not itself throw; MC_AWAIT_TRY gives the same.",
 ["inputs", "histories", "programs"], "all sequences of construct/copy/move/assign/access on results of any value and error type; all awaitables (value, reference, void, throwing)",
 "result_tests.cpp constructs a few results of int and exercises no const access, no re-assignment history and no object lifetimes.",
 ["macoro/result.h", "macoro/wrap.h"], [("variant of Ok/Err with tag construction", "macoro/result.h"), ("wrapped_awaitable::awaiter::await_resume try/catch", "macoro/wrap.h")],
 [("the stored alternative", "value or error", "macoro/result.h")], ["accessor results", "constructor/destructor events of stored objects"])

prop("C20", "coroutine handles convert without loss and control the right coroutine",
 "A macoro::coroutine_handle made from a C++20 handle, a promise or an address of either coroutine kind converts to and from void, typed, std and address forms without losing identity, and through any such form resume, done, destroy and promise act on that same coroutine exactly as the original; equality and bool agree with identity, and null handles are false. Symmetric transfer through either handle type resumes the returned coroutine exactly once, and the noop coroutine's resume and destroy have no effect and it is never done.",
 ["programs", "inputs"], "all sequences of conversions and operations over native, macro and noop coroutines",
 "coroutine_handle tests check a couple of conversions on one coroutine each.",
 ["macoro/coroutine_handle.h", "macoro/coro_frame.h", "macoro/awaiter.h"], [("low address bit tags macro frames", "macoro/coroutine_handle.h"), ("noop coroutine address", "macoro/coroutine_handle.h")],
 [("_address tag bit", "std vs macro frame", "macoro/coroutine_handle.h")], ["resume/destroy/done/promise results through each form"])

prop("C21", "get_trace reports exactly the chain of coroutines awaiting the current one",
 "co_await get_trace{} inside a lazy task yields a call stack that lists, innermost first, its own location and then exactly the coroutines that are transitively waiting for it through tasks, wrap, take_until, when_all_ready and when_all_scope, up to the first coroutine that is not traceable or the sync_wait call, each with the source location of its await (frames in library files may stand between them); for a task added to an async_scope the chain ends with the location of add(). str() prints these frames in this order, one per line. This holds in C++20 and MC_ coroutines, however deep or branched the composition is, on any thread and after any number of earlier completed or failed awaits.",
 ["programs", "histories"], "all await trees: depth, branching, earlier completed or failed children, kind of combinator, lvalue and rvalue awaits, C++20 and macro coroutines, threads",
 "No test looks at the contents of a trace.",
 ["macoro/trace.h", "macoro/task.h", "macoro/async_scope.h", "macoro/detail/when_all_awaitable.h"], [("basic_traceable parent pointers set on await", "macoro/trace.h"), ("set_parent(get_traceable(h), loc) in await_suspend", "macoro/task.h")],
 [("m_parent / location", "the awaiting coroutine and where it awaits", "macoro/trace.h")], ["contents of the returned trace"])

prop("C22", "No use-after-free, double destroy, leak or undefined behaviour in valid use",
 "For every valid program over the library's public API, on every schedule, no freed or destroyed object (coroutine frame, awaiter, channel slot, stop state, thread-pool state, result, stack object) is read, written, resumed or destroyed again, no memory or object is leaked once the owning objects are gone, no decision, address or result depends on memory that was never written, no operation has undefined behaviour (overflow, bad shift, null or misaligned access, out-of-range index or enumeration value), and the library's own assertions never fire.",
 ["schedules", "programs"], "all valid compositions of the components and all interleavings of the threads that complete, await, cancel and destroy them",
 "The test suite runs without sanitizers on whatever schedules the OS provides; frees in the racy windows go unnoticed.",
 ["macoro/task.h", "macoro/async_scope.h", "macoro/barrier.h", "macoro/channel.h", "macoro/thread_pool.h", "macoro/stop.h", "macoro/detail/stop_state.cpp", "macoro/coro_frame.h"], [("hand-over protocols that decide who destroys a frame last", "macoro/task.h, macoro/async_scope.h, macoro/barrier.h")],
 [], ["every memory access of library and client code", "allocation and free events", "assertion failures"])

prop("C23", "No data race: every hand-over between threads synchronises",
 "For every valid multi-threaded use of the library, any two conflicting non-atomic accesses made by the library, or by client code that relies on the library's hand-overs (result of a task, state published by an event, barrier, sequence, channel, pool post, stop request or blocking wait), are ordered by happens-before under the C++ memory model.",
 ["schedules", "programs"], "all interleavings and all memory-model reorderings of valid multi-threaded programs over the library",
 "The test suite is not run under a race detector and x86 hides missing acquire/release/seq_cst orderings.",
 ["macoro/task.h", "macoro/barrier.h", "macoro/manual_reset_event.h", "macoro/sequence_barrier.h", "macoro/sequence_mpsc.h", "macoro/thread_pool.h", "macoro/sync_wait.h", "macoro/detail/stop_state.cpp", "macoro/detail/when_all_awaitable.h"], [("atomic orders and mutexes at each hand-over", "all listed files")],
 [], ["every non-atomic and atomic access with its memory order"])

prop("C24", "components keep their guarantees when composed",
 "A program composed of any of the library's parts (tasks, eager tasks, when_all_ready, both scopes, single- and multi-producer channels, events, barriers, pools, timers, timeouts, stop requests and wrap), nested in each other to any depth, in C++20 and MC_ coroutines, hopping between threads, pools and timers, runs every coroutine body exactly once, delivers each body's result or exception exactly once and to whoever awaits it, after the body finished and with its writes visible, leaves no coroutine waiting for ever, and ends with every coroutine frame and every object inside them destroyed exactly once.",
 ["programs", "schedules"], "all nestings of the library's combinators over any number of threads, and all interleavings of their completions, timers and stop requests",
 "The tests exercise each component alone; what one hands to another (a stop request resuming inside a barrier arrival inside a pool task) is sampled on a handful of fixed programs at most.",
 ["macoro/task.h", "macoro/when_all.h", "macoro/async_scope.h", "macoro/when_all_scope.h", "macoro/channel_spsc.h", "macoro/channel.h", "macoro/barrier.h", "macoro/manual_reset_event.h", "macoro/thread_pool.h", "macoro/timeout.h", "macoro/take_until.h", "macoro/stop.h", "macoro/wrap.h", "macoro/sync_wait.h", "macoro/start_on.h", "macoro/transfer_to.h", "macoro/macros.h"],
 [("symmetric transfer and continuation hand-over between the components", "macoro/task.h, macoro/awaiter.h, macoro/coroutine_handle.h")],
 [("whole-program state", "each node's start, end, outcome and live objects", "all listed files")], ["start, end and delivery events of every node of the program tree", "live objects per body", "threads and coroutines still waiting at the end"])

prop("C25", "Operations that run out of memory or threads fail cleanly",
 "When an allocation made on behalf of an operation fails, or a thread cannot be created, the operation throws (std::bad_alloc or std::system_error) to its caller or awaiter instead of terminating or corrupting anything, it has released every frame, object and block of memory that it had acquired, and what it was applied to is as before and still usable: calling and awaiting tasks and eager tasks, in C++20 and MC_ coroutines (a coroutine that was suspended completes without further memory; a value whose copy or move throws counts as a failure too), sync_wait, make_blocking, wrap and when_all_ready (the failure is delivered as that child's outcome); making stop sources and registering stop callbacks (a callback that was not registered never runs, the others run exactly once); copying and assigning results; making channels and copying messages into them; posting to, dispatching to and scheduling timers on a pool (the coroutine goes on where it was); creating a pool's threads (the ones that could be created work and are joined; a constructor that throws leaves no thread and no work behind); timeouts, take_until and start_on.",
 ["inputs", "crash_points", "schedules"], "every allocation and every creation of a thread that an operation makes, failing alone or with all later ones, in every program and interleaving",
 "No unit test makes an allocation or the creation of a thread fail; the paths that run then are never executed by the tests.",
 ["macoro/task.h", "macoro/macros.h", "macoro/coro_frame.h", "macoro/when_all.h", "macoro/sync_wait.h", "macoro/wrap.h", "macoro/detail/stop_state.cpp", "macoro/detail/stop_source.cpp", "macoro/result.h", "macoro/channel.h", "macoro/channel_spsc.h", "macoro/thread_pool.h", "macoro/timeout.h", "macoro/take_until.h", "macoro/start_on.h"],
 [("failure of an allocation half way through an operation", "macoro/coro_frame.h makeAwaitContext, macoro/detail/stop_state.cpp add_callback, macoro/thread_pool.h post/post_after/create_threads")],
 [("acquired resources", "frames, objects, threads and memory acquired by the operation that failed", "all listed files")], ["the failed allocation or thread and the exception seen by the caller", "live objects and live memory before and after", "the outcome of the operation when it is repeated"])

prop("C26", "A long run of awaits needs no more stack than a short one",
 "Coroutines hand over to one another, they do not call one another: the stack that a thread uses does not grow with the number of awaits a coroutine makes in a loop (tasks with values, references, no result or an exception; eager tasks; wrap, when_all_ready, start_on, transfer_to, take_until and both scopes), with the depth of the chain of tasks that await one another, whether each completes at once or the innermost one completes later on another thread, with the number of messages two coroutines exchange over a channel, or with the number of hops of a coroutine on a pool. So none of them can overflow the stack, whatever its length. (MC_ coroutines among themselves and C++20 ones among themselves; the latter need an optimising compiler for it.)",
 ["programs", "inputs", "histories"], "all lengths of loops of awaits, depths of chains and numbers of messages, for each kind of awaitable and both kinds of coroutine",
 "The tests make a few awaits each; a frame of stack left behind by every await overflows it only after very many.",
 ["macoro/task.h", "macoro/coro_frame.h", "macoro/coroutine_handle.h", "macoro/awaiter.h", "macoro/channel_spsc.h", "macoro/thread_pool.h"],
 [("final_suspend returns the continuation to resume, instead of resuming it", "macoro/task.h"), ("loop in the resume function of MC_ frames", "macoro/coro_frame.h")],
 [("stack depth", "address of the stack frame of the coroutine's body, per thread", "all listed files")], ["address of the stack frame at every step of the bodies", "results of the loops and chains"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
