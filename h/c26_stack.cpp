// C26: the stack that a long run of awaits needs does not depend on its length: coroutines hand over to one another,
// they do not call one another. C++20 coroutines hand over by a tail call, which needs an optimising compiler.
#include "hx.h"
#include "macoro/sync_wait.h"
#include "macoro/when_all.h"
#include "macoro/when_all_scope.h"
#include "macoro/async_scope.h"
#include "macoro/wrap.h"
#include "macoro/take_until.h"
#include "macoro/start_on.h"
#include "macoro/transfer_to.h"
#include "macoro/inline_scheduler.h"
#include "macoro/thread_pool.h"
#include "macoro/manual_reset_event.h"
#include "macoro/channel.h"
using namespace macoro;

namespace {
#ifdef __OPTIMIZE__
constexpr bool TAIL = true;
#else
constexpr bool TAIL = false;        // only macro coroutines
#endif
enum { MARKS = 20 };
// how deep the stack is, per thread: the first calls against all later ones
struct Depth { char* lo = nullptr, * hi = nullptr; long n = 0; };
thread_local Depth D;
constexpr long FIRST = 24, LIMIT = 3000;
__attribute__((noinline, noclone)) void mark() {
    char* p = (char*)__builtin_frame_address(0);
    Depth& d = D; ++d.n;
    if (d.n <= FIRST) { if (!d.lo || p < d.lo) d.lo = p; }
    else if (d.lo - p > LIMIT) { char b[100]; snprintf(b, sizeof b, "%ld bytes deeper after %ld steps", (long)(d.lo - p), d.n); rt_fail("stack-grows-with-the-number-of-awaits", b); }
}
void begin() { D = Depth(); }
struct Stop { bool await_ready() const { return true; } void await_suspend(std::coroutine_handle<>) {} void await_suspend(coroutine_handle<>) {} void await_resume() {} void request_stop() {} };

task<int> l20(int i) { mark(); co_return int(i); }
task<int> lMC(int i) { MC_BEGIN(task<int>, i); mark(); MC_RETURN(int(i)); MC_END(); }
task<void> v20() { mark(); co_return; }
task<void> vMC() { MC_BEGIN(task<void>); mark(); MC_END(); }
task<int&> r20(int& i) { mark(); co_return i; }
task<int&> rMC(int& i) { MC_BEGIN(task<int&>, &i); mark(); MC_RETURN(i); MC_END(); }
task<int> t20(int i) { mark(); if (i >= 0) throw Exc(i); co_return 0; }
task<int> tMC(int i) { MC_BEGIN(task<int>, i); mark(); if (i >= 0) throw Exc(i); MC_RETURN(0); MC_END(); }
eager_task<int> e20(int i) { mark(); co_return int(i); }
eager_task<int> eMC(int i) { MC_BEGIN(eager_task<int>, i); mark(); MC_RETURN(int(i)); MC_END(); }
when_all_scope body20() { co_await scoped(l20(1)); co_await scoped(v20()); mark(); }
enum { KINDS = 12 };
task<int> loop20(int k, int n) {
    int s = 0; inline_scheduler in;
    for (int i = 0; i < n; ++i) {
        switch (k) {
        case 0: s += co_await l20(1); break;
        case 1: co_await v20(); ++s; break;
        case 2: { int one = 1; s += co_await r20(one); break; }
        case 3: try { s += co_await t20(i); } catch (Exc&) { ++s; } break;
        case 4: s += co_await e20(1); break;
        case 5: { auto r = co_await wrap(l20(1)); s += r.value(); break; }
        case 6: { auto r = co_await when_all_ready(l20(1), v20()); s += std::get<0>(r).result(); break; }
        case 7: s += co_await make_task(l20(1)); break;
        case 8: co_await transfer_to(in); s += co_await start_on(in, l20(1)); break;
        case 9: s += co_await take_until(l20(1), Stop{}); break;
        case 10: { async_scope sc; sc.add(v20()); { auto t = sc.add(l20(1)); s += co_await std::move(t); } co_await sc; break; }
        case 11: co_await body20(); ++s; break;
        }
        mark();
    }
    co_return int(s);
}
task<int> loopMC(int k, int n) {
    MC_BEGIN(task<int>, k, n, s = 0, x = 0, i = 0, one = 1, in = inline_scheduler{});
    for (i = 0; i < n; ++i) {
        if (k == 0) { MC_AWAIT_SET(x, lMC(1)); s += x; }
        else if (k == 1) { MC_AWAIT(vMC()); ++s; }
        else if (k == 2) { MC_AWAIT_SET(x, rMC(one)); s += x; }
        else if (k == 3) { MC_AWAIT(wrap(tMC(i))); ++s; }
        else if (k == 4) { MC_AWAIT_SET(x, eMC(1)); s += x; }
        else if (k == 5) { MC_AWAIT(wrap(lMC(1))); ++s; }
        else if (k == 6) { MC_AWAIT(when_all_ready(lMC(1), vMC())); ++s; }
        else { MC_AWAIT(transfer_to(in)); ++s; }
        mark();
    }
    MC_RETURN(int(s));
    MC_END();
}
task<int> down20(int d) { mark(); int r = d ? co_await down20(d - 1) : 0; mark(); co_return r + 1; }
task<int> downMC(int d) { MC_BEGIN(task<int>, d, r = 0); mark(); if (d) MC_AWAIT_SET(r, downMC(d - 1)); mark(); MC_RETURN(r + 1); MC_END(); }
int N() { return 150 + (int)rt_rand(200); }
}
RT_CASE(C26, stack_await_loops) {
    bool mc = !TAIL || coin(); int n = N(), k = (int)rt_rand(mc ? 8 : KINDS); rt_desc("kind=%d macro=%d awaits=%d", k, mc, n);
    begin();
    int s = sync_wait(mc ? loopMC(k, n) : loop20(k, n));
    RT_CHECK(s == n, "wrong-result");
    rt_count("awaits", (uint64_t)n);
}
RT_CASE(C26, stack_deep_chains) {
    bool mc = !TAIL || coin(); int n = N(); rt_desc("macro=%d depth=%d", mc, n);
    begin();
    int s = sync_wait(mc ? downMC(n) : down20(n));
    RT_CHECK(s == n + 1, "wrong-result");
    rt_count("awaits", (uint64_t)n);
}
// the chain is suspended at its far end, and completes from there on another thread
namespace {
task<int> far20(int d, GateRef g) { int r; if (d) r = co_await far20(d - 1, g); else { co_await g; begin(); r = 0; } mark(); co_return r + 1; }
task<int> farMC(int d, GateRef g) { MC_BEGIN(task<int>, d, g, r = 0); if (d) MC_AWAIT_SET(r, farMC(d - 1, g)); else { MC_AWAIT(g); begin(); } mark(); MC_RETURN(r + 1); MC_END(); }
}
RT_CASE(C26, stack_chains_completed_elsewhere) {
    bool mc = !TAIL || coin(); int n = N(); rt_desc("macro=%d depth=%d", mc, n);
    Workers w(1); GateRef g{ w.gate() }; w.start();
    int s = sync_wait(mc ? farMC(n, g) : far20(n, g));
    w.join();
    RT_CHECK(s == n + 1, "wrong-result");
    rt_count("awaits", (uint64_t)n);
}
// two coroutines that wake one another, over a channel or an event
namespace {
Drv send20(channel_sender<spsc::channel<int>>* s, int n) { for (int i = 0; i < n; ++i) { { auto w = co_await s->push(); w = int(i); } mark(); } co_await s->close(); rt_add(60, 1); }
Drv recv20(channel_receiver<spsc::channel<int>>* r, int n) { for (int i = 0; i < n; ++i) { auto w = co_await r->pop(); mark(); RT_CHECK(*w == i, "message-lost-duplicated-or-reordered"); } rt_add(60, 1); }
Drv hop(thread_pool* tp, int n, int how) { co_await tp->schedule(); begin(); for (int i = 0; i < n; ++i) { if (how == 0) co_await tp->schedule(); else if (how == 1) co_await tp->dispatch(); else co_await transfer_to(*tp); mark(); } rt_add(60, 1); }
}
RT_CASE(C26, stack_conversations) {
    int n = N(), how = (int)rt_rand(TAIL ? 3 : 2); rt_desc("how=%d steps=%d", how, n);
    begin();
    if (how < 2) {
        auto sr = spsc::make_channel<int>((size_t)1 << rt_rand(3));
        if (how) { send20(&sr.first, n); recv20(&sr.second, n); } else { recv20(&sr.second, n); send20(&sr.first, n); }
        RT_CHECK(rt_get(60) == 2, "not-resumed");
    }
    else {
        thread_pool tp; auto work = tp.make_work(); tp.create_thread(); hop(&tp, n, (int)rt_rand(3)); work.reset(); tp.join();
        RT_CHECK(rt_get(60) == 1, "not-resumed");
    }
    rt_count("steps", (uint64_t)n);
}
