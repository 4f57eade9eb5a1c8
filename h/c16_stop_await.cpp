// C16: co_await stop_token
#include "hx.h"
#include "macoro/stop.h"
#include "macoro/task.h"
#include "macoro/start_on.h"
#include "macoro/sync_wait.h"
#include "macoro/when_all.h"
using namespace macoro;

namespace {
enum { REQ = 20, RES = 32, TOTAL = 21 };
void resumed(int i, bool possible) {
    RT_CHECK(rt_add(RES + i, 1) == 1, "resumed-twice");
    if (possible) RT_CHECK(rt_get(REQ), "resumed-before-stop-was-requested");
    rt_add(TOTAL, 1); rt_count("resumed", 1);
}
// the shortest life: resumed, done, destroyed
Drv wait20(stop_token t, int i, const int* pay) { Guard g; co_await t; resumed(i, true); if (pay) RT_CHECK(*pay == 5, "does-not-see-what-was-done-before-the-request"); }
Drv waitR(stop_token t, int i, const int* pay) { Guard g; co_await std::move(t); resumed(i, true); if (pay) RT_CHECK(*pay == 5, "does-not-see-what-was-done-before-the-request"); }
task<int> waitMC_(stop_token t, int i, const int* pay) {
    MC_BEGIN(task<int>, t = std::move(t), i, pay, g = Guard{});
#ifdef MACORO_HAS_STD_STOP_TOKEN
    MC_AWAIT(macoro::operator co_await(t));     // macoro's operator is not found for std's type
#else
    MC_AWAIT(t);
#endif
    resumed(i, true);
    if (pay) RT_CHECK(*pay == 5, "does-not-see-what-was-done-before-the-request");
    MC_RETURN(i);
    MC_END();
}
Drv waitMC(stop_token t, int i, const int* pay) { int r = co_await waitMC_(std::move(t), i, pay); RT_CHECK(r == i, "wrong-result"); }
task<int> waitT(stop_token t, int i) { Guard g; co_await t; resumed(i, true); co_return i; }
void go(int k, stop_token t, int i, const int* pay) { if (k == 0) wait20(std::move(t), i, pay); else if (k == 1) waitR(std::move(t), i, pay); else waitMC(std::move(t), i, pay); }
}

RT_CASE_W(C16, await_stop_race, 5) {
    int N = 1 + (int)rt_rand(3), T = (int)rt_rand(2), pay = 0; bool early = one_in(6), src_dies = coin(); std::vector<int> kind(N); for (auto& k : kind) k = (int)rt_rand(3);
    rt_desc("waiters=%d thread=%d early=%d k0=%d", N, T, early, kind[0]);
    {
        auto s = std::make_unique<stop_source>(); stop_token tok = s->get_token();
        std::thread w, r;
        auto request = [&pay](stop_source s) { pay = 5; rt_set(REQ, 1); s.request_stop(); };
        if (early) request(*s);
        int split = T ? (int)rt_rand(N + 1) : N;
        if (!early) r = std::thread(request, *s);
        if (split < N) w = std::thread([&, split] { for (int i = split; i < N; ++i) go(kind[i], tok, i, &pay); });
        for (int i = 0; i < split; ++i) go(kind[i], tok, i, &pay);
        if (src_dies) s.reset();
        if (r.joinable()) r.join();
        if (w.joinable()) w.join();
    }
    RT_CHECK(rt_get(TOTAL) == N, "never-resumed");
}

RT_CASE(C16, await_stop_sequential) {
    int N = 1 + (int)rt_rand(3), how = (int)rt_rand(4); rt_desc("waiters=%d how=%d", N, how);
    stop_source s; stop_token t = s.get_token(); struct L { static Drv never(stop_token t, int i) { co_await t; resumed(i, false); } };
    if (how == 0) {                                         // can never be requested: resumes at once
        { stop_token none; L::never(none, 0); L::never(stop_token{}, 1); }
        { stop_token d; { stop_source x; d = x.get_token(); } L::never(d, 2); }
        RT_CHECK(rt_get(TOTAL) == 3, "a-token-that-cannot-be-stopped-suspended"); return;
    }
    if (how == 1) { rt_set(REQ, 1); s.request_stop(); for (int i = 0; i < N; ++i) { go(i % 3, t, i, nullptr); RT_CHECK(rt_get(TOTAL) == i + 1, "a-stopped-token-suspended"); } return; }
    for (int i = 0; i < N; ++i) { go(i % 3, t, i, nullptr); RT_CHECK(!rt_get(RES + i), "resumed-before-stop-was-requested"); }
    rt_set(REQ, 1); s.request_stop();
    RT_CHECK(rt_get(TOTAL) == N, "never-resumed");
}

// through tasks: sync_wait, when_all, eager, awaiting twice, two tokens in turn
RT_CASE_W(C16, await_stop_composed, 2) {
    int how = (int)rt_rand(4); rt_desc("how=%d", how);
    stop_source a, b; std::thread r([a, b]() mutable { rt_set(REQ, 1); a.request_stop(); b.request_stop(); });
    auto both = [](stop_token x, stop_token y, int i) -> task<int> { co_await x; co_await x; co_await y; resumed(i, true); co_return i; };
    if (how == 0) RT_CHECK(sync_wait(waitT(a.get_token(), 0)) == 0, "wrong-result");
    if (how == 1) { auto rs = sync_wait(when_all_ready(waitT(a.get_token(), 0), both(a.get_token(), b.get_token(), 1), waitT(b.get_token(), 2))); RT_CHECK(std::get<0>(rs).result() == 0 && std::get<1>(rs).result() == 1 && std::get<2>(rs).result() == 2, "wrong-result"); }
    if (how == 2) { auto e = make_eager(both(a.get_token(), b.get_token(), 0)); RT_CHECK(sync_wait(std::move(e)) == 0, "wrong-result"); }
    if (how == 3) { auto bl = make_blocking(both(b.get_token(), a.get_token(), 0)); RT_CHECK(bl.get() == 0, "wrong-result"); }
    r.join();
}

// a task waiting on a token may be destroyed while suspended: nobody resumes it then
RT_CASE(C16, await_stop_destroyed) {
    int N = 1 + (int)rt_rand(3), v = (int)rt_rand(N); bool race = coin(); rt_desc("waiters=%d victim=%d race=%d", N, v, race); (void)race;
    struct Own { struct promise_type { Own get_return_object() { return { std::coroutine_handle<promise_type>::from_promise(*this) }; } std::suspend_never initial_suspend() noexcept { return {}; } std::suspend_always final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { rt_fail("unexpected-exception", ""); } }; std::coroutine_handle<promise_type> h; };
    struct L { static Own go(stop_token t, int i) { Guard g; co_await t; resumed(i, true); } };
    stop_source s; std::vector<Own> o; for (int i = 0; i < N; ++i) o.push_back(L::go(s.get_token(), i));
    o[(size_t)v].h.destroy();
    rt_set(REQ, 1); s.request_stop();
    for (int i = 0; i < N; ++i) if (i != v) { RT_CHECK(rt_get(RES + i) == 1, "never-resumed"); RT_CHECK(o[(size_t)i].h.done(), "not-done"); o[(size_t)i].h.destroy(); } else RT_CHECK(!rt_get(RES + i), "a-destroyed-waiter-was-resumed");
}
