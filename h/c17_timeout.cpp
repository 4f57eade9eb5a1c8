// C17: timeout and take_until
#include "hx.h"
#include <chrono>
#include <algorithm>
#include "macoro/take_until.h"
#include "macoro/timeout.h"
#include "macoro/thread_pool.h"
#include "macoro/sync_wait.h"
#include "macoro/when_all.h"
using namespace macoro;

namespace {
enum { ASKED = 20, OPDONE = 21, UNTILSTOP = 22, UNTILDONE = 23, COMPLETED = 24, CB = 25, ASKTIME = 26 };
using ns = std::chrono::nanoseconds;
constexpr uint64_t HOUR = 3600ull * 1000000000ull;
uint64_t some_delay() { switch (rt_rand(4)) { case 0: return 0; case 1: return 1 + rt_rand(300); case 2: return 1000 * (1 + rt_rand(1000)); default: return HOUR; } }
void ask() { if (!rt_get(ASKED)) { rt_set(ASKTIME, (int64_t)rt_now()); rt_set(ASKED, 1); } }
void check_token(const stop_token& t, uint64_t deadline) {
    bool r = t.stop_requested();
    if (r && !rt_get(ASKED)) RT_CHECK(rt_now() >= deadline, "stopped-before-the-delay-had-elapsed-and-nobody-asked");
    rt_count(r ? "token-stopped" : "token-live", 1);
}
}

// a timeout, its tokens, an outer token, moves of it, and everything racing
RT_CASE_W(C17, timeout_race, 4) {
    int moves = (int)rt_rand(3), outer = (int)rt_rand(3), T = 1 + (int)rt_rand(2); bool req = coin(), early_outer = one_in(6), cb = coin(); uint64_t d = some_delay(), after = coin() ? 0 : rt_rand(2000);
    rt_desc("d=%llu outer=%d req=%d moves=%d threads=%d after=%llu early=%d", (unsigned long long)d, outer, req, moves, T, (unsigned long long)after, early_outer);
    {
        thread_pool::work w; thread_pool p((size_t)T, w); stop_source out; std::thread a, b;
        if (outer && early_outer) { ask(); out.request_stop(); }
        uint64_t s = rt_now();
        auto to = outer ? timeout(p, ns(d), out.get_token()) : timeout(p, ns(d));
        stop_token t0 = to.get_token(); auto src0 = to.get_source();
        RT_CHECK(t0.stop_possible(), "timeout-token-cannot-be-stopped");
        std::optional<stop_callback> c; if (cb) c.emplace(t0, [s, d] { RT_CHECK(rt_add(CB, 1) == 1, "callback-ran-twice"); if (!rt_get(ASKED)) RT_CHECK(rt_now() >= s + d, "stopped-before-the-delay-had-elapsed-and-nobody-asked"); });
        check_token(t0, s + d);
        if (outer == 2 && !early_outer) a = std::thread([o = out, after]() mutable { if (after) rt_sleep(after); ask(); o.request_stop(); });
        std::unique_ptr<timeout> m; timeout fin;
        if (moves) m = std::make_unique<timeout>(std::move(to)); else fin = std::move(to);
        if (moves == 2) { timeout x; x = std::move(*m); check_token(x.get_token(), s + d); fin = std::move(x); } else if (moves == 1) fin = std::move(*m);
        m.reset();
        if (req) b = std::thread([&, after] { if (after) rt_sleep(after / 2); ask(); fin.request_stop(); RT_CHECK(fin.get_token().stop_requested(), "token-not-stopped-after-request_stop"); });
        check_token(t0, s + d);
        auto wt = [](timeout& t, stop_token t0, uint64_t end) -> task<void> { co_await t; RT_CHECK(t0.stop_requested(), "awaiting-the-timeout-completed-before-its-tokens-were-stopped");
            RT_CHECK(t.get_token().stop_requested(), "moved-timeout-lost-its-tokens"); check_token(t0, end); rt_add(COMPLETED, 1); };
        sync_wait(wt(fin, t0, s + d));
        RT_CHECK(rt_get(COMPLETED) == 1, "await-did-not-complete-once");
        RT_CHECK(src0.stop_requested(), "source-not-stopped");
        if (a.joinable()) a.join();
        if (b.joinable()) b.join();
        if (cb) { c.reset(); RT_CHECK(rt_get(CB) == 1, "callback-registered-when-stop-was-requested-never-ran"); }
        w.reset();
        p.join();
    }
}

// stopping it ends the wait at once; moved or not; through the outer token or itself
RT_CASE_W(C17, timeout_prompt, 2) {
    rt_no_time_jumps();
    int how = (int)rt_rand(6), T = 1 + (int)rt_rand(2), mv = (int)rt_rand(5); uint64_t after = 1000 * rt_rand(500);
    rt_desc("how=%d threads=%d moved=%d after=%llu", how, T, mv, (unsigned long long)after);
    uint64_t stopped = 0;
    {
        thread_pool::work w; thread_pool p((size_t)T, w); stop_source out; std::thread a;
        if (how == 0) { stopped = rt_now(); ask(); out.request_stop(); }
        auto t0 = std::make_unique<timeout>(p, ns(HOUR), how < 3 ? out.get_token() : stop_token{});
        auto src = t0->get_source();
        // 1 moved, 2 moved and the source of the move destroyed, 3 and 4 the same by construction
        std::unique_ptr<timeout> t1; timeout* t = t0.get();
        if (mv) {
            if (mv <= 2) { t1 = std::make_unique<timeout>(); *t1 = std::move(*t0); } else t1 = std::make_unique<timeout>(std::move(*t0));
            if (mv % 2 == 0) t0.reset(); else RT_CHECK(t0->get_token().stop_possible(), "timeout-token-cannot-be-stopped");   // f(t.get_token(), std::move(t))
            t = t1.get();
        }
        auto go = [&] { if (after) rt_sleep(after); ask(); stopped = rt_now(); if (how == 1 || how == 2) out.request_stop(); else if (how == 5) src.request_stop(); else t->request_stop(); };
        if (how == 1 || how == 3 || how == 5) go(); else if (how) a = std::thread(go);
        auto wt = [](timeout* t) -> task<void> { co_await *t; };
        sync_wait(wt(t));
        if (a.joinable()) a.join();
        RT_CHECK(rt_get(ASKED), "stopped-before-the-delay-had-elapsed-and-nobody-asked");
        if (t0) RT_CHECK(t0->get_token().stop_requested() && t0->get_source().stop_requested(), "moved-timeout-lost-its-tokens");
        w.reset(); p.join();
    }
    RT_CHECK(rt_now() < stopped + 1000000000ull, "stop-did-not-end-the-wait");
    rt_count("prompt", 1);
}
// and expiry comes neither early nor late; the object can be reset and used again
RT_CASE(C17, timeout_expiry) {
    rt_no_time_jumps();
    int n = 1 + (int)rt_rand(3); rt_desc("rounds=%d", n);
    thread_pool::work w; thread_pool p(1 + rt_rand(2), w); timeout t;
    for (int i = 0; i < n; ++i) {
        uint64_t d = 1000000 * rt_rand(5), s = rt_now();
        t.reset(p, ns(d)); stop_token tok = t.get_token();
        check_token(tok, s + d);
        if (coin()) rt_sleep(d / 2), check_token(tok, s + d);
        auto wt = [](timeout* t) -> task<void> { co_await *t; };
        sync_wait(wt(&t));
        RT_CHECK(tok.stop_requested(), "awaiting-the-timeout-completed-before-its-tokens-were-stopped");
        RT_CHECK(rt_now() >= s + d, "stopped-before-the-delay-had-elapsed-and-nobody-asked");
        RT_CHECK(rt_now() < s + d + 1000000, "expired-long-after-the-delay");
        rt_count("expiries", 1);
    }
    w.reset(); p.join();
}

// each time it is reset it follows the token it is given then, and no earlier one
RT_CASE(C17, timeout_reset_follows_new_token) {
    rt_no_time_jumps();
    int n = 2 + (int)rt_rand(3); rt_desc("rounds=%d", n);
    thread_pool::work w; thread_pool p(1 + rt_rand(2), w); timeout t; std::vector<stop_source> old;
    auto wt = [](timeout* t) -> task<void> { co_await *t; };
    for (int i = 0; i < n; ++i) {
        int how = (int)rt_rand(4); uint64_t d = how == 3 ? 2000000 : HOUR, s = rt_now(); stop_source out; std::thread a;
        if (how == 0 || how == 1 || coin()) t.reset(p, ns(d), out.get_token()); else t.reset(p, ns(d));
        stop_token tok = t.get_token();
        if (old.size() && coin()) { for (auto& o : old) o.request_stop(); RT_CHECK(!tok.stop_requested() || rt_now() >= s + d, "stopped-by-a-token-of-an-earlier-reset"); }
        auto stop = [&] { if (how == 2) t.request_stop(); else out.request_stop(); RT_CHECK(tok.stop_requested(), "token-not-stopped-after-request_stop"); };
        if (how == 0 || how == 2) stop(); else if (how == 1) a = std::thread([&] { rt_sleep(rt_rand(100000)); stop(); });
        sync_wait(wt(&t));
        if (a.joinable()) a.join();
        RT_CHECK(tok.stop_requested(), "awaiting-the-timeout-completed-before-its-tokens-were-stopped");
        if (how == 3) RT_CHECK(rt_now() >= s + d, "stopped-before-the-delay-had-elapsed-and-nobody-asked");
        else RT_CHECK(rt_now() < s + 1000000000ull, "stop-did-not-end-the-wait");
        old.push_back(out); rt_count("resets", 1);
    }
    w.reset(); p.join();
}

// ------------------------------------------------------------- take_until
namespace {
// something to take until: counts what is done to it
struct Until {
    Gate* opened;       // completes when both stopped and opened
    bool throws; bool mine = true;
    Until(Gate* g, bool t) : opened(g), throws(t) { rt_add(14, 1); }
    Until(Until&& o) : opened(o.opened), throws(o.throws) { o.mine = false; rt_add(14, 1); }
    ~Until() { rt_add(14, -1); }
    void request_stop() {
        RT_CHECK(mine, "request_stop-on-a-moved-from-object");
        RT_CHECK(rt_get(OPDONE), "stop-requested-on-until-before-the-operation-was-done");
        RT_CHECK(rt_add(UNTILSTOP, 1) == 1, "stop-requested-twice-on-until");
    }
    struct Aw { Gate* g; bool throws; bool await_ready() { return g->await_ready(); } bool await_suspend(std::coroutine_handle<> h) { return g->try_wait(h.address()); }
        int await_resume() { RT_CHECK(rt_add(UNTILDONE, 1) == 1, "until-awaited-twice"); if (throws) throw Exc(99); return 7; } };
    Aw operator co_await() && { RT_CHECK(rt_get(UNTILSTOP) == 1, "until-awaited-before-stop-was-requested-on-it"); return { opened, throws }; }
};
struct Done { ~Done() { rt_set(OPDONE, 1); } };      // the operation's frame is left
template<class T> task<T> op20(GateRef g, int how, int64_t id, T* ref) {
    Done d; co_await g;
    if (how) throw Exc(id);
    if constexpr (std::is_void_v<T>) co_return; else co_return T(id); (void)ref;
}
task<Val&> opref(GateRef g, int how, int64_t id, Val* ref) { Done d; co_await g; if (how) throw Exc(id); co_return *ref; }
task<Val> opMC(GateRef g, int how, int64_t id, Val*) { MC_BEGIN(task<Val>, g, how, id); MC_AWAIT(g); rt_set(OPDONE, 1); if (how) throw Exc(id); MC_RETURN(Val(id)); MC_END(); }
}
RT_CASE_W(C17, take_until_any, 4) {
    int kind = (int)rt_rand(6), how = one_in(3), ut = one_in(3), W = 1 + (int)rt_rand(2); rt_desc("kind=%d op-throws=%d until-throws=%d workers=%d", kind, how, ut, W);
    { Workers w(W); Gate* g = w.gate(); Gate* u = w.gate(); std::unique_ptr<Val> target(new Val(77)); int64_t id = 1 + (int64_t)rt_rand(1000), got = -5, exc = -5;
    bool early = coin(); if (early) w.start();
    auto run = [&](auto op, auto get) {
        // what take_until was given is gone before its result is awaited
        auto given = std::make_unique<decltype(op)>(std::move(op)); auto until = std::make_unique<Until>(u, ut);
        auto t = [&] { switch (rt_rand(2)) { case 0: return take_until(std::move(*given), Until(u, ut)); default: return take_until(std::move(*given), std::move(*until)); } }();
        given.reset(); until.reset();
        RT_CHECK(early || (!rt_get(OPDONE) && !rt_get(UNTILSTOP)), "take_until-started-before-it-was-awaited");
        if (!early) w.start();
        try { get(std::move(t)); } catch (Exc& e) { exc = e.id; }
        RT_CHECK(rt_get(OPDONE) == 1, "completed-before-the-operation");
        RT_CHECK(rt_get(UNTILSTOP) == 1, "stop-not-requested-on-until");
        RT_CHECK(rt_get(UNTILDONE) == 1, "completed-before-until");
    };
    switch (kind) {
    case 0: run(op20<Val>({ g }, how, id, nullptr), [&](auto t) { got = sync_wait(std::move(t)).get(); }); break;
    case 1: run(op20<MVal>({ g }, how, id, nullptr), [&](auto t) { got = sync_wait(std::move(t)).get(); }); break;
    case 2: run(opref({ g }, how, id, target.get()), [&](auto t) { Val& r = sync_wait(std::move(t)); RT_CHECK(&r == target.get(), "not-the-operations-reference"); got = id; }); break;
    case 3: run(op20<void>({ g }, how, id, nullptr), [&](auto t) { sync_wait(std::move(t)); got = id; }); break;
    case 4: run(opMC({ g }, how, id, nullptr), [&](auto t) { got = sync_wait(std::move(t)).get(); }); break;
    case 5: run(make_eager(op20<Val>({ g }, how, id, nullptr)), [&](auto t) { got = sync_wait(std::move(t)).get(); }); break;
    }
    if (how) RT_CHECK(exc == id && got == -5, exc == 99 ? "untils-exception-not-discarded" : "wrong-exception"); else RT_CHECK(got == id && exc == -5, exc == 99 ? "untils-exception-not-discarded" : "wrong-result");
    w.join(); }
    rt_count("take_until", 1);
}

// an operation that ends when it is done or when its timeout stops it
RT_CASE_W(C17, take_until_timeout, 3) {
    int T = 1 + (int)rt_rand(2), how = (int)rt_rand(4), outer = (int)rt_rand(3); uint64_t d = some_delay(), od = some_delay(); bool thr = one_in(3);
    rt_desc("how=%d threads=%d outer=%d d=%llu od=%llu", how, T, outer, (unsigned long long)d, (unsigned long long)od);
    {
        thread_pool::work w; thread_pool p((size_t)T, w); stop_source out; std::thread a;
        struct L {
            static task<int> waits(stop_token t, uint64_t deadline, bool thr) { Done dn; co_await t; check_token(t, deadline); if (thr) throw Exc(4); co_return 1; }
            static task<int> delay(thread_pool* p, uint64_t d, stop_token t, bool thr) { Done dn; co_await p->schedule_after(ns(d), std::move(t)); if (thr) throw Exc(4); co_return 2; }
            static task<int> at_once(bool thr) { Done dn; if (thr) throw Exc(4); co_return 3; }
            static task<int> use(thread_pool* p, int how, uint64_t d, uint64_t od, stop_token outer, bool thr) {
                uint64_t end = rt_now() + d; timeout to(*p, ns(d), outer); stop_token tok = to.get_token(); int r = -1;
                try {
                    if (how == 0) r = co_await take_until(waits(to.get_token(), end, thr), std::move(to));
                    else if (how == 1) r = co_await take_until(delay(p, od, to.get_token(), thr), std::move(to));
                    else if (how == 2) r = co_await take_until(at_once(thr), std::move(to));
                    else { auto e = make_eager(waits(to.get_token(), end, thr)); r = co_await take_until(std::move(e), std::move(to)); }
                } catch (Exc& e) { r = 10 + (int)e.id; }
                RT_CHECK(rt_get(OPDONE), "completed-before-the-operation");
                RT_CHECK(tok.stop_requested(), "stop-not-requested-on-until");
                rt_add(COMPLETED, 1);
                co_return r;
            }
        };
        if (outer == 2) a = std::thread([o = out, od]() mutable { if (od < HOUR) rt_sleep(od); ask(); o.request_stop(); });
        int r = sync_wait(L::use(&p, how, d, od, outer ? out.get_token() : stop_token{}, thr));
        RT_CHECK(r == (thr ? 14 : how == 0 || how == 3 ? 1 : how + 1), "wrong-result");
        RT_CHECK(rt_get(COMPLETED) == 1, "await-did-not-complete-once");
        if (a.joinable()) a.join();
        w.reset(); p.join();
    }
}
// promptly: an operation that finishes at once does not wait out an hour
RT_CASE(C17, take_until_prompt) {
    rt_no_time_jumps(); int T = 1 + (int)rt_rand(2); uint64_t od = 1000 * rt_rand(100), s = rt_now(); rt_desc("threads=%d od=%llu", T, (unsigned long long)od);
    { thread_pool::work w; thread_pool p((size_t)T, w);
      struct L { static task<int> delay(thread_pool* p, uint64_t d) { co_await p->schedule_after(ns(d)); co_return 2; }
                 static task<int> use(thread_pool* p, uint64_t od) { timeout to(*p, ns(HOUR)); co_return co_await take_until(delay(p, od), std::move(to)); } };
      RT_CHECK(sync_wait(L::use(&p, od)) == 2, "wrong-result"); w.reset(); p.join(); }
    RT_CHECK(rt_now() < s + od + 1000000000ull, "waited-out-the-timeout");
}
