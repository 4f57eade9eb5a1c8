// C25: every allocation of an operation is made to fail in turn (and the creation of threads): the operation
// throws, nothing is leaked, and what it was applied to can still be used.
#include "hx.h"
#include <chrono>
#include <new>
#include <system_error>
#include "macoro/channel.h"
#include "macoro/result.h"
#include "macoro/start_on.h"
#include "macoro/stop.h"
#include "macoro/sync_wait.h"
#include "macoro/take_until.h"
#include "macoro/thread_pool.h"
#include "macoro/timeout.h"
#include "macoro/transfer_to.h"
#include "macoro/when_all.h"
#include "macoro/wrap.h"
using namespace macoro;

namespace {
enum { RUNS = 20 };
// op() once for every allocation it makes, with that allocation failing, and once without a failure
template<class F> void each_failure(F&& op) {
    bool keep = one_in(3); int n = 0;
    for (int k = 0; ; ++k) {
        bool threw = false; int64_t vals = rt_get(SL_VAL), guards = rt_get(SL_GUARD); uint64_t live = rt_live_allocs();
        rt_fail_alloc(k, keep);
        try { op(); } catch (std::bad_alloc&) { threw = true; }
        bool failed = rt_alloc_failed(); rt_fail_alloc(-1, 0);
        RT_CHECK(!threw || failed, "bad_alloc-without-a-failed-allocation");
        RT_CHECK(rt_get(SL_VAL) == vals && rt_get(SL_GUARD) == guards, "objects-lost-when-an-allocation-failed");
        RT_CHECK(rt_live_allocs() == live, "memory-lost-when-an-allocation-failed");
        if (!failed) break;
        ++n;
    }
    rt_count("allocations-failed", (uint64_t)n);
}

// ---- trees of coroutines. The values can also be ones whose moves may fail.
bool g_moves_fail;
struct TVal {
    Val v;
    static void may_throw() { if (g_moves_fail) { char* volatile p = (char*)::operator new(1); ::operator delete(p); } }
    explicit TVal(int64_t i) : v(i) {}
    TVal(TVal&& o) noexcept(false) : v((may_throw(), std::move(o.v))) {}
    TVal(const TVal& o) = default;
    TVal& operator=(TVal&& o) noexcept(false) { may_throw(); v = std::move(o.v); return *this; }
    TVal& operator=(const TVal&) = default;
    int64_t get() const { return v.get(); }
};
struct Nd { int kind; bool retry, thr; std::vector<int> kids; };
struct Prog {
    std::vector<Nd> n;
    int make(int depth) {
        int i = (int)n.size(); n.push_back({ (int)rt_rand(4), coin(), one_in(6), {} });
        if (depth) { int k = (int)rt_rand(3); for (int j = 0; j < k; ++j) { int c = make(depth - 1); n[(size_t)i].kids.push_back(c); } }
        return i;
    }
    int64_t expect(int i) const { int64_t s = i + 1; for (int k : n[(size_t)i].kids) s += n[(size_t)k].thr ? 1000 : expect(k); return s; }
};
task<TVal> lz(Prog*, int, TVal); task<TVal> lzMC(Prog*, int, TVal); eager_task<TVal> eg(Prog*, int, TVal); eager_task<TVal> egMC(Prog*, int, TVal);
template<class Tk> Tk body(Prog* p, int i, TVal a) {
    Guard g; int64_t s = a.get();
    for (int k : p->n[(size_t)i].kids) {
        for (bool again = true; again;) {
            again = false;
            try {
                switch (p->n[(size_t)k].kind) {
                case 0: { TVal v = co_await lz(p, k, TVal(k + 1)); s += v.get(); break; }
                case 1: { TVal v = co_await lzMC(p, k, TVal(k + 1)); s += v.get(); break; }
                case 2: { TVal v = co_await eg(p, k, TVal(k + 1)); s += v.get(); break; }
                default: { TVal v = co_await egMC(p, k, TVal(k + 1)); s += v.get(); break; }
                }
            }
            catch (Exc& e) { RT_CHECK(e.id == k, "wrong-exception"); s += 1000; }
            catch (std::bad_alloc&) { RT_CHECK(rt_alloc_failed(), "bad_alloc-without-a-failed-allocation"); if (!p->n[(size_t)i].retry) throw; rt_fail_alloc(-1, 0); again = true; }
        }
    }
    if (p->n[(size_t)i].thr) throw Exc(i);
    co_return TVal(s);
}
task<TVal> lz(Prog* p, int i, TVal a) { return body<task<TVal>>(p, i, std::move(a)); }
eager_task<TVal> eg(Prog* p, int i, TVal a) { return body<eager_task<TVal>>(p, i, std::move(a)); }
// looks at the outcome of child k of i: true if it has to be called again
bool outcome(Prog* p, int i, int k, result<TVal>& r, int64_t& s) {
    if (r.has_value()) { s += r.value().get(); return false; }
    try { std::rethrow_exception(r.error()); }
    catch (Exc& e) { RT_CHECK(e.id == k, "wrong-exception"); s += 1000; }
    catch (std::bad_alloc&) { RT_CHECK(rt_alloc_failed(), "bad_alloc-without-a-failed-allocation"); if (!p->n[(size_t)i].retry) throw; rt_fail_alloc(-1, 0); return true; }
    return false;
}
template<class Tk> Tk bodyMC(Prog* p, int i, TVal a_) {
    MC_BEGIN(Tk, p, i, a = std::move(a_), g = Guard(), s = int64_t(0), j = size_t(0), k = 0, r = result<TVal>(Err(std::exception_ptr())));
    s = a.get();
    for (j = 0; j < p->n[(size_t)i].kids.size(); ++j) {
        k = p->n[(size_t)i].kids[j];
        do {
            if (p->n[(size_t)k].kind == 0) MC_AWAIT_TRY(r, lz(p, k, TVal(k + 1)));
            else if (p->n[(size_t)k].kind == 1) MC_AWAIT_TRY(r, lzMC(p, k, TVal(k + 1)));
            else if (p->n[(size_t)k].kind == 2) MC_AWAIT_TRY(r, eg(p, k, TVal(k + 1)));
            else MC_AWAIT_TRY(r, egMC(p, k, TVal(k + 1)));
        } while (outcome(p, i, k, r, s));
    }
    if (p->n[(size_t)i].thr) throw Exc(i);
    MC_RETURN(TVal(s));
    MC_END();
}
task<TVal> lzMC(Prog* p, int i, TVal a) { return bodyMC<task<TVal>>(p, i, std::move(a)); }
eager_task<TVal> egMC(Prog* p, int i, TVal a) { return bodyMC<eager_task<TVal>>(p, i, std::move(a)); }
}

RT_CASE(C25, oom_tasks) {
    Prog p; p.make(2); p.n[0].thr = false; int how = (int)rt_rand(4);
    g_moves_fail = one_in(3); rt_desc("nodes=%d how=%d moves=%d", (int)p.n.size(), how, g_moves_fail);
    each_failure([&] {
        TVal v = how == 0 ? sync_wait(lz(&p, 0, TVal(1))) : how == 1 ? sync_wait(eg(&p, 0, TVal(1))) : how == 2 ? make_blocking(lz(&p, 0, TVal(1))).get() : sync_wait(wrap(lz(&p, 0, TVal(1)))).value();
        RT_CHECK(v.get() == p.expect(0), "wrong-result");
    });
}

// when_all_ready of a vector or of several arguments
namespace {
task<int64_t> all_vec(Prog* p, int n, bool lval) {
    std::vector<task<TVal>> v; int64_t s = 0; bool lost = false;
    for (int i = 0; i < n; ++i) v.push_back(coin() ? lz(p, 0, TVal(1)) : lzMC(p, 0, TVal(1)));
    auto add = [&](auto&& t) { try { RT_CHECK(t.result().get() == p->expect(0), "wrong-result"); s += p->expect(0); } catch (std::bad_alloc&) { RT_CHECK(rt_alloc_failed(), "bad_alloc-without-a-failed-allocation"); lost = true; } };
    if (lval) { auto w = when_all_ready(std::move(v)); auto&& r = co_await w; RT_CHECK((int)r.size() == n, "wrong-number-of-results"); for (auto& t : r) add(t); }
    else { auto r = co_await when_all_ready(std::move(v)); RT_CHECK((int)r.size() == n, "wrong-number-of-results"); for (auto& t : r) add(t); }
    if (lost) throw std::bad_alloc();
    co_return s;
}
task<int64_t> all_tup(Prog* p) {
    int64_t s = 0; bool lost = false;
    auto add = [&](auto&& t) { try { RT_CHECK(t.result().get() == p->expect(0), "wrong-result"); s += p->expect(0); } catch (std::bad_alloc&) { RT_CHECK(rt_alloc_failed(), "bad_alloc-without-a-failed-allocation"); lost = true; } };
    auto r = co_await when_all_ready(lz(p, 0, TVal(1)), egMC(p, 0, TVal(1)), lzMC(p, 0, TVal(1)), eg(p, 0, TVal(1)));
    add(std::get<0>(r)); add(std::get<1>(r)); add(std::get<2>(r)); add(std::get<3>(r));
    if (lost) throw std::bad_alloc();
    co_return s;
}
}
RT_CASE(C25, oom_when_all) {
    Prog p; p.make(1); p.n[0].thr = false; int n = (int)rt_rand(4), how = (int)rt_rand(3);
    g_moves_fail = one_in(3); rt_desc("nodes=%d how=%d n=%d moves=%d", (int)p.n.size(), how, n, g_moves_fail);
    each_failure([&] {
        int64_t s = how < 2 ? sync_wait(all_vec(&p, n, how == 1)) : make_blocking(all_tup(&p)).get();
        RT_CHECK(s == p.expect(0) * (how < 2 ? n : 4), "wrong-result");
    });
}

// a callback that could not be registered never runs, the others run once
namespace {
struct Reg { std::unique_ptr<stop_callback> c; int ran = 0; };
template<class F> void try_register(Reg& r, const stop_token& t, bool keep, int k, F) {
    rt_fail_alloc(k, keep);
    try { r.c = std::make_unique<stop_callback>(t, [v = Val(1), &r] { RT_CHECK(v.get() == 1, "callback-state-lost"); ++r.ran; }); }
    catch (std::bad_alloc&) { RT_CHECK(rt_alloc_failed(), "bad_alloc-without-a-failed-allocation"); rt_count("registrations-failed", 1); }
    rt_fail_alloc(-1, 0);
}
}
RT_CASE(C25, oom_stop) {
    int n = coin() ? 1 + (int)rt_rand(4) : 10 + (int)rt_rand(60); bool keep = coin();
    rt_desc("n=%d keep=%d", n, keep);
    each_failure([&] { stop_source s; stop_token t = s.get_token(); stop_source s2 = s; RT_CHECK(t.stop_possible() && !s2.stop_requested(), "token-state"); });
    {
        stop_source s; std::deque<Reg> r((size_t)n);
        for (int i = 0; i < n; ++i) {
            try_register(r[(size_t)i], s.get_token(), keep, (int)rt_rand(5), 0);
            if (!r[(size_t)i].c && coin()) try_register(r[(size_t)i], s.get_token(), keep, -1, 0);
            if (one_in(4)) { auto& x = r[rt_rand((uint64_t)i + 1)]; x.c.reset(); }
        }
        for (auto& x : r) RT_CHECK(x.ran == 0, "callback-ran-without-a-request");
        s.request_stop();
        for (auto& x : r) { RT_CHECK(x.ran == (x.c ? 1 : 0), x.c ? "callback-registered-when-stop-was-requested-never-ran" : "callback-ran-after-its-removal"); }
        Reg late; try_register(late, s.get_token(), keep, (int)rt_rand(4), 0);
        RT_CHECK(late.ran == (late.c ? 1 : 0), "callback-registered-after-the-request-did-not-run-in-its-constructor");
    }
}
// the same while other threads register, remove and request
RT_CASE_W(C25, oom_stop_race, 2) {
    int T = 1 + (int)rt_rand(2), n = 1 + (int)rt_rand(3); bool keep = coin(), req = coin();
    rt_desc("threads=%d n=%d keep=%d req=%d", T, n, keep, req);
    stop_source s; std::vector<std::deque<Reg>> r((size_t)T); std::vector<std::vector<int>> ks((size_t)T); std::vector<std::thread> th;
    for (int t = 0; t < T; ++t) { r[(size_t)t] = std::deque<Reg>((size_t)n); for (int i = 0; i < n; ++i) ks[(size_t)t].push_back((int)rt_rand(6) - 1); }
    for (int t = 0; t < T; ++t) th.emplace_back([&, t] { for (int i = 0; i < n; ++i) { try_register(r[(size_t)t][(size_t)i], s.get_token(), keep, ks[(size_t)t][(size_t)i], 0); if (ks[(size_t)t][(size_t)i] & 1) r[(size_t)t][0].c.reset(); } });
    if (req) s.request_stop();
    for (auto& t : th) t.join();
    if (!req) s.request_stop();
    for (auto& v : r) for (auto& x : v) RT_CHECK(x.c ? x.ran == 1 : x.ran <= (int)req, x.c ? "callback-registered-when-stop-was-requested-never-ran" : "callback-ran-after-its-removal");
}

// results whose new value cannot be copied keep what they hold
RT_CASE(C25, oom_result) {
    bool sv = coin(), dv = coin(); int how = (int)rt_rand(2); rt_desc("source=%s target=%s how=%d", sv ? "value" : "error", dv ? "value" : "error", how);
    result<Val, Val> src = sv ? result<Val, Val>(Ok(Val(3))) : result<Val, Val>(Err(Val(4)));
    auto is = [](result<Val, Val>& r, bool v, int64_t x) { return r.has_value() == v && (v ? r.value().get() : r.error().get()) == x; };
    each_failure([&] { result<Val, Val> b = src; RT_CHECK(is(b, sv, sv ? 3 : 4), "wrong-copy"); });
    RT_CHECK(is(src, sv, sv ? 3 : 4), "source-of-a-failed-copy-changed");
    const Val x(sv ? 3 : 4);
    auto assign = [&](result<Val, Val>& d) { if (how == 0) d = src; else if (sv) d = Ok(x); else d = Err(x); };
    each_failure([&] {
        result<Val, Val> d = dv ? result<Val, Val>(Ok(Val(5))) : result<Val, Val>(Err(Val(6)));
        try { assign(d); RT_CHECK(is(d, sv, sv ? 3 : 4), "wrong-copy"); }
        catch (std::bad_alloc&) { RT_CHECK(is(d, dv, dv ? 5 : 6), "target-of-a-failed-assignment-changed"); rt_fail_alloc(-1, 0); assign(d); RT_CHECK(is(d, sv, sv ? 3 : 4), "wrong-copy"); }
    });
    result<void, Val> vs = Ok(); if (!sv) vs = Err(Val(4));
    auto isv = [](result<void, Val>& r, bool v, int64_t x) { return r.has_value() == v && (v || r.error().get() == x); };
    auto assignv = [&](result<void, Val>& d) { if (how == 0) d = vs; else if (sv) d = Ok(); else d = Err(x); };
    each_failure([&] {
        result<void, Val> d = Ok(); if (!dv) d = Err(Val(6));
        try { assignv(d); RT_CHECK(isv(d, sv, 4), "wrong-copy"); }
        catch (std::bad_alloc&) { RT_CHECK(isv(d, dv, 6), "target-of-a-failed-assignment-changed"); rt_fail_alloc(-1, 0); assignv(d); RT_CHECK(isv(d, sv, 4), "wrong-copy"); }
    });
    RT_CHECK(is(src, sv, sv ? 3 : 4), "source-of-a-failed-copy-changed");
    each_failure([&] { Val v = src.has_value() ? src.value() : src.error(); Val w = src.value_or(Val(7)); RT_CHECK(v.get() == (sv ? 3 : 4) && w.get() == (sv ? 3 : 7), "wrong-copy"); });
}

// a channel that cannot be made, and messages that cannot be copied into it
namespace {
template<class Ch> task<void> send(Ch& c, std::vector<int> ks, bool keep) {
    for (size_t i = 0; i < ks.size(); ++i) {
        const Val v((int64_t)i + 1);
        if (ks[i] & 1) { auto w = co_await c.push(); bool again = true; rt_fail_alloc(ks[i] / 2, keep); try { w = v; again = false; } catch (std::bad_alloc&) {} rt_fail_alloc(-1, 0); if (again) w = v; w.publish(); }
        else for (bool again = true; again;) { again = false; try { rt_fail_alloc(ks[i] / 2, keep); auto a = c.push(Val(v)); rt_fail_alloc(-1, 0); co_await std::move(a); } catch (std::bad_alloc&) { again = true; ks[i] = 100; rt_fail_alloc(-1, 0); } }
    }
    co_await c.close();
}
template<class Ch> task<void> receive(Ch& c, int n) {
    int i = 0; bool closed = false;
    while (!closed) { try { auto w = co_await c.pop(); Val v = *w; RT_CHECK(v.get() == ++i, "message-lost-or-out-of-order"); } catch (channel_closed_exception&) { closed = true; } }
    RT_CHECK(i == n, "closed-before-the-last-message");
}
template<class Ch> void chan_case() {
    int n = 1 + (int)rt_rand(4), cap = 1 << rt_rand(3); bool keep = coin(); std::vector<int> ks; for (int i = 0; i < n; ++i) ks.push_back((int)rt_rand(6));
    rt_desc("n=%d cap=%d keep=%d", n, cap, keep);
    each_failure([&] { auto c = std::make_shared<Ch>((size_t)cap); });
    Ch c((size_t)cap);
    std::thread th([&] { sync_wait(receive(c, n)); });
    sync_wait(send(c, ks, keep));
    th.join();
}
}
RT_CASE(C25, oom_channel) { if (coin()) chan_case<spsc::channel<Val>>(); else chan_case<mpsc::channel<Val>>(); }

// a coroutine that cannot be posted goes on where it was; nothing else of the pool changes
namespace {
// the allocations that awaiting A makes before the coroutine is suspended fail
template<class A> struct Armed {
    A a; int k; bool keep;
    bool await_ready() { return a.await_ready(); }
    template<class H> auto await_suspend(H h) { struct Off { ~Off() { rt_fail_alloc(-1, 0); } } off; rt_fail_alloc(k, keep); return a.await_suspend(h); }
    void await_resume() { a.await_resume(); }
};
template<class F> auto armed(F f, int k, bool keep) -> Armed<decltype(f())> { return { f(), k, keep }; }
enum { RESUMED = 64 };
task<void> hopper(thread_pool& p, int id, std::vector<int> ops, bool keep, stop_token tok) {
    Guard g; int n = 0; bool failed = false;
    for (int op : ops) {
        int k = op / 4 - 1; int tid = rt_tid(); failed = false; uint64_t s = rt_now();
        try {
            switch (op % 4) {
            case 0: co_await armed([&] { return p.post(); }, k, keep); break;
            case 1: co_await armed([&] { return p.dispatch(); }, k, keep); break;
            default: co_await armed([&] { return p.schedule_after(std::chrono::nanoseconds(op * 10), tok); }, k, keep); if (!tok.stop_requested()) RT_CHECK(rt_now() >= s + (uint64_t)op * 10, "resumed-early"); break;
            }
        }
        catch (std::bad_alloc&) { RT_CHECK(tid == rt_tid() && rt_alloc_failed(), "bad_alloc-without-a-failed-allocation"); failed = true; rt_count("posts-failed", 1); }
        RT_CHECK(rt_add(RESUMED + id, 1) == ++n, "posted-coroutine-resumed-twice");
    }
    if (failed) co_await p.post();
}
}
RT_CASE_W(C25, oom_pool, 2) {
    int T = 1 + (int)rt_rand(2), n = 1 + (int)rt_rand(3); bool keep = coin(), early = coin(), stop = one_in(3); rt_desc("threads=%d n=%d keep=%d early=%d stop=%d", T, n, keep, early, stop);
    std::vector<std::vector<int>> ops((size_t)n); for (auto& o : ops) { int m = 1 + (int)rt_rand(4); for (int i = 0; i < m; ++i) o.push_back((int)rt_rand(24)); }
    {
        thread_pool p; auto w = p.make_work(); stop_source src;
        if (early) p.create_threads((size_t)T);
        std::deque<blocking_task<task<void>>> b;
        for (int i = 0; i < n; ++i) b.push_back(make_blocking(hopper(p, i, ops[(size_t)i], keep, src.get_token())));
        if (!early) p.create_threads((size_t)T);
        if (stop) src.request_stop();
        for (auto& x : b) x.get();
        w.reset(); p.join();
        for (int i = 0; i < n; ++i) RT_CHECK(rt_get(RESUMED + i) == (int64_t)ops[(size_t)i].size(), "posted-coroutine-lost");
    }
}

// threads that cannot be created
RT_CASE(C25, threads_exhausted) {
    int n = 1 + (int)rt_rand(3), k = (int)rt_rand(4), posts = (int)rt_rand(3); bool ctor = one_in(3), mem = coin(), keep = coin();
    rt_desc("n=%d k=%d posts=%d ctor=%d mem=%d", n, k, posts, ctor, mem);
    auto create = [&](auto&& f) {
        bool threw = false;
        if (mem) rt_fail_alloc(k, keep); else rt_fail_thread(k);
        try { f(); } catch (std::bad_alloc&) { threw = true; RT_CHECK(mem && rt_alloc_failed(), "bad_alloc-without-a-failed-allocation"); } catch (std::system_error& e) { threw = true; RT_CHECK(!mem && e.code() == std::errc::resource_unavailable_try_again, "wrong-exception"); }
        rt_fail_alloc(-1, 0); rt_fail_thread(-1);
        RT_CHECK(threw == (mem ? rt_alloc_failed() != 0 : k < n), "failure-to-create-a-thread-not-reported");
        if (threw) rt_count("thread-creations-failed", 1);
        return threw;
    };
    auto job = [](thread_pool& p) -> task<void> { co_await p.post(); rt_add(RUNS, 1); };
    if (ctor) {
        thread_pool::work w; std::optional<thread_pool> p;
        bool threw = create([&] { p.emplace((size_t)n, w); });
        if (!threw) { for (int i = 0; i < posts; ++i) sync_wait(job(*p)); RT_CHECK(rt_get(RUNS) == posts, "posted-coroutine-lost"); w.reset(); }
        w.reset();
    } else {
        thread_pool p; auto w = p.make_work(); std::deque<blocking_task<task<void>>> b;
        for (int i = 0; i < posts; ++i) b.push_back(make_blocking(job(p)));
        bool threw = create([&] { p.create_threads((size_t)n); });
        if (!threw || (!mem && k > 0)) { for (auto& x : b) x.get(); RT_CHECK(rt_get(RUNS) == posts, "posted-coroutine-lost"); }
        if (threw) p.create_thread();
        for (auto& x : b) x.get();
        sync_wait(job(p)); RT_CHECK(rt_get(RUNS) == posts + 1, "posted-coroutine-lost");
        w.reset(); p.join();
    }
}

// timeouts, take_until and start_on. What was started is awaited whatever happens: until then it may not be destroyed.
namespace {
task<Val> op_of(thread_pool& p, int d) { Guard g; co_await p.schedule_after(std::chrono::nanoseconds(d)); co_return Val(9); }
struct TimeoutRef { timeout* t; void request_stop() { t->request_stop(); } auto operator co_await() { return t->MACORO_OPERATOR_COAWAIT(); } };
}
RT_CASE(C25, oom_timeout) {
    int d = (int)rt_rand(200), t = (int)rt_rand(200), how = (int)rt_rand(4); bool outer = coin(); rt_desc("d=%d t=%d how=%d outer=%d", d, t, how, outer);
    thread_pool::work w; thread_pool p(1, w); stop_source out;
    bool keep = one_in(3); int n = 0;
    for (int k = 0; ; ++k) {
        bool threw = false, failed = false; auto off = [&] { failed = failed || rt_alloc_failed(); rt_fail_alloc(-1, 0); };
        auto wait = [&](auto&& e) { Val v = sync_wait(std::move(e)); RT_CHECK(v.get() == 9, "wrong-result"); };
        if (how < 2) {
            timeout to; stop_token tk;
            rt_fail_alloc(k, keep);
            try {
                if (outer) to.reset(p, std::chrono::nanoseconds(t), out.get_token()); else to.reset(p, std::chrono::nanoseconds(t));
                tk = to.get_token();
                if (how == 0) sync_wait(to);
                else { Val v = sync_wait(take_until(op_of(p, d), TimeoutRef{ &to })); RT_CHECK(v.get() == 9, "wrong-result"); }
            } catch (std::bad_alloc&) { threw = true; }
            off();
            if (tk.stop_possible()) { if (coin()) to.request_stop(); sync_wait(to); RT_CHECK(tk.stop_requested(), "token-not-stopped-by-the-timeout"); }
        } else {
            std::optional<eager_task<Val>> e;
            rt_fail_alloc(k, keep);
            try { if (how == 2) e.emplace(start_on(p, op_of(p, d))); else e.emplace(op_of(p, d) | start_on(p)); } catch (std::bad_alloc&) { threw = true; }
            off();
            if (e) { try { wait(std::move(*e)); } catch (std::bad_alloc&) { threw = true; } }
        }
        RT_CHECK(!threw || failed, "bad_alloc-without-a-failed-allocation");
        if (!failed) break;
        ++n;
    }
    rt_count("allocations-failed", (uint64_t)n);
    w.reset(); p.join();
}
