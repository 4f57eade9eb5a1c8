// C04: when_all_ready over tuples and vectors.
#include "hx.h"
#include "macoro/when_all.h"
#include "macoro/sync_wait.h"
using namespace macoro;

namespace {
enum { STARTED = 20, DONE = 21, RESUMED = 22, BODYG = 23, ORDER = 24, AWG = 25 };
struct Sh { int data[8] = {}; };

// kinds of children: value, reference, void, move-only; with 0..2 gates; may throw
task<Val> cVal(GateRef g, int ng, GateRef g2, bool thr, Sh* s, int i) {
    RT_CHECK(rt_add(ORDER, 1) == i + 1, "children-not-started-in-order");
    rt_add(STARTED, 1); Guard b(BODYG);
    if (ng > 0) co_await g; if (ng > 1) co_await g2;
    s->data[i] = i + 100; rt_add(DONE, 1);
    if (thr) throw Exc(i); co_return Val(i + 10);
}
task<MVal> cMVal(GateRef g, int ng, GateRef g2, bool thr, Sh* s, int i) {
    MC_BEGIN(task<MVal>, g, ng, g2, thr, s, i, b = std::optional<Guard>());
    RT_CHECK(rt_add(ORDER, 1) == i + 1, "children-not-started-in-order");
    rt_add(STARTED, 1); b.emplace(BODYG);
    if (ng > 0) MC_AWAIT(g);
    if (ng > 1) MC_AWAIT(g2);
    s->data[i] = i + 100; rt_add(DONE, 1);
    if (thr) throw Exc(i);
    MC_RETURN(MVal(i + 10));
    MC_END();
}
task<int&> cRef(GateRef g, int ng, GateRef g2, bool thr, Sh* s, int i) {
    RT_CHECK(rt_add(ORDER, 1) == i + 1, "children-not-started-in-order");
    rt_add(STARTED, 1); Guard b(BODYG);
    if (ng > 0) co_await g; if (ng > 1) co_await g2;
    s->data[i] = i + 100; rt_add(DONE, 1);
    if (thr) throw Exc(i); co_return s->data[i];
}
task<void> cVoid(GateRef g, int ng, GateRef g2, bool thr, Sh* s, int i) {
    RT_CHECK(rt_add(ORDER, 1) == i + 1, "children-not-started-in-order");
    rt_add(STARTED, 1); Guard b(BODYG);
    if (ng > 0) co_await g; if (ng > 1) co_await g2;
    s->data[i] = i + 100; rt_add(DONE, 1);
    if (thr) throw Exc(i);
}
// an awaitable that is not a task
struct CustomAw {
    GateRef g; Sh* s; int i; bool thr; Guard gd{ AWG };
    bool await_ready() { RT_CHECK(rt_add(ORDER, 1) == i + 1, "children-not-started-in-order"); rt_add(STARTED, 1); return false; }
    bool await_suspend(coroutine_handle<> h) { return g.await_suspend(h); }
    bool await_suspend(std::coroutine_handle<> h) { return g.await_suspend(h); }
    int await_resume() { s->data[i] = i + 100; rt_add(DONE, 1); if (thr) throw Exc(i); return i + 10; }
};

struct Spec { int ng[4]; bool thr[4]; };
template<class F> void expect(F&& f, bool thr, int i, Sh* s) {
    bool caught = false;
    try { f(); } catch (Exc& e) { caught = true; RT_CHECK(e.id == i, "exception-of-another-child"); }
    RT_CHECK(caught == thr, "child-outcome-wrong");
}
void all_done(int n, Sh* s) {
    RT_CHECK(rt_add(RESUMED, 1) == 1, "awaiter-resumed-twice");
    RT_CHECK(rt_get(STARTED) == n && rt_get(DONE) == n, "resumed-before-all-children-completed");
    for (int i = 0; i < n; ++i) RT_CHECK(s->data[i] == i + 100, "writes-of-a-child-not-visible");
}
template<class T> int64_t idOf(T&& v) { return v.get(); }

template<class R> void check_tuple(R&& r, const Spec& p, Sh* s) {
    // rvalue and lvalue access
    if (coin()) expect([&] { Val& v = std::get<0>(r).result(); RT_CHECK(v.get() == 10, "result-of-another-child"); }, p.thr[0], 0, s);
    expect([&] { auto v = std::move(std::get<0>(r)).result(); RT_CHECK(v.get() == 10, "result-of-another-child"); }, p.thr[0], 0, s);
    expect([&] { std::get<1>(r).result(); }, p.thr[1], 1, s);
    expect([&] { int& v = std::get<2>(r).result(); RT_CHECK(&v == &s->data[2], "result-of-another-child"); }, p.thr[2], 2, s);
    expect([&] { auto v = std::move(std::get<3>(r)).result(); RT_CHECK(v.get() == 13, "result-of-another-child"); }, p.thr[3], 3, s);
}
Drv run_tuple(GateRef* g, Spec p, Sh* s, bool keep) {
    auto aw = when_all_ready(cVal(g[0], p.ng[0], g[1], p.thr[0], s, 0), cVoid(g[2], p.ng[1], g[3], p.thr[1], s, 1),
        cRef(g[4], p.ng[2], g[5], p.thr[2], s, 2), cMVal(g[6], p.ng[3], g[7], p.thr[3], s, 3));
    RT_CHECK(rt_get(STARTED) == 0, "children-started-before-the-await");
    if (keep) {
        auto r = co_await std::move(aw);
        all_done(4, s); check_tuple(r, p, s);
    }
    else {
        auto&& r = co_await std::move(aw);
        all_done(4, s); check_tuple(r, p, s);
    }
}
task<void> run_tuple_mc_(GateRef* g, Spec p, Sh* s) {
    using T = std::tuple<detail::when_all_task<Val>, detail::when_all_task<void>, detail::when_all_task<int&>, detail::when_all_task<MVal>>;
    MC_BEGIN(task<void>, g, p, s, r = std::optional<T>());
    MC_AWAIT_FN(r.emplace, when_all_ready(cVal(g[0], p.ng[0], g[1], p.thr[0], s, 0), cVoid(g[2], p.ng[1], g[3], p.thr[1], s, 1),
        cRef(g[4], p.ng[2], g[5], p.thr[2], s, 2), cMVal(g[6], p.ng[3], g[7], p.thr[3], s, 3)));
    all_done(4, s); check_tuple(*r, p, s);
    MC_END();
}
Drv run_tuple_mc(GateRef* g, Spec p, Sh* s) { co_await run_tuple_mc_(g, p, s); }
Drv run_tuple_lvalue(GateRef* g, Spec p, Sh* s) {
    auto aw = when_all_ready(cVal(g[0], p.ng[0], g[1], p.thr[0], s, 0), cVoid(g[2], p.ng[1], g[3], p.thr[1], s, 1),
        cRef(g[4], p.ng[2], g[5], p.thr[2], s, 2), cMVal(g[6], p.ng[3], g[7], p.thr[3], s, 3));
    auto& r = co_await aw;
    all_done(4, s);
    if (coin()) { auto& r2 = co_await aw; RT_CHECK(&r2 == &r && rt_get(STARTED) == 4, "awaited-again-started-again"); }     // stays complete
    check_tuple(r, p, s);
}
void sync_tuple(GateRef* g, Spec p, Sh* s) {
    auto r = sync_wait(when_all_ready(cVal(g[0], p.ng[0], g[1], p.thr[0], s, 0), cVoid(g[2], p.ng[1], g[3], p.thr[1], s, 1),
        cRef(g[4], p.ng[2], g[5], p.thr[2], s, 2), cMVal(g[6], p.ng[3], g[7], p.thr[3], s, 3)));
    all_done(4, s); check_tuple(r, p, s);
}
}

RT_CASE_W(C04, when_all_tuple, 3) {
    Spec p; Sh s; bool any = false;
    for (int i = 0; i < 4; ++i) { p.ng[i] = (int)rt_rand(3); p.thr[i] = one_in(4); any |= p.ng[i] > 0; }
    int how = (int)rt_rand(6);
    Workers w(1 + (int)rt_rand(3));
    GateRef g[8]; for (auto& x : g) x.g = w.gate();
    rt_desc("workers=%d how=%d gates=%d%d%d%d throws=%d%d%d%d", (int)w.q.size(), how, p.ng[0], p.ng[1], p.ng[2], p.ng[3], p.thr[0], p.thr[1], p.thr[2], p.thr[3]);
    bool early = coin();
    if (early || how == 4) w.start();
    std::thread t;
    auto go = [&] { if (how == 2) run_tuple_mc(g, p, &s); else if (how == 4) sync_tuple(g, p, &s); else if (how == 5) run_tuple_lvalue(g, p, &s); else run_tuple(g, p, &s, how == 1); };
    if (how == 3) t = std::thread(go); else go();
    if (!any && how != 3) RT_CHECK(rt_get(RESUMED) == 1, "all-children-complete-but-awaiter-suspended");
    if (w.th.empty()) w.start();
    w.join(); if (t.joinable()) t.join();
    RT_CHECK(rt_get(RESUMED) == 1, "awaiter-never-resumed");
    RT_CHECK(rt_get(BODYG) == 0, "child-frame-not-destroyed");
    rt_count("when_all-tuples", 1);
}

namespace {
Drv run_vec(std::vector<task<Val>> v, std::vector<bool> thr, Sh* s, bool keep) {
    int n = (int)v.size();
    auto aw = when_all_ready(std::move(v));
    RT_CHECK(rt_get(STARTED) == 0, "children-started-before-the-await");
    auto check = [&](auto&& r) {
        RT_CHECK((int)r.size() == n, "wrong-number-of-results");
        for (int i = 0; i < n; ++i) {
            expect([&] { RT_CHECK(r[i].result().get() == i + 10, "result-of-another-child"); }, thr[i], i, s);
            if (coin()) expect([&] { auto v = std::move(r[i]).result(); RT_CHECK(v.get() == i + 10, "result-of-another-child"); }, thr[i], i, s);
        }
    };
    if (keep) { auto r = co_await std::move(aw); all_done(n, s); check(r); }
    else { auto&& r = co_await std::move(aw); all_done(n, s); check(r); }
}
}
RT_CASE_W(C04, when_all_vector, 3) {
    int n = (int)rt_rand(6); Sh s; bool keep = coin(), inthread = one_in(3), any = false;
    Workers w(1 + (int)rt_rand(3));
    std::vector<task<Val>> v; std::vector<bool> thr;
    for (int i = 0; i < n; ++i) {
        int ng = (int)rt_rand(3); bool t = one_in(4); any |= ng > 0;
        GateRef a{ w.gate() }, b{ w.gate() }; v.push_back(cVal(a, ng, b, t, &s, i)); thr.push_back(t);
    }
    rt_desc("children=%d workers=%d keep=%d thread=%d", n, (int)w.q.size(), keep, inthread);
    if (coin()) w.start();
    std::thread t;
    if (inthread) t = std::thread([&, v = std::move(v)]() mutable { run_vec(std::move(v), thr, &s, keep); });
    else { run_vec(std::move(v), thr, &s, keep); if (!any) RT_CHECK(rt_get(RESUMED) == 1, "all-children-complete-but-awaiter-suspended"); }
    if (w.th.empty()) w.start();
    w.join(); if (t.joinable()) t.join();
    RT_CHECK(rt_get(RESUMED) == 1, "awaiter-never-resumed");
    RT_CHECK(rt_get(BODYG) == 0, "child-frame-not-destroyed");
    rt_count("when_all-vectors", 1);
}

// lvalue awaitables and reference_wrapper, custom awaitables, nesting
namespace {
Drv run_lv(task<int&>& a, task<void>& b, CustomAw& c, Sh* s, Spec p, int form) {
    auto check = [&](auto&& r) {
        all_done(3, s);
        expect([&] { int& v = std::get<0>(r).result(); RT_CHECK(&v == &s->data[0], "result-of-another-child"); }, p.thr[0], 0, s);
        expect([&] { std::get<1>(r).result(); }, p.thr[1], 1, s);
        expect([&] { RT_CHECK(std::get<2>(r).result() == 12, "result-of-another-child"); }, p.thr[2], 2, s);
        expect([&] { RT_CHECK(std::move(std::get<2>(r)).result() == 12, "result-of-another-child"); }, p.thr[2], 2, s);
    };
    if (form == 0) { auto r = co_await when_all_ready(a, b, c); check(r); }
    else { auto r = co_await when_all_ready(a, std::move(b), CustomAw(c)); check(r); }
    RT_CHECK(a.is_ready(), "awaited-lvalue-task-not-ready");
}
task<Val> leafN(GateRef g, int ng, bool thr, int i) { rt_add(STARTED, 1); Guard b(BODYG); if (ng) co_await g; rt_add(DONE, 1); if (thr) throw Exc(i); co_return Val(i); }
task<Val> nestN(Workers* w, int depth, int* leaves, uint64_t r) {
    Guard b(BODYG);
    if (depth == 0) { int id = (*leaves)++; GateRef g{ w->gate() }; auto t = leafN(g, (int)(r & 1), false, id); auto v = co_await std::move(t); co_return Val(1); }
    co_return Val(0);
}
task<int> tree(GateRef* g, int depth, int lo, int hi, Sh*) {
    Guard b(BODYG);
    if (hi - lo == 1) { rt_add(STARTED, 1); if (coin()) co_await g[lo]; rt_add(DONE, 1); co_return 1; }
    int mid = (lo + hi) / 2;
    if (coin()) {
        auto r = co_await when_all_ready(tree(g, depth + 1, lo, mid, nullptr), tree(g, depth + 1, mid, hi, nullptr));
        co_return std::get<0>(r).result() + std::get<1>(r).result();
    }
    std::vector<task<int>> v; for (int i = lo; i < hi; ++i) v.push_back(tree(g, depth + 1, i, i + 1, nullptr));
    auto r = co_await when_all_ready(std::move(v)); int t = 0; for (auto& x : r) t += x.result(); co_return t;
}
Drv run_tree(GateRef* g, int n) { int k = co_await tree(g, 0, 0, n, nullptr); RT_CHECK(k == n, "results-lost-in-nesting"); RT_CHECK(rt_get(DONE) == n, "resumed-before-all-children-completed"); RT_CHECK(rt_add(RESUMED, 1) == 1, "awaiter-resumed-twice"); }
}
RT_CASE(C04, when_all_lvalues) {
    Spec p; Sh s; for (int i = 0; i < 4; ++i) { p.ng[i] = (int)rt_rand(3); p.thr[i] = one_in(4); }
    int form = (int)rt_rand(2); rt_desc("form=%d gates=%d%d throws=%d%d%d", form, p.ng[0], p.ng[1], p.thr[0], p.thr[1], p.thr[2]);
    Workers w(1 + (int)rt_rand(3)); GateRef g[5]; for (auto& x : g) x.g = w.gate();
    {
        auto a = cRef(g[0], p.ng[0], g[1], p.thr[0], &s, 0); auto b = cVoid(g[2], p.ng[1], g[3], p.thr[1], &s, 1); CustomAw c{ g[4], &s, 2, p.thr[2] };
        if (coin()) w.start();
        run_lv(a, b, c, &s, p, form);
        if (w.th.empty()) w.start();
        w.join();
    }
    RT_CHECK(rt_get(RESUMED) == 1, "awaiter-never-resumed");
    RT_CHECK(rt_get(BODYG) == 0 && rt_get(AWG) == 0, "child-frame-not-destroyed");
    rt_count("when_all-lvalues", 1);
}
RT_CASE(C04, when_all_nested) {
    int n = 2 + (int)rt_rand(4); rt_desc("leaves=%d", n);
    Workers w(1 + (int)rt_rand(3)); std::vector<GateRef> g(n); for (auto& x : g) x.g = w.gate();
    if (coin()) w.start();
    run_tree(g.data(), n);
    if (w.th.empty()) w.start();
    w.join();
    RT_CHECK(rt_get(RESUMED) == 1, "awaiter-never-resumed");
    RT_CHECK(rt_get(BODYG) == 0, "child-frame-not-destroyed");
    rt_count("when_all-trees", 1);
}
// the awaitable is dropped without being awaited, or moved first
RT_CASE(C04, when_all_moved_or_dropped) {
    Spec p; Sh s; for (int i = 0; i < 4; ++i) { p.ng[i] = 0; p.thr[i] = one_in(4); }
    Gate gg; GateRef g{ &gg }; bool drop = coin(); rt_desc("drop=%d", drop);
    struct L { static Drv go(Sh* s, Spec p, GateRef g, bool drop) {
        auto a = when_all_ready(cVal(g, 0, g, p.thr[0], s, 0), cVoid(g, 0, g, p.thr[1], s, 1));
        auto b = std::move(a);
        std::vector<task<Val>> v; for (int i = 0; i < 2; ++i) v.push_back(cVal(g, 0, g, false, s, i));
        auto c = when_all_ready(std::move(v)); auto d = std::move(c);
        if (!drop) {
            auto r = co_await std::move(b); all_done(2, s);
            expect([&] { RT_CHECK(std::get<0>(r).result().get() == 10, "result-of-another-child"); }, p.thr[0], 0, s);
            expect([&] { std::get<1>(r).result(); }, p.thr[1], 1, s);
            rt_set(ORDER, 0); auto q = co_await std::move(d); RT_CHECK(q.size() == 2 && q[1].result().get() == 11, "result-of-another-child");
        }
    } };
    L::go(&s, p, g, drop);
    RT_CHECK(rt_get(RESUMED) == (drop ? 0 : 1), "awaiter-never-resumed");
    if (drop) RT_CHECK(rt_get(STARTED) == 0, "children-started-before-the-await");
    RT_CHECK(rt_get(BODYG) == 0, "child-frame-not-destroyed");
    rt_count("when_all-moves", 1);
}
