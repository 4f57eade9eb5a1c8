// C01: lazy task<T>. Random trees of tasks, awaited in random ways, against the
// outcome planned in advance for each node; gates are opened by other threads.
#include "hx.h"
#include "macoro/sync_wait.h"
#include "macoro/wrap.h"
using namespace macoro;

namespace {
// slots: per node 4: starts, ends, body guards alive, resumes of the awaiter
int S(int node, int k) { return 64 + node * 4 + k; }

enum How { BY_VALUE, BY_REF_TWICE, WHEN_READY_THEN_REF, MAKE_TASK, MOVED_HANDLE, VECTOR_SLOT, NOT_STARTED, MOVED_FROM, READY_POLL, WHEN_READY_THEN_MOVE, N_HOW };
const char* how_name[] = { "value", "ref2", "when_ready+ref", "make_task", "moved", "vec", "unstarted", "moved-from", "poll", "when_ready+move" };

struct Plan {
    int id; bool throws, throws_early; int ngates; std::vector<GateRef> gates; bool macro;
    std::vector<std::pair<Plan*, How>> kids;
    bool reached = false;       // the body should start
};
struct World { std::deque<Plan> plans; Workers* w; };

Plan* make_plan(World& W, int depth) {
    W.plans.emplace_back();
    Plan* p = &W.plans.back();
    p->id = (int)W.plans.size();
    p->throws = one_in(4); p->throws_early = one_in(8);
    p->macro = coin();
    int ng = (int)rt_rand(3);
    for (int i = 0; i < ng; ++i) p->gates.push_back(GateRef{ W.w->gate() });
    if (depth > 0) {
        int k = (int)rt_rand(depth + 2);
        for (int i = 0; i < k && W.plans.size() < 40; ++i) { Plan* q = make_plan(W, depth - 1); p->kids.push_back({ q, (How)rt_rand(N_HOW) }); }
    }
    return p;
}
bool outcome_throws(const Plan* p) { return p->throws || p->throws_early; }
void mark(Plan* p) {
    p->reached = true;
    if (p->throws_early) return;
    for (auto& k : p->kids) if (k.second != NOT_STARTED && k.second != MOVED_FROM) mark(k.first);
}

// make_task of something that is destroyed before the result is awaited
template<class T> T made(T& t) { auto u = std::make_unique<T>(std::move(t)); T m = make_task(std::move(*u)); u.reset(); return m; }

task<Val> node(Plan* p, Val param, Guard g);

// await one child in the given way and compare with its plan
task<void> use_child(Plan* p, How how) {
    int id = p->id; bool thr = outcome_throws(p);
    task<Val> t = node(p, Val(id), Guard(S(id, 2)));
    RT_CHECK(rt_get(S(id, 0)) == 0, "lazy-task-started-before-await");
    RT_CHECK(!t.is_ready(), "unstarted-task-is-ready");
    if (one_in(4)) { self_move(t); RT_CHECK(rt_get(S(id, 2)) > 0, "self-move-destroyed-the-frame"); }
    bool caught = false; int64_t got = -7;
    try {
        switch (how) {
        case BY_VALUE: { Val v = co_await std::move(t); got = v.get(); break; }
        case BY_REF_TWICE: {
            Val& v = co_await t; got = v.get(); rt_add(S(id, 3), 1);
            RT_CHECK(t.is_ready(), "finished-task-not-ready");
            Val& v2 = co_await t; RT_CHECK(&v == &v2 && v2.get() == id, "second-await-of-lvalue-task"); rt_add(S(id, 3), -1);
            Val v3 = co_await std::move(t); RT_CHECK(v3.get() == id, "move-out-after-lvalue-await");
            break; }
        case WHEN_READY_THEN_REF: { co_await t.when_ready(); rt_add(S(id, 3), 1); RT_CHECK(t.is_ready(), "when_ready-but-not-ready"); rt_add(S(id, 3), -1); Val& v = co_await t; got = v.get(); break; }
        case WHEN_READY_THEN_MOVE: { co_await t.when_ready(); Val v = co_await std::move(t); got = v.get(); break; }
        case MAKE_TASK: { task<Val> m = made(t); RT_CHECK(rt_get(S(id, 0)) == 0, "make_task-started-it"); Val v = co_await std::move(m); got = v.get(); break; }
        case MOVED_HANDLE: { task<Val> m; m = std::move(t); task<Val> m2(std::move(m)); Val v = co_await std::move(m2); got = v.get(); break; }
        case VECTOR_SLOT: { std::vector<task<Val>> ts; ts.push_back(std::move(t)); ts.reserve(8); Val v = co_await ts[0]; got = v.get(); break; }
        case READY_POLL: { auto w = t.when_ready(); co_await w; RT_CHECK(t.is_ready(), "when_ready-but-not-ready"); Val v = co_await std::move(t); got = v.get(); break; }
        case NOT_STARTED: { if (coin()) t = task<Val>(); got = id; thr = false; break; }
        case MOVED_FROM: {
            task<Val> m(std::move(t)); bool bp = false;
            RT_CHECK(!t.is_ready(), "moved-from-task-is-ready");
            try { (void)co_await t; } catch (broken_promise&) { bp = true; }
            RT_CHECK(bp, "no-broken_promise-for-empty-task");
            bp = false;
            try { (void)co_await std::move(t); } catch (broken_promise&) { bp = true; }
            RT_CHECK(bp, "no-broken_promise-for-empty-task");
            got = id; thr = false; break; }
        default: break;
        }
        rt_add(S(id, 3), 1);
    }
    catch (Exc& e) { caught = true; got = e.id; rt_add(S(id, 3), 1); }
    RT_CHECK(caught == thr, "wrong-kind-of-outcome");
    RT_CHECK(got == id, "wrong-result");
    RT_CHECK(rt_get(S(id, 3)) == 1, "awaiter-resumed-not-exactly-once");
    bool ran = how != NOT_STARTED && how != MOVED_FROM;
    RT_CHECK(rt_get(S(id, 0)) == (ran ? 1 : 0), "body-not-run-exactly-once");
    RT_CHECK(rt_get(S(id, 1)) == (ran ? 1 : 0), "resumed-before-the-body-finished");
    rt_count(how_name[how], 1);
}

struct EndMark { int id; ~EndMark() { rt_add(S(id, 1), 1); } };

task<Val> node20(Plan* p, Val param, Guard g) {
    RT_CHECK(rt_add(S(p->id, 0), 1) == 1, "body-started-twice");
    EndMark em{ p->id };
    Guard local(S(p->id, 2));
    Val lv(p->id + 1000);
    RT_CHECK(param.get() == p->id, "parameter-changed");
    if (p->throws_early) throw Exc(p->id);
    size_t gi = 0;
    for (auto& k : p->kids) {
        if (gi < p->gates.size()) co_await p->gates[gi++];
        co_await use_child(k.first, k.second);
    }
    while (gi < p->gates.size()) co_await p->gates[gi++];
    if (p->throws) throw Exc(p->id);
    RT_CHECK(lv.get() == p->id + 1000, "local-changed");
    co_return Val(p->id);
}
task<Val> nodeMC(Plan* p, Val param, Guard g) {
    MC_BEGIN(task<Val>, p, param = std::move(param), g, em = (EndMark*)nullptr, gi = size_t(0), ki = size_t(0), tmp = std::unique_ptr<EndMark>());
    RT_CHECK(rt_add(S(p->id, 0), 1) == 1, "body-started-twice");
    tmp.reset(new EndMark{ p->id });
    RT_CHECK(param.get() == p->id, "parameter-changed");
    if (p->throws_early) { tmp.reset(); throw Exc(p->id); }
    for (ki = 0; ki < p->kids.size(); ++ki) {
        if (gi < p->gates.size()) MC_AWAIT(p->gates[gi++]);
        MC_AWAIT(use_child(p->kids[ki].first, p->kids[ki].second));
    }
    while (gi < p->gates.size()) MC_AWAIT(p->gates[gi++]);
    tmp.reset();
    if (p->throws) throw Exc(p->id);
    MC_RETURN(Val(p->id));
    MC_END();
}
task<Val> node(Plan* p, Val param, Guard g) { return p->macro ? nodeMC(p, std::move(param), g) : node20(p, std::move(param), g); }

Drv root(Plan* p, How how) {
    co_await use_child(p, how);
    rt_add(60, 1);
}
void finish(World& W, Plan* r) {
    for (auto& p : W.plans) {
        RT_CHECK(rt_get(S(p.id, 0)) == (p.reached ? 1 : 0), "body-not-run-exactly-once");
        RT_CHECK(rt_get(S(p.id, 2)) == 0, "frame-not-destroyed-exactly-once");
        rt_count(p.reached ? "bodies-run" : "bodies-not-run", 1);
    }
}
}

RT_CASE_W(C01, task_tree, 2) {
    Workers w(1 + (int)rt_rand(3)); World W; W.w = &w;
    Plan* p = make_plan(W, (int)rt_rand(4));
    How how = (How)rt_rand(N_HOW);
    if (how != NOT_STARTED && how != MOVED_FROM) mark(p);
    rt_desc("nodes=%zu gates=%zu threads=%zu root=%s", W.plans.size(), w.gates.size(), w.q.size(), how_name[how]);
    bool before = coin();
    if (before) w.start();
    root(p, how);
    if (!before) w.start();
    w.join();
    RT_CHECK(rt_get(60) == 1, "driver-never-finished");
    finish(W, p);
}

RT_CASE(C01, task_tree_sync_wait) {
    Workers w(1 + (int)rt_rand(3)); World W; W.w = &w;
    Plan* p = make_plan(W, (int)rt_rand(3));
    mark(p);
    rt_desc("nodes=%zu gates=%zu threads=%zu", W.plans.size(), w.gates.size(), w.q.size());
    w.start();
    bool caught = false; int64_t got = -7;
    {
        task<Val> t = node(p, Val(p->id), Guard(S(p->id, 2)));
        try { got = sync_wait(std::move(t)).get(); } catch (Exc& e) { caught = true; got = e.id; }
    }
    RT_CHECK(caught == outcome_throws(p) && got == p->id, "wrong-outcome-through-sync_wait");
    w.join();
    finish(W, p);
}

// a task destroyed while suspended: locals, parameters destroyed once, awaiter never resumed
namespace {
task<Val> inner_susp(int id, GateRef g, Guard a) { Guard b(40); Val v(3); EndMark em{ id }; rt_add(S(id, 0), 1); co_await g; co_return std::move(v); }
task<Val> inner_suspMC(int id, GateRef g, Guard a) {
    MC_BEGIN(task<Val>, id, g, a, v = Val(3), b = Guard(40));
    rt_add(S(id, 0), 1);
    MC_AWAIT(g);
    MC_RETURN(std::move(v));
    MC_END();
}
task<Val> outer_susp(task<Val> t, int lvl) { Guard b(41); if (coin()) { Val v = co_await std::move(t); co_return v; } Val& r = co_await t; co_return r; }
task<Val> outer_suspMC(task<Val> t, int lvl) {
    MC_BEGIN(task<Val>, t = std::move(t), b = Guard(41), v = std::optional<Val>());
    MC_AWAIT_SET(v, std::move(t));
    MC_RETURN(std::move(*v));
    MC_END();
}
struct HandleCoro {     // a coroutine we can destroy while it is suspended
    struct promise_type {
        promise_type() { rt_add(SL_DRV, 1); } ~promise_type() { rt_add(SL_DRV, -1); }
        HandleCoro get_return_object() { return { std::coroutine_handle<promise_type>::from_promise(*this) }; }
        std::suspend_never initial_suspend() noexcept { return {}; }
        std::suspend_always final_suspend() noexcept { return {}; }
        void return_void() noexcept {}
        void unhandled_exception() noexcept { rt_fail("unexpected-exception", "driver"); }
    };
    std::coroutine_handle<promise_type> h;
};
HandleCoro drive(task<Val> t) { Val v = co_await std::move(t); rt_add(60, 1); }
}
RT_CASE(C01, task_destroyed_while_suspended) {
    Gate g; int depth = 1 + (int)rt_rand(4); bool open = one_in(3);
    rt_desc("depth=%d open=%d", depth, open);
    task<Val> t = coin() ? inner_susp(1, GateRef{ &g }, Guard(42)) : inner_suspMC(1, GateRef{ &g }, Guard(42));
    for (int i = 0; i < depth; ++i) t = coin() ? outer_susp(std::move(t), i) : outer_suspMC(std::move(t), i);
    HandleCoro h = drive(std::move(t));
    RT_CHECK(rt_get(S(1, 0)) == 1, "body-not-run-exactly-once");
    if (open) { g.open(); RT_CHECK(h.h.done(), "not-finished"); }
    h.h.destroy();
    RT_CHECK(rt_get(60) == (open ? 1 : 0), "awaiter-resumed-though-destroyed");
    for (int s : { 40, 41, 42 }) RT_CHECK(rt_get(s) == 0, "locals-not-destroyed-exactly-once");
    rt_count(open ? "completed" : "destroyed-suspended", 1);
}

// result types: references, void, move-only, values, exceptions of several types
namespace {
task<int&> t_ref(int& x, bool thr, GateRef g) { co_await g; if (thr) throw Exc(7); co_return x; }
task<int&> t_refMC(int& x, bool thr, GateRef g) { MC_BEGIN(task<int&>, &x, thr, g); MC_AWAIT(g); if (thr) throw Exc(7); MC_RETURN(x); MC_END(); }
task<void> t_void(int& x, bool thr, GateRef g) { co_await g; ++x; if (thr) throw Exc(7); }
task<void> t_voidMC(int& x, bool thr, GateRef g) { MC_BEGIN(task<void>, &x, thr, g); MC_AWAIT(g); ++x; if (thr) throw Exc(7); MC_END(); }
task<MVal> t_mv(int& x, bool thr, GateRef g) { co_await g; if (thr) throw Exc(7); co_return MVal(x); }
task<MVal> t_mvMC(int& x, bool thr, GateRef g) { MC_BEGIN(task<MVal>, &x, thr, g); MC_AWAIT(g); if (thr) throw Exc(7); MC_RETURN(MVal(x)); MC_END(); }

Drv types(int kind, bool mc, int* x, bool thr, GateRef g) {
    bool caught = false;
    bool viaref = coin(), mk = coin();
    try {
        switch (kind) {
        case 0: {
            auto t = mc ? t_refMC(*x, thr, g) : t_ref(*x, thr, g);
            if (mk) { auto m = made(t); int& r = co_await std::move(m); RT_CHECK(&r == x, "reference-identity"); }
            else if (viaref) { int& r = co_await t; RT_CHECK(&r == x, "reference-identity"); int& r2 = co_await t; RT_CHECK(&r2 == x, "reference-identity"); }
            else { int& r = co_await std::move(t); RT_CHECK(&r == x, "reference-identity"); }
            break; }
        case 1: {
            auto t = mc ? t_voidMC(*x, thr, g) : t_void(*x, thr, g);
            if (mk) { auto m = made(t); co_await m; }
            else if (viaref) { co_await t; co_await t; } else co_await std::move(t);
            RT_CHECK(*x == 6, "void-body-not-run-exactly-once");
            break; }
        case 2: {
            auto t = mc ? t_mvMC(*x, thr, g) : t_mv(*x, thr, g);
            if (mk) { auto m = made(t); MVal v = co_await std::move(m); RT_CHECK(v.get() == *x, "wrong-result"); }
            else if (viaref) {
                MVal& v = co_await t; RT_CHECK(v.get() == *x, "wrong-result");
                MVal& v2 = co_await t; RT_CHECK(&v == &v2 && v2.get() == *x, "lvalue-await-took-the-result");
                MVal o = co_await std::move(t); RT_CHECK(o.get() == *x, "wrong-result");
                MVal& v3 = co_await t; RT_CHECK(v3.get() == -1, "rvalue-await-did-not-move");
            }
            else { MVal v = co_await std::move(t); RT_CHECK(v.get() == *x, "wrong-result"); }
            break; }
        }
    }
    catch (Exc& e) { caught = true; RT_CHECK(e.id == 7, "wrong-exception"); }
    RT_CHECK(caught == thr, "wrong-kind-of-outcome");
    rt_add(60, 1);
}
// rethrowing twice from an lvalue task
Drv twice(GateRef g, bool mc) {
    int x = 5;
    auto t = mc ? t_refMC(x, true, g) : t_ref(x, true, g);
    for (int i = 0; i < 3; ++i) {
        bool c = false;
        try { (void)co_await t; } catch (Exc& e) { c = e.id == 7; }
        RT_CHECK(c, "exception-not-rethrown-on-a-later-await");
    }
    rt_add(60, 1);
}
}
RT_CASE(C01, task_result_types) {
    Workers w(1);
    int kind = (int)rt_rand(4); bool mc = coin(), thr = one_in(3);
    rt_desc("kind=%d macro=%d throws=%d", kind, mc, thr);
    int x = 5; GateRef g{ w.gate() };
    if (coin()) w.start();
    if (kind == 3) twice(g, mc); else types(kind, mc, &x, thr, g);
    if (w.th.empty()) w.start();
    w.join();
    RT_CHECK(rt_get(60) == 1, "awaiter-not-resumed-exactly-once");
    rt_count("result-types", 1);
}

// a value was returned and then a destructor throws: the exception is the result, the value is gone
namespace {
struct Thrower { bool on; Guard g; explicit Thrower(bool o) : on(o) {} ~Thrower() noexcept(false) { if (on) throw Exc(7); } };
template<class T> task<T> after20(bool thr, GateRef g, int64_t id, T* ref) {
    co_await g; Thrower t(thr);
    if constexpr (std::is_void_v<T>) co_return; else if constexpr (std::is_reference_v<T>) co_return *ref; else co_return T(id);
}
template<class T> T with(Thrower&&, T v) { return v; }
task<Val> afterMC(bool thr, GateRef g, int64_t id) { MC_BEGIN(task<Val>, thr, g, id); MC_AWAIT(g); MC_RETURN(with(Thrower(thr), Val(id))); MC_END(); }
template<class T> Drv after_(task<T> t, bool thr, bool again) {
    for (int i = 0; i <= again; ++i) {
        bool caught = false;
        try {
            if constexpr (std::is_void_v<T>) co_await t;
            else if (again) { auto& v = co_await t; RT_CHECK(v.get() == 9, "wrong-result"); }
            else { auto v = co_await std::move(t); RT_CHECK(v.get() == 9, "wrong-result"); }
        } catch (Exc& e) { caught = e.id == 7; }
        RT_CHECK(caught == thr, "wrong-kind-of-outcome");
    }
    rt_add(60, 1);
}
}
RT_CASE(C01, task_throws_after_returning) {
    Workers w(1); int kind = (int)rt_rand(4); bool thr = !one_in(4), again = coin(); rt_desc("kind=%d throws=%d twice=%d", kind, thr, again);
    GateRef g{ w.gate() }; Val ref(9);
    if (coin()) w.start();
    if (kind == 0) after_(after20<Val>(thr, g, 9, nullptr), thr, again);
    else if (kind == 1) after_(after20<void>(thr, g, 9, (void*)nullptr), thr, again);
    else if (kind == 2) after_(after20<MVal>(thr, g, 9, nullptr), thr, again);
    else after_(afterMC(thr, g, 9), thr, again);
    if (w.th.empty()) w.start();
    w.join();
    RT_CHECK(rt_get(60) == 1, "awaiter-not-resumed-exactly-once");
    rt_count("throws-after-returning", 1);
}

// co_await getPromise{} gives the promise of the coroutine that asks, without suspending it
namespace {
template<class T, bool lazy> void mine(detail::task_promise<T, lazy>& p, bool mc, void** h) {
    auto c = coroutine_handle<detail::task_promise<T, lazy>>::from_promise(p, mc ? coroutine_handle_type::macoro : coroutine_handle_type::std);
    RT_CHECK(!c.done() && &c.promise() == &p, "promise-of-another-coroutine");
    if (*h) RT_CHECK(*h == c.address(), "promise-changes"); else *h = c.address();
    rt_count("promises", 1);
}
template<class T, bool lazy> task<T, lazy> gp20(GateRef g, Val* v, void** h) {
    mine<T, lazy>(co_await getPromise{}, false, h);
    co_await g;
    auto& p = co_await getPromise{}; mine<T, lazy>(p, false, h);
    if constexpr (std::is_void_v<T>) co_return; else if constexpr (std::is_reference_v<T>) co_return *v; else co_return Val(9);
}
template<class T, bool lazy> struct Mine { void** h; void operator()(detail::task_promise<T, lazy>& p) const { mine<T, lazy>(p, true, h); } };
template<class T, bool lazy> task<T, lazy> gpMC(GateRef g, Val* v, void** h) {
    using R = task<T, lazy>;
    MC_BEGIN(R, g, v, look = Mine<T, lazy>{ h });
    MC_AWAIT_FN(look, getPromise{});
    MC_AWAIT(g);
    MC_AWAIT_FN(look, getPromise{});
    if constexpr (std::is_void_v<T>) MC_RETURN_VOID(); else if constexpr (std::is_reference_v<T>) MC_RETURN(*v); else MC_RETURN(Val(9));
    MC_END();
}
template<class T, bool lazy> Drv gp_(task<T, lazy> t, Val* v, void** h) {
    RT_CHECK(!lazy || !*h, "body-ran-before-the-await");
    if constexpr (std::is_void_v<T>) co_await t; else { auto& r = co_await t; RT_CHECK(r.get() == 9 && (!std::is_reference_v<T> || (void*)&r == (void*)v), "wrong-result"); }
    RT_CHECK(*h == t.handle().address(), "promise-of-another-coroutine");
    rt_add(60, 1);
}
}
RT_CASE(C01, task_promise_of_its_own) {
    Workers w(1); int kind = (int)rt_rand(6); bool mc = coin(); rt_desc("kind=%d macro=%d", kind, mc);
    GateRef g{ w.gate() }; Val v(9); void* h = nullptr;
    if (coin()) w.start();
    auto go = [&](auto t, auto lazy) { using T = typename decltype(t)::type; constexpr bool L = decltype(lazy)::value; gp_<T, L>(mc ? gpMC<T, L>(g, &v, &h) : gp20<T, L>(g, &v, &h), &v, &h); };
    switch (kind) {
    case 0: go(std::type_identity<Val>{}, std::true_type{}); break;
    case 1: go(std::type_identity<Val&>{}, std::true_type{}); break;
    case 2: go(std::type_identity<void>{}, std::true_type{}); break;
    case 3: go(std::type_identity<Val>{}, std::false_type{}); break;
    case 4: go(std::type_identity<Val&>{}, std::false_type{}); break;
    case 5: go(std::type_identity<void>{}, std::false_type{}); break;
    }
    if (w.th.empty()) w.start();
    w.join();
    RT_CHECK(rt_get(60) == 1, "awaiter-not-resumed-exactly-once");
}
