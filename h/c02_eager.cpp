// C02: eager_task, make_eager, start_on. Completion on another thread races
// is_ready(), the await and the destruction of a ready task.
#include "hx.h"
#include "macoro/sync_wait.h"
#include "macoro/start_on.h"
#include "macoro/inline_scheduler.h"
#include "macoro/thread_pool.h"
using namespace macoro;

namespace {
enum { STARTS = 20, ENDS = 21, RESUMES = 22, BODYG = 23, PARAMG = 24 };
struct EndMark { ~EndMark() { rt_add(ENDS, 1); } };

// the body publishes through plain memory, which the awaiter then reads
template<class T> struct Body;
eager_task<Val> e_val(GateRef g, int ng, GateRef g2, bool thr, int* shared, Guard) {
    rt_add(STARTS, 1); Guard b(BODYG);
    if (ng > 0) co_await g;
    if (ng > 1) co_await g2;
    *shared = 77;
    if (thr) { rt_add(ENDS, 1); throw Exc(5); }
    rt_add(ENDS, 1);
    co_return Val(9);
}
eager_task<Val> e_valMC(GateRef g, int ng, GateRef g2, bool thr, int* shared, Guard p) {
    MC_BEGIN(eager_task<Val>, g, ng, g2, thr, shared, p, b = std::optional<Guard>());
    rt_add(STARTS, 1); b.emplace(BODYG);
    if (ng > 0) MC_AWAIT(g);
    if (ng > 1) MC_AWAIT(g2);
    *shared = 77;
    rt_add(ENDS, 1);
    if (thr) throw Exc(5);
    MC_RETURN(Val(9));
    MC_END();
}
eager_task<int&> e_ref(GateRef g, int ng, GateRef g2, bool thr, int* shared, Guard) {
    rt_add(STARTS, 1); Guard b(BODYG);
    if (ng > 0) co_await g;
    if (ng > 1) co_await g2;
    *shared = 77; rt_add(ENDS, 1);
    if (thr) throw Exc(5);
    co_return *shared;
}
eager_task<void> e_void(GateRef g, int ng, GateRef g2, bool thr, int* shared, Guard) {
    rt_add(STARTS, 1); Guard b(BODYG);
    if (ng > 0) co_await g;
    if (ng > 1) co_await g2;
    *shared = 77; rt_add(ENDS, 1);
    if (thr) throw Exc(5);
}
task<Val> l_val(GateRef g, int ng, GateRef g2, bool thr, int* shared, Guard) {
    rt_add(STARTS, 1); Guard b(BODYG);
    if (ng > 0) co_await g;
    if (ng > 1) co_await g2;
    *shared = 77; rt_add(ENDS, 1);
    if (thr) throw Exc(5);
    co_return Val(9);
}
void check_done(int* shared) {
    RT_CHECK(rt_get(STARTS) == 1, "body-not-run-exactly-once");
    RT_CHECK(rt_get(ENDS) == 1, "resumed-before-the-body-finished");
    RT_CHECK(*shared == 77, "writes-of-the-body-not-visible");
}
// how: 0 value, 1 lvalue, 2 when_ready, 3 poll then (maybe) await, 4 poll until ready then destroy without awaiting
template<class T> void compare(T&&, int*) {}
inline void look(Val& v, int*) { RT_CHECK(v.get() == 9, "wrong-result"); }
inline void look(int& v, int* s) { RT_CHECK(&v == s && v == 77, "wrong-result"); }

template<class T>
struct Cons { };
template<class T>
Drv consume(eager_task<T> t, int how, bool thr, int* shared) {
    bool caught = false;
    int depth0 = 0; (void)depth0;
    bool rdy = how == 3 && t.is_ready();
    if (rdy) { check_done(shared); rt_count("ready-when-polled", 1); }
    rt_set(30, 1);   // inside the await
    try {
        if constexpr (std::is_void_v<T>) {
            if (how == 1 || how == 3) { co_await t; } else if (how == 2) { co_await t.when_ready(); RT_CHECK(t.is_ready(), "when_ready-but-not-ready"); co_await t; } else co_await std::move(t);
        }
        else {
            if (how == 1 || how == 3) { auto& v = co_await t; look(v, shared); auto& v2 = co_await t; RT_CHECK(&v == &v2, "second-await-of-lvalue-task"); }
            else if (how == 2) { co_await t.when_ready(); RT_CHECK(t.is_ready(), "when_ready-but-not-ready"); auto& v = co_await t; look(v, shared); }
            else if constexpr (std::is_reference_v<T>) { auto& v = co_await std::move(t); look(v, shared); }
            else { auto v = co_await std::move(t); look(v, shared); }
        }
    }
    catch (Exc& e) { caught = true; RT_CHECK(e.id == 5, "wrong-exception"); }
    RT_CHECK(rt_add(RESUMES, 1) == 1, "awaiter-resumed-twice");
    if (rdy) RT_CHECK(rt_get(31) == 0, "ready-task-suspended-the-awaiter");
    check_done(shared);
    RT_CHECK(caught == thr, "wrong-kind-of-outcome");
    RT_CHECK(t.is_ready(), "awaited-task-not-ready");
}
template<class T>
void run_with(eager_task<T> t, int how, bool thr, int* shared) {
    if (one_in(4)) { self_move(t); RT_CHECK(rt_get(RESUMES) == 0, "awaiter-resumed-twice"); }
    if (how < 4) { consume<T>(std::move(t), how, thr, shared); rt_set(31, 1); return; }
    if (how == 4) {         // poll, destroy when ready
        while (!t.is_ready()) std::this_thread::yield();
        check_done(shared);
        rt_count("destroyed-when-ready", 1);
        rt_set(RESUMES, 1);
        return;
    }
    // blocking wait
    bool caught = false;
    try { if constexpr (std::is_void_v<T>) { sync_wait(t); } else { auto& v = sync_wait(t); look(v, shared); } }
    catch (Exc& e) { caught = true; RT_CHECK(e.id == 5, "wrong-exception"); }
    RT_CHECK(caught == thr, "wrong-kind-of-outcome");
    check_done(shared);
    rt_set(RESUMES, 1);
}
}

RT_CASE_W(C02, eager_race, 3) {
    int kind = (int)rt_rand(6), ng = (int)rt_rand(3), how = (int)rt_rand(6); bool thr = one_in(3);
    int shared = 0;
    Workers w(1 + (int)rt_rand(2));
    GateRef g{ w.gate() }, g2{ w.gate() };
    bool inthread = coin();
    rt_desc("kind=%d gates=%d how=%d throws=%d consumer-thread=%d", kind, ng, how, thr, inthread);
    if (coin()) w.start();
    std::thread ct;
    auto go = [&](auto t) {
        RT_CHECK(rt_get(STARTS) == 1, "eager-task-not-started-by-the-call");
        if (ng == 0) { RT_CHECK(t.is_ready(), "completed-task-not-ready"); check_done(&shared); }
        if (inthread) {
            if (w.th.empty() && coin()) { ct = std::thread([&, t = std::move(t)]() mutable { run_with(std::move(t), how, thr, &shared); }); w.start(); }
            else { if (w.th.empty()) w.start(); ct = std::thread([&, t = std::move(t)]() mutable { run_with(std::move(t), how, thr, &shared); }); }
        }
        else { if (w.th.empty() && (how >= 4 || coin())) w.start(); run_with(std::move(t), how, thr, &shared); }
    };
    switch (kind) {
    case 0: go(e_val(g, ng, g2, thr, &shared, Guard(PARAMG))); break;
    case 1: go(e_valMC(g, ng, g2, thr, &shared, Guard(PARAMG))); break;
    case 2: go(e_ref(g, ng, g2, thr, &shared, Guard(PARAMG))); break;
    case 3: go(e_void(g, ng, g2, thr, &shared, Guard(PARAMG))); break;
    case 4: go(make_eager(l_val(g, ng, g2, thr, &shared, Guard(PARAMG)))); break;
    case 5: go(l_val(g, ng, g2, thr, &shared, Guard(PARAMG)) | make_eager()); break;
    }
    if (w.th.empty()) w.start();
    w.join();
    if (ct.joinable()) ct.join();
    RT_CHECK(rt_get(RESUMES) == 1, "awaiter-not-resumed-exactly-once");
    RT_CHECK(rt_get(BODYG) == 0 && rt_get(PARAMG) == 0, "frame-not-destroyed-exactly-once");
    rt_count("eager-tasks", 1);
}

// A task finished on another thread is destroyed by a third party once ready.
RT_CASE(C02, eager_ready_destroy) {
    int shared = 0; bool thr = one_in(3);
    Workers w(1); GateRef g{ w.gate() };
    rt_desc("throws=%d", thr);
    auto t = std::make_unique<eager_task<Val>>(e_val(g, 1, g, thr, &shared, Guard(PARAMG)));
    w.start();
    if (coin()) { while (!t->is_ready()) std::this_thread::yield(); }
    else {
        // await first, destroy from the awaiter
        std::atomic<bool> resumed{ false };
        struct L { static Drv go(eager_task<Val>& t, bool thr, int* shared, std::atomic<bool>* r) {
            co_await t.when_ready(); check_done(shared); rt_add(RESUMES, 1); r->store(true, std::memory_order_release); } };
        L::go(*t, thr, &shared, &resumed);
        while (!resumed.load(std::memory_order_acquire)) std::this_thread::yield();
        RT_CHECK(t->is_ready(), "awaited-task-not-ready");
    }
    check_done(&shared);
    t.reset();
    w.join();
    RT_CHECK(rt_get(BODYG) == 0 && rt_get(PARAMG) == 0, "frame-not-destroyed-exactly-once");
    rt_count("ready-then-destroyed", 1);
}

namespace {
// a scheduler of the harness: hands coroutines to one other thread, in order
struct OtherThread {
    std::atomic<bool> has{ false }; std::coroutine_handle<> h; std::thread t; bool early;
    struct Aw { OtherThread* s; bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> c) { s->h = c; s->has.store(true, std::memory_order_release); } void await_resume() {} };
    Aw schedule() { return Aw{ this }; }
    void start() { t = std::thread([this] { rt_set(32, rt_tid()); while (!has.load(std::memory_order_acquire)) std::this_thread::yield(); h.resume(); }); }
};
task<Val> where(int* shared, bool thr) { rt_add(STARTS, 1); rt_set(33, rt_tid()); Guard b(BODYG); *shared = 77; rt_add(ENDS, 1); if (thr) throw Exc(5); co_return Val(9); }
}
RT_CASE(C02, start_on_other_thread) {
    OtherThread s; int shared = 0; bool thr = one_in(3); int how = (int)rt_rand(6); int form = (int)rt_rand(3);
    rt_desc("how=%d throws=%d form=%d", how, thr, form);
    if (coin()) s.start();
    auto lazy = std::make_unique<task<Val>>(where(&shared, thr));   // gone as soon as it was moved from
    RT_CHECK(rt_get(STARTS) == 0, "lazy-task-started-before-await");
    auto go = [&](auto t) {
        if (!s.t.joinable()) { RT_CHECK(rt_get(STARTS) == 0, "body-ran-before-the-transfer"); s.start(); }
        run_with(std::move(t), how, thr, &shared);
    };
    auto make = [&] { auto t = form == 0 ? start_on(s, std::move(*lazy)) : form == 1 ? std::move(*lazy) | start_on(s) : start_on<OtherThread, task<Val>>(s, std::move(*lazy)); lazy.reset(); return t; };
    go(make());
    s.t.join();
    RT_CHECK(rt_get(RESUMES) == 1, "awaiter-not-resumed-exactly-once");
    RT_CHECK(rt_get(33) == rt_get(32), "body-not-on-the-scheduler's-thread");
    RT_CHECK(rt_get(BODYG) == 0, "frame-not-destroyed-exactly-once");
    rt_count("start_on", 1);
}
RT_CASE(C02, start_on_pool_and_inline) {
    int shared = 0; bool thr = one_in(3); int how = (int)rt_rand(6); int form = (int)rt_rand(3);
    rt_desc("how=%d throws=%d form=%d", how, thr, form);
    if (form == 0) {
        inline_scheduler in; auto lazy = where(&shared, thr);
        auto t = std::move(lazy) | start_on(in);
        RT_CHECK(rt_get(STARTS) == 1 && t.is_ready(), "inline-start_on-not-run-in-the-call");
        run_with(std::move(t), how, thr, &shared);
    }
    else {
        thread_pool tp; auto work = tp.make_work();
        if (coin()) tp.create_thread();
        auto lazy = std::make_unique<task<Val>>(where(&shared, thr));
        auto t = form == 1 ? std::move(*lazy) | start_on(tp) : start_on(tp, std::move(*lazy)); lazy.reset();
        if (coin()) tp.create_thread();
        else tp.create_threads(1);
        run_with(std::move(t), how, thr, &shared);
        work.reset();
        tp.join();
        RT_CHECK(rt_get(33) != 0, "body-not-on-the-scheduler's-thread");
    }
    RT_CHECK(rt_get(RESUMES) == 1, "awaiter-not-resumed-exactly-once");
    RT_CHECK(rt_get(BODYG) == 0, "frame-not-destroyed-exactly-once");
    rt_count("start_on-schedulers", 1);
}

// a value was returned and then a destructor throws: the exception is the result, the value is gone
namespace {
struct Thrower { bool on; Guard g; explicit Thrower(bool o) : on(o) {} ~Thrower() noexcept(false) { if (on) throw Exc(7); } };
eager_task<Val> after_e(bool thr, GateRef g, int64_t id) { co_await g; Thrower t(thr); co_return Val(id); }
Drv after_w(eager_task<Val>& t, bool thr) {
    bool caught = false;
    try { Val v = co_await std::move(t); RT_CHECK(v.get() == 9, "wrong-result"); } catch (Exc& e) { caught = e.id == 7; }
    RT_CHECK(caught == thr, "wrong-kind-of-outcome"); rt_add(60, 1);
}
}
RT_CASE(C02, eager_throws_after_returning) {
    Workers w(1); bool thr = !one_in(4), late = coin(); rt_desc("throws=%d awaited-late=%d", thr, late);
    { GateRef g{ w.gate() }; if (coin()) w.start(); auto t = after_e(thr, g, 9);
      if (late) { if (w.th.empty()) w.start(); w.join(); RT_CHECK(t.is_ready(), "not-ready-although-finished"); after_w(t, thr); }
      else { after_w(t, thr); if (w.th.empty()) w.start(); w.join(); } }
    RT_CHECK(rt_get(60) == 1, "awaiter-not-resumed-exactly-once");
    rt_count("throws-after-returning", 1);
}
