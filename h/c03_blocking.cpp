// C03: sync_wait and make_blocking, completing on any thread.
#include "hx.h"
#include "macoro/sync_wait.h"
using namespace macoro;

namespace {
enum { STARTS = 20, ENDS = 21, G1 = 22, AWL = 23 };
task<Val> t_val(GateRef g, int ng, bool thr, int* sh, Guard) { rt_add(STARTS, 1); Guard l(G1); if (ng) co_await g; *sh = 7; rt_add(ENDS, 1); if (thr) throw Exc(4); co_return Val(9); }
task<int&> t_ref(GateRef g, int ng, bool thr, int* sh, Guard) { rt_add(STARTS, 1); Guard l(G1); if (ng) co_await g; *sh = 7; rt_add(ENDS, 1); if (thr) throw Exc(4); co_return *sh; }
task<void> t_void(GateRef g, int ng, bool thr, int* sh, Guard) { rt_add(STARTS, 1); Guard l(G1); if (ng) co_await g; *sh = 7; rt_add(ENDS, 1); if (thr) throw Exc(4); }
eager_task<Val> t_eag(GateRef g, int ng, bool thr, int* sh, Guard) { rt_add(STARTS, 1); Guard l(G1); if (ng) co_await g; *sh = 7; rt_add(ENDS, 1); if (thr) throw Exc(4); co_return Val(9); }
task<MVal> t_mv(GateRef g, int ng, bool thr, int* sh, Guard) { rt_add(STARTS, 1); Guard l(G1); if (ng) co_await g; *sh = 7; rt_add(ENDS, 1); if (thr) throw Exc(4); co_return MVal(9); }
task<Val> t_valMC(GateRef g, int ng, bool thr, int* sh, Guard p) { MC_BEGIN(task<Val>, g, ng, thr, sh, p, l = Guard(G1)); rt_add(STARTS, 1); if (ng) MC_AWAIT(g); *sh = 7; rt_add(ENDS, 1); if (thr) throw Exc(4); MC_RETURN(Val(9)); MC_END(); }

// hand-written awaitables; AWL counts the live awaiters
struct AwCount { AwCount() { rt_add(AWL, 1); } AwCount(AwCount&&) { rt_add(AWL, 1); } ~AwCount() { rt_add(AWL, -1); } };
struct Aw {     // mode 0 ready, 1 suspends on gate, 2 bool false, 3 throws in await_suspend, 4 throws in await_resume, 5 throws in ready
    Gate* g; int mode; int* sh; AwCount c;
    bool await_ready() { rt_add(STARTS, 1); if (mode == 5) { rt_add(ENDS, 1); throw Exc(4); } if (mode == 0) { *sh = 7; rt_add(ENDS, 1); return true; } return false; }
    bool await_suspend(std::coroutine_handle<> h) { if (mode == 3) { rt_add(ENDS, 1); throw Exc(4); } if (mode == 1 || mode == 4) { return g->try_wait(h.address()); } return false; }
    Val await_resume() { if (mode != 0) { *sh = 7; rt_add(ENDS, 1); } if (mode == 4) throw Exc(4); return Val(9); }
};
struct AwOp {   // awaitable through operator co_await
    Aw a;
    Aw operator co_await() && { return std::move(a); }
};
inline void look(Val& v, int*) { RT_CHECK(v.get() == 9, "wrong-result"); }
inline void look(MVal& v, int*) { RT_CHECK(v.get() == 9, "wrong-result"); }
inline void look(int& v, int* s) { RT_CHECK(&v == s, "wrong-result"); }

struct St { Workers* w; int form; bool thr; int* sh; };
void after(St& s, bool caught) {
    RT_CHECK(rt_get(STARTS) == 1, "started-not-exactly-once");
    RT_CHECK(rt_get(ENDS) == 1, "returned-before-completion");
    RT_CHECK(*s.sh == 7 || s.thr, "writes-not-visible");
    RT_CHECK(caught == s.thr, "wrong-kind-of-outcome");
}
// forms: 0 sync_wait(rvalue) 1 sync_wait(lvalue) 2 pipe 3 make_blocking.get 4 pipe make_blocking 5 make_blocking, moved
template<class X> void wait_all_ways(St& s, X x) {
    bool caught = false;
    if (coin()) s.w->start();
    auto ensure = [&] { if (s.w->th.empty()) s.w->start(); };
    try {
        using R = awaitable_result_t<X>;
        using RL = awaitable_result_t<X&>;
        if (s.form <= 2) {
            ensure();
            if constexpr (std::is_void_v<R>) {
                if (s.form == 0) sync_wait(std::move(x)); else if (s.form == 1) sync_wait(x); else std::move(x) | sync_wait();
            }
            else if (s.form == 1) { RL v = sync_wait(x); look(v, s.sh); }
            else if (s.form == 0) { R v = sync_wait(std::move(x)); look(v, s.sh); }
            else { R v = std::move(x) | sync_wait(); look(v, s.sh); }
        }
        else {
            auto b = s.form == 4 ? (std::move(x) | make_blocking()) : make_blocking(std::move(x));
            RT_CHECK(rt_get(STARTS) == 1, "make_blocking-did-not-start");
            auto b2 = std::move(b);
            if (one_in(4)) self_move(b2);
            ensure();
            if constexpr (std::is_void_v<R>) b2.get(); else { R v = b2.get(); look(v, s.sh); }
        }
    }
    catch (Exc& e) { caught = true; RT_CHECK(e.id == 4, "wrong-exception"); }
    after(s, caught);
    ensure();
}
template<class X> void wait_simple(St& s, X x) {
    bool caught = false;
    s.w->start();
    try {
        if (s.form % 2 == 0) { Val v = sync_wait(std::move(x)); look(v, s.sh); }
        else { auto b = make_blocking(std::move(x)); Val v = b.get(); look(v, s.sh); }
    }
    catch (Exc& e) { caught = true; RT_CHECK(e.id == 4, "wrong-exception"); }
    after(s, caught);
}
}
RT_CASE_W(C03, blocking_wait, 3) {
    Workers w(1); int sh = 0; GateRef g{ w.gate() };
    int kind = (int)rt_rand(6), ng = one_in(4) ? 0 : 1; bool thr = one_in(3);
    St s{ &w, (int)rt_rand(6), thr, &sh };
    rt_desc("kind=%d form=%d gates=%d throws=%d", kind, s.form, ng, thr);
    switch (kind) {
    case 0: wait_all_ways(s, t_val(g, ng, thr, &sh, Guard(G1))); break;
    case 1: wait_all_ways(s, t_ref(g, ng, thr, &sh, Guard(G1))); break;
    case 2: wait_all_ways(s, t_void(g, ng, thr, &sh, Guard(G1))); break;
    case 3: wait_all_ways(s, t_eag(g, ng, thr, &sh, Guard(G1))); break;
    case 4: wait_all_ways(s, t_mv(g, ng, thr, &sh, Guard(G1))); break;
    case 5: wait_all_ways(s, t_valMC(g, ng, thr, &sh, Guard(G1))); break;
    }
    RT_CHECK(rt_get(G1) == 0, "frame-not-destroyed-exactly-once");
    w.join();
    rt_count("waits", 1);
}
RT_CASE(C03, blocking_wait_awaiters) {
    Workers w(1); int sh = 0; Gate* g = w.gate();
    int mode = (int)rt_rand(6); bool op = coin();
    St s{ &w, (int)rt_rand(2), mode == 3 || mode == 4 || mode == 5, &sh };
    rt_desc("mode=%d form=%d operator=%d", mode, s.form, op);
    if (op) wait_simple(s, AwOp{ Aw{ g, mode, &sh } }); else wait_simple(s, Aw{ g, mode, &sh });
    RT_CHECK(rt_get(AWL) == 0, "awaiter-not-destroyed-exactly-once");
    w.join();
    rt_count("awaiters", 1);
}
// many threads block at once, each on its own operation, completed by the others
RT_CASE(C03, blocking_cross) {
    int n = 2 + (int)rt_rand(2);
    rt_desc("threads=%d", n);
    std::vector<Gate> gs(n); std::vector<int> sh(n, 0);
    std::vector<std::thread> th;
    for (int i = 0; i < n; ++i) th.emplace_back([&, i] {
        for (int r = 0; r < 1; ++r) {
            struct T { static task<int> go(GateRef g, int* s, int* o, Gate* other) { other->open(); co_await g; *s = 1; co_return 3; } };
            int v = sync_wait(T::go(GateRef{ &gs[i] }, &sh[i], nullptr, &gs[(i + 1) % n]));
            RT_CHECK(v == 3 && sh[i] == 1, "wrong-result");
            rt_add(24, 1);
        }
    });
    for (auto& t : th) t.join();
    RT_CHECK(rt_get(24) == n, "a-blocked-thread-was-not-woken");
    rt_count("cross-waits", (uint64_t)n);
}
// objects of make_blocking are moved, assigned over and dropped; each still waits for and delivers its own result
namespace {
task<Val> t_nth(GateRef g, int ng, bool thr, int* sh, int i, Guard) { Guard l(G1); rt_add(STARTS, 1); if (ng) co_await g; *sh = i; rt_add(ENDS, 1); if (thr) throw Exc(i); co_return Val(i); }
}
RT_CASE(C03, blocking_objects) {
    using B = blocking_task<task<Val>>;
    const int K = 3; int n = 6 + (int)rt_rand(12); rt_desc("ops=%d", n);
    struct One { int sh = 0; bool thr = false, sync = false; };
    std::deque<One> ones; int made = 0;
    {
        Workers w(1); B b[K]; int id[K] = { -1, -1, -1 }; bool got[K] = { true, true, true };      // id -1: empty
        auto settle = [&](int a) {      // the operation of slot a has completed
            if (id[a] < 0 || got[a]) return;
            One& o = ones[(size_t)id[a]]; bool caught = false; got[a] = true;
            try { Val v = b[a].get(); RT_CHECK(v.get() == id[a], "wrong-result"); } catch (Exc& e) { caught = true; RT_CHECK(e.id == id[a], "wrong-exception"); }
            RT_CHECK(caught == o.thr, "wrong-kind-of-outcome"); RT_CHECK(o.sh == id[a], "returned-before-completion"); rt_count("object-waits", 1);
        };
        auto over = [&](int a) { if (id[a] >= 0 && !(ones[(size_t)id[a]].sync && coin())) settle(a); };     // about to destroy what slot a holds
        for (int i = 0; i < 8; ++i) w.gate();
        w.start(); int gates = 0;
        for (int k = 0; k < n; ++k) {
            int op = (int)rt_rand(6), a = (int)rt_rand(K), c = (int)rt_rand(K); rt_log("op", op, a * 10 + c);
            switch (op) {
            case 0: case 1: {
                over(a); int i = made++; ones.emplace_back(); One& o = ones.back(); o.thr = one_in(3); o.sync = gates == 8 || coin();
                GateRef g{ o.sync ? nullptr : &w.gates[(size_t)gates++] };
                b[a] = make_blocking(t_nth(g, !o.sync, o.thr, &o.sh, i, Guard(G1))); id[a] = i; got[a] = false; break; }
            case 2: if (a != c) { over(a); b[a] = std::move(b[c]); id[a] = id[c]; got[a] = got[c]; id[c] = -1; } break;
            case 3: { B t(std::move(b[a])); b[a] = std::move(t); break; }
            case 4: self_move(b[a]); break;
            case 5: if (coin()) settle(a); else { over(a); b[a] = B(); id[a] = -1; } break;
            }
            RT_CHECK(rt_get(STARTS) == made, "make_blocking-did-not-start");
        }
        for (int a = 0; a < K; ++a) settle(a);
        w.join();
    }
    RT_CHECK(rt_get(G1) == 0, "frame-not-destroyed-exactly-once");
    RT_CHECK(rt_get(STARTS) == made && rt_get(ENDS) == made, "started-not-exactly-once");
    rt_count("objects", (uint64_t)made);
}
