// C20: coroutine handles: conversions, identity, control of the right coroutine, symmetric transfer, noop and null
#include "hx.h"
#include "macoro/awaiter.h"
#include <map>
using namespace macoro;

namespace {
enum { ALIVE = 4, PROM = 5, STEP = 32 };                    // SL 4,5 must end at zero
template<size_t A> struct CellT {                           // the promise is aligned to A
    using Cell = CellT;
    struct alignas(A) promise_type {
        int id = -1; int64_t mark = 0; promise_type() { rt_add(PROM, 1); } ~promise_type() { rt_add(PROM, -1); mark = -1; }
        Cell get_return_object() { return { coroutine_handle<promise_type>(std::coroutine_handle<promise_type>::from_promise(*this)), false }; }
        Cell macoro_get_return_object() { return { coroutine_handle<promise_type>::from_promise(*this, coroutine_handle_type::macoro), true }; }
        macoro::suspend_always initial_suspend() noexcept { return {}; } macoro::suspend_always final_suspend() noexcept { return {}; }
        void return_void() {} void unhandled_exception() { rt_fail("unexpected-exception", "in a coroutine body"); }
    };
    coroutine_handle<promise_type> h; bool mc;
};
using Cell = CellT<8>;
using P = Cell::promise_type;
struct Alive { Alive() { rt_add(ALIVE, 1); } Alive(const Alive&) { rt_add(ALIVE, 1); } ~Alive() { rt_add(ALIVE, -1); } };
template<size_t A = 8> CellT<A> cell20(int id, int n) { Alive a; Val v(id); for (int i = 0; i < n; ++i) { rt_add(STEP + id, 1); co_await macoro::suspend_always{}; } rt_add(STEP + id, 1); RT_CHECK(v.get() == id, "wrong-local"); }
template<size_t A = 8> CellT<A> cellMC(int id, int n) { MC_BEGIN(CellT<A>, id, n, i = 0, a = Alive{}, v = Val(id)); for (; i < n; ++i) { rt_add(STEP + id, 1); MC_AWAIT(macoro::suspend_always{}); } rt_add(STEP + id, 1); RT_CHECK(v.get() == id, "wrong-local"); MC_END(); }

// all the forms one handle can take
template<class P> struct Form { int k; coroutine_handle<P> t; coroutine_handle<> v; std::coroutine_handle<> s; void* a; };
enum { TYPED, VOIDH, STD, ADDR };
template<class P> void resume(const Form<P>& f) { if (f.k == TYPED) { if (coin()) f.t.resume(); else f.t(); } else if (f.k == VOIDH) { if (coin()) f.v.resume(); else f.v(); } else if (f.k == STD) f.s.resume(); else coroutine_handle<>::from_address(f.a).resume(); }
template<class P> bool done(const Form<P>& f) { return f.k == TYPED ? f.t.done() : f.k == VOIDH ? f.v.done() : f.k == STD ? f.s.done() : coroutine_handle<>::from_address(f.a).done(); }
template<class P> void destroy(const Form<P>& f) { if (f.k == TYPED) f.t.destroy(); else if (f.k == VOIDH) f.v.destroy(); else if (f.k == STD) f.s.destroy(); else coroutine_handle<>::from_address(f.a).destroy(); }
// one random conversion; typed says whether the promise type is still known from the form
template<class P> Form<P> convert(const Form<P>& f, bool mc, P& prom) {
    Form<P> r = f;
    switch (rt_rand(6)) {
    case 0: r.k = TYPED; if (f.k == TYPED) r.t = f.t; else if (f.k == VOIDH && f.v.is_std() == !mc) r.t = coroutine_handle<P>::from_address(f.v.address()); else if (f.k == ADDR && !((size_t)f.a & 1) == !mc) r.t = coroutine_handle<P>::from_address(f.a); else r.k = f.k; break; // (the std form of a macro coroutine has another promise)
    case 1: r.k = VOIDH; if (f.k == TYPED) r.v = f.t; else if (f.k == STD) r.v = coroutine_handle<>(f.s); else if (f.k == ADDR) r.v = coroutine_handle<>::from_address(f.a); break;
    case 2: r.k = STD; if (f.k == TYPED) r.s = coin() ? f.t.std_cast() : static_cast<std::coroutine_handle<>>(f.t); else if (f.k == VOIDH) r.s = coin() ? f.v.std_cast() : static_cast<std::coroutine_handle<>>(f.v); else if (f.k == ADDR) r.s = coroutine_handle<>::from_address(f.a).std_cast(); break;
    case 3: r.k = ADDR; if (f.k == TYPED) r.a = f.t.address(); else if (f.k == VOIDH) r.a = f.v.address(); else if (f.k == STD) r.a = f.s.address(); break;
    case 4: r.k = TYPED; r.t = coroutine_handle<P>::from_promise(prom, mc ? coroutine_handle_type::macoro : coroutine_handle_type::std); break;
    case 5: break;
    }
    return r;
}
template<size_t A> void handle_forms() {
    using Cell = CellT<A>; using P = typename Cell::promise_type; using Form = Form<P>;
    int N = 1 + (int)rt_rand(3); struct M { Cell c; int n, steps; bool alive, viastd; P* prom; std::vector<Form> f; }; std::vector<M> m;
    for (int i = 0; i < N; ++i) { int n = (int)rt_rand(4); bool mc = A > 8 || coin(); M x{ mc ? cellMC<A>(i, n) : cell20<A>(i, n), n, 0, true, false, nullptr, {} }; RT_CHECK(x.c.mc == mc, "wrong-return-object"); x.prom = &x.c.h.promise(); x.prom->id = i; x.f.push_back({ TYPED, x.c.h, {}, {}, nullptr }); m.push_back(x); }
    int ops = 4 + (int)rt_rand(20); RT_CHECK((size_t)m[0].prom % A == 0, "misaligned-promise"); rt_desc("align=%d coroutines=%d ops=%d kinds=%d%d%d lengths=%d,%d,%d", (int)A, N, ops, m[0].c.mc, N > 1 && m[1].c.mc, N > 2 && m[2].c.mc, m[0].n, N > 1 ? m[1].n : -1, N > 2 ? m[2].n : -1);
    auto check = [&] {
        int alive = 0, prom = 0;
        for (int i = 0; i < N; ++i) { auto& x = m[i]; RT_CHECK(rt_get(STEP + i) == x.steps, "another-coroutine-ran"); if (x.alive) { alive += !(x.steps == x.n + 1) || x.c.mc; ++prom; } }
        // a C++20 body's locals die when it returns, a macro body's captures with the frame
        RT_CHECK(rt_get(ALIVE) >= 0 && rt_get(PROM) == prom, "frames-alive"); (void)alive;
    };
    for (int k = 0; k < ops; ++k) {
        auto& x = m[rt_rand((uint64_t)N)]; if (!x.alive) continue;
        Form f = x.f[rt_rand(x.f.size())]; bool fin = x.steps == x.n + 1;
        rt_log("op", k, f.k); rt_count("operations", 1);
        switch (rt_rand(8)) {
        case 0: case 1: x.f.push_back(convert(f, x.c.mc, *x.prom)); if (x.f.size() > 6) x.f.erase(x.f.begin() + (long)rt_rand(6)); break;
        case 2: case 3: case 4: if (!fin) { resume(f); ++x.steps; } break;
        case 5: RT_CHECK(done(f) == fin, "wrong-done"); break;
        case 6: {                                           // identity
            for (auto& y : m) if (y.alive) for (auto& g : y.f) if (g.k == VOIDH && f.k == VOIDH && !(y.c.mc && (g.v.is_std() != f.v.is_std()))) {
                bool same = &y == &x && g.v.is_std() == f.v.is_std();
                RT_CHECK((g.v == f.v) == same && (g.v != f.v) == !same && (g.v < f.v || f.v < g.v) == !same && (g.v <= f.v && g.v >= f.v) == same && ((g.v > f.v) == (f.v < g.v)), "wrong-comparison");
            }
            if (f.k == TYPED) { RT_CHECK(&f.t.promise() == x.prom && f.t.promise().id == x.prom->id, "wrong-promise"); RT_CHECK((bool)f.t && f.t == x.c.h && f.t.address() == x.c.h.address(), "identity-lost"); f.t.promise().mark = 7; }
            if (f.k == VOIDH) { RT_CHECK((bool)f.v, "null"); if (!x.c.mc || !f.v.is_std()) RT_CHECK(f.v == x.c.h, "identity-lost"); RT_CHECK(f.v.is_std() || x.c.mc, "wrong-kind"); }
            if (f.k == STD) { RT_CHECK((bool)f.s && !((size_t)f.s.address() & 1), "bad-std-handle"); RT_CHECK(f.s == x.c.h.std_cast(), "identity-lost"); RT_CHECK(coroutine_handle<>(f.s).std_cast() == f.s && coroutine_handle<>(f.s).is_std(), "identity-lost"); }
            break; }
        case 7: if (one_in(3)) { destroy(f); x.alive = false; } break;
        }
        check();
    }
    for (auto& x : m) if (x.alive) { Form f = x.f[rt_rand(x.f.size())]; destroy(f); x.alive = false; }
    check();
}
}

// random conversions and operations on a few coroutines: every form controls its own coroutine
// (g++ does not align the frames of C++20 coroutines to more than operator new does)
RT_CASE_W(C20, handle_forms, 2) {
    switch (rt_rand(6)) { case 0: handle_forms<16>(); break; case 1: handle_forms<64>(); break; default: handle_forms<8>(); }
}

// null and noop handles
RT_CASE(C20, null_and_noop) {
    coroutine_handle<> n, n2(nullptr); coroutine_handle<P> t, t2(nullptr); int id = (int)rt_rand(8); Cell c = coin() ? cell20(id, 1) : cellMC(id, 1); coroutine_handle<> v = c.h; coroutine_handle<P> ct = c.h;
    RT_CHECK(!n && !n2 && !t && !t2 && n == n2 && n == t && !n.address() && !coroutine_handle<>::from_address(nullptr), "null-handle");
    RT_CHECK(v && ct && v != n && n < v, "non-null-handle"); RT_CHECK(!n.std_cast() && !t.std_cast() && !coroutine_handle<>(std::coroutine_handle<>{}), "null-conversion");
    v = nullptr; ct = nullptr; RT_CHECK(!v && !ct && v == n, "assign-null"); c.h.destroy();
    auto no = noop_coroutine(); coroutine_handle<> nv = no, na = coroutine_handle<>::from_address(no.address());
    RT_CHECK(no && nv && nv == na && nv == noop_coroutine() && nv != n, "noop-identity"); RT_CHECK(no.std_cast() && nv.std_cast() && !nv.std_cast().done() && !no.std_cast().done(), "noop-std");
    int k = 1 + (int)rt_rand(4); rt_desc("k=%d", k);
    for (int i = 0; i < k; ++i) switch (rt_rand(8)) {
    case 0: no.resume(); break; case 1: no(); break; case 2: no.destroy(); break; case 3: nv.resume(); break; case 4: nv(); break;
    case 5: nv.destroy(); break; case 6: na.std_cast().resume(); break; case 7: { auto s = nv.std_cast(); s.resume(); s.destroy(); coroutine_handle<> b(s); b.resume(); RT_CHECK(!b.done() && b, "noop-through-std"); b.destroy(); break; }
    }
    RT_CHECK(!no.done() && !nv.done() && !na.done() && nv == no, "noop-is-never-done"); (void)no.promise();
}

// chains of symmetric transfers through both kinds of handles: each coroutine is resumed exactly once
namespace {
struct Hop {                                                // transfers to next
    coroutine_handle<> next; int how;
    bool await_ready() const { return false; }
    std::coroutine_handle<> await_suspend(std::coroutine_handle<>) const { return next.std_cast(); }
    coroutine_handle<> await_suspend(coroutine_handle<>) const { return how ? next : coroutine_handle<>(next.std_cast()); }
    void await_resume() const {}
};
struct HopStd { coroutine_handle<> next; bool await_ready() const { return false; } std::coroutine_handle<> await_suspend(std::coroutine_handle<>) const { return next.std_cast(); } void await_resume() const {} };
using Cont = detail::continuation_awaiter<coroutine_handle<>, false>;
using ContR = detail::continuation_awaiter<coroutine_handle<>, true>;
using ContT = detail::continuation_awaiter<coroutine_handle<P>, true>;
Cell hop20(int id, coroutine_handle<P>* nx, int how) {
    rt_add(STEP + id, 1); coroutine_handle<> n = *nx ? coroutine_handle<>(*nx) : coroutine_handle<>(noop_coroutine());
    if (how < 2) co_await Hop{ n, how }; else if (how == 2) co_await HopStd{ n }; else if (how == 3) co_await Cont{ n }; else if (how == 4) co_await ContR{ n }; else if (*nx) co_await ContT{ *nx }; else co_await Hop{ n, 1 };
    rt_add(STEP + id, 100);
}
Cell hopMC(int id, coroutine_handle<P>* nx, int how) {
    MC_BEGIN(Cell, id, nx, how, n = coroutine_handle<>{});
    rt_add(STEP + id, 1); n = *nx ? coroutine_handle<>(*nx) : coroutine_handle<>(noop_coroutine());
    if (how < 2) MC_AWAIT((Hop{ n, how })); else if (how == 2) MC_AWAIT(HopStd{ n }); else if (how == 3) MC_AWAIT(Cont{ n }); else if (how == 4) MC_AWAIT(ContR{ n }); else if (*nx) MC_AWAIT(ContT{ *nx }); else MC_AWAIT((Hop{ n, 1 }));
    rt_add(STEP + id, 100);
    MC_END();
}
}
RT_CASE_W(C20, transfer_chain, 2) {
    int N = 2 + (int)rt_rand(8); std::vector<coroutine_handle<P>> h(N + 1); int mask = 0;
    for (int i = N - 1; i >= 0; --i) { bool mc = coin(); mask |= mc << i; h[i] = mc ? hopMC(i, &h[i + 1], (int)rt_rand(6)).h : hop20(i, &h[i + 1], (int)rt_rand(6)).h; }
    rt_desc("length=%d macro-mask=%x", N, mask);
    if (coin()) h[0].resume(); else h[0].std_cast().resume();
    for (int i = 0; i < N; ++i) { RT_CHECK(rt_get(STEP + i) == 1, "not-resumed-exactly-once"); RT_CHECK(!h[i].done(), "wrong-done"); }
    for (int i = N; i-- > 0;) { if (coin()) h[i].resume(); else h[i].std_cast().resume(); RT_CHECK(rt_get(STEP + i) == 101 && h[i].done(), "not-resumed-exactly-once"); for (int j = 0; j < i; ++j) RT_CHECK(rt_get(STEP + j) == 1, "another-coroutine-ran"); }
    for (int i = 0; i < N; ++i) if (coin()) h[i].destroy(); else h[i].std_cast().destroy();
}
// macro coroutines transfer to each other without growing the stack
namespace {
struct Ping { char*& lo; std::vector<coroutine_handle<P>>& h; int me; int& left; bool await_ready() const { return false; } coroutine_handle<> await_suspend(coroutine_handle<>) const { char c; if (&c < lo) lo = &c; if (left-- <= 0) return noop_coroutine(); return h[(size_t)me ^ 1]; } void await_resume() const {} };
Cell pong(int me, char*& lo, std::vector<coroutine_handle<P>>& h, int& left, bool& stop) { MC_BEGIN(Cell, me, &lo, &h, &left, &stop); while (!stop) MC_AWAIT((Ping{ lo, h, me, left })); MC_END(); }
}
RT_CASE(C20, transfer_stack_depth) {
    char here; char* lo = &here; int left = 500; bool stop = false; std::vector<coroutine_handle<P>> h; h.push_back(pong(0, lo, h, left, stop).h); h.push_back(pong(1, lo, h, left, stop).h);
    rt_desc("transfers=%d", left); if (coin()) h[0].resume(); else h[0].std_cast().resume();
    RT_CHECK(left < 0, "a-transfer-was-lost"); RT_CHECK(&here - lo < 30000, "symmetric-transfer-grows-the-stack");
    stop = true; for (auto& x : h) { if (coin()) x.resume(); x.destroy(); }
}
// a coroutine destroyed by the awaiter it suspends in, through any form, whoever resumed it
namespace {
struct Kill { int how; bool await_ready() const { return false; } void await_suspend(coroutine_handle<P> h) const { kill(h); } void await_suspend(std::coroutine_handle<P> h) const { kill(coroutine_handle<P>(h)); } void kill(coroutine_handle<P> h) const { if (how == 0) h.destroy(); else if (how == 1) coroutine_handle<>(h).destroy(); else h.std_cast().destroy(); } void await_resume() const { rt_fail("resumed", "a destroyed coroutine was resumed"); } };
struct KillStd { bool await_ready() const { return false; } void await_suspend(std::coroutine_handle<> h) const { h.destroy(); } void await_resume() const { rt_fail("resumed", "a destroyed coroutine was resumed"); } };
struct Dead { struct promise_type { promise_type() { rt_add(PROM, 1); } ~promise_type() { rt_add(PROM, -1); } Dead get_return_object() { return { coroutine_handle<promise_type>(std::coroutine_handle<promise_type>::from_promise(*this)) }; } Dead macoro_get_return_object() { return { coroutine_handle<promise_type>::from_promise(*this, coroutine_handle_type::macoro) }; }
    macoro::suspend_always initial_suspend() noexcept { return {}; } struct F { bool await_ready() noexcept { return false; } void await_suspend(std::coroutine_handle<> h) noexcept { h.destroy(); } void await_resume() noexcept {} }; F final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() {} }; coroutine_handle<promise_type> h; };
Cell kill20(int n, int how) { Alive a; Val v(3); for (int i = 0; i < n; ++i) co_await macoro::suspend_always{}; if (how < 3) co_await Kill{ how }; else co_await KillStd{}; }
Cell killMC(int n, int how) { MC_BEGIN(Cell, n, how, i = 0, a = Alive{}, v = Val(3)); for (; i < n; ++i) MC_AWAIT(macoro::suspend_always{}); if (how < 3) MC_AWAIT(Kill{ how }); else MC_AWAIT(KillStd{}); MC_END(); }
Dead dead20(int n) { Alive a; Val v(3); for (int i = 0; i < n; ++i) co_await macoro::suspend_always{}; }
Dead deadMC(int n) { MC_BEGIN(Dead, n, i = 0, a = Alive{}, v = Val(3)); for (; i < n; ++i) MC_AWAIT(macoro::suspend_always{}); MC_END(); }
Cell outer20(coroutine_handle<> h) { co_await Hop{ h, 1 }; }
Cell outerMC(coroutine_handle<> h) { MC_BEGIN(Cell, h); MC_AWAIT((Hop{ h, 1 })); MC_END(); }
}
RT_CASE_W(C20, destroyed_by_its_awaiter, 2) {
    int n = (int)rt_rand(3), how = (int)rt_rand(5), via = (int)rt_rand(4); bool mc = coin(); rt_desc("suspensions=%d how=%d via=%d mc=%d", n, how, via, mc);
    coroutine_handle<> h; if (how < 4) h = mc ? killMC(n, how).h : kill20(n, how).h; else h = mc ? deadMC(n).h : dead20(n).h;
    for (int i = 0; i <= n; ++i) {
        if (via == 0) h.resume(); else if (via == 1) h.std_cast().resume(); else { auto o = coin() ? outer20(h).h : outerMC(h).h; if (via == 2) o.resume(); else o.std_cast().resume(); o.destroy(); }
        if (i < n) RT_CHECK(!h.done(), "wrong-done");
    }
    RT_CHECK(rt_get(PROM) == 0 && rt_get(ALIVE) == 0, "not-destroyed");
}
