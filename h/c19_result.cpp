// C19: result<T,E> histories against a model, result coroutines, wrap() and MC_AWAIT_TRY
#include "hx.h"
#include "macoro/result.h"
#include "macoro/wrap.h"
#include "macoro/sync_wait.h"
#include "macoro/start_on.h"
#include <array>
#include <functional>
using namespace macoro;

namespace {
// ---------------------------------------------------------------- element types
struct EA { Val v; explicit EA(int64_t i) : v(i) {} EA() : v(-3) {} bool operator==(const EA& o) const { return v == o.v; } };
struct NoDef { Val v; explicit NoDef(int64_t i) : v(i) {} NoDef() = delete; bool operator==(const NoDef& o) const { return v == o.v; } };
struct MT : MVal { using MVal::MVal; MT() : MVal(-2) {} bool operator==(const MT& o) const { return get() == o.get(); } };
int64_t idof(const Val& v) { return v.get(); } int64_t idof(const EA& v) { return v.v.get(); } int64_t idof(const NoDef& v) { return v.v.get(); } int64_t idof(const MVal& v) { return v.get(); } int64_t idof(int v) { return v; }
int64_t idof(const std::exception_ptr& e) { if (!e) return -1; try { std::rethrow_exception(e); } catch (const Exc& x) { return x.id; } catch (...) { return -9; } }
template<class T> T mk(int64_t id) { return T(id); }
template<> int mk<int>(int64_t id) { return (int)id; }
template<> std::exception_ptr mk<std::exception_ptr>(int64_t id) { return std::make_exception_ptr(Exc(id)); }
template<class T> constexpr bool has_moved_state = !std::is_same_v<T, int> && !std::is_same_v<T, std::exception_ptr>;
template<class T> constexpr bool comparable = !std::is_same_v<T, std::exception_ptr>;

struct M { bool ok; int64_t id; };                          // the model of one result; id -1: moved from
template<class T, class E> void check(result<T, E>& r, const M& m) {
    const auto& c = r;
    RT_CHECK(r.has_value() == m.ok && r.has_error() == !m.ok && (bool)r == m.ok && c.has_value() == m.ok && c.has_error() == !m.ok, "wrong-alternative");
    int64_t got = -77, gotc = -77;
    if constexpr (!std::is_void_v<T>) {
        try { got = idof(r.value()); RT_CHECK(m.ok, "value()-of-an-error"); } catch (const Exc& e) { RT_CHECK(!m.ok && e.id == m.id, "wrong-exception"); } catch (const E& e) { RT_CHECK(!m.ok && idof(e) == m.id, "wrong-exception"); }
        if (m.ok) { RT_CHECK(got == m.id, "wrong-value"); RT_CHECK(idof(*r) == m.id && &*r == &r.value(), "wrong-value"); gotc = idof(c.value()); RT_CHECK(gotc == m.id && idof(*c) == m.id && &c.value() == &r.value() && &*c == &r.value(), "wrong-const-value"); }
        else { bool th = false; try { (void)*c; } catch (const Exc& e) { th = e.id == m.id; } catch (const E& e) { th = idof(e) == m.id; } RT_CHECK(th, "const-value-of-an-error"); }
    } else {
        try { r.value(); c.value(); *r; RT_CHECK(m.ok, "value()-of-an-error"); } catch (const Exc& e) { RT_CHECK(!m.ok && e.id == m.id, "wrong-exception"); } catch (const E& e) { RT_CHECK(!m.ok && idof(e) == m.id, "wrong-exception"); }
    }
    if (m.ok) { int th = 0; try { (void)r.error(); } catch (const std::runtime_error&) { ++th; } try { (void)c.error(); } catch (const std::runtime_error&) { ++th; } RT_CHECK(th == 2, "error()-of-a-value"); }
    else RT_CHECK(idof(r.error()) == m.id && idof(c.error()) == m.id && &c.error() == &r.error(), "wrong-error");
}
template<class T, class E> struct Hist {
    using R = result<T, E>;
    std::vector<std::unique_ptr<R>> r; std::vector<M> m;
    static constexpr bool cpV = std::is_void_v<T> || std::is_copy_constructible_v<std::conditional_t<std::is_void_v<T>, int, T>>, cpT = cpV && std::is_copy_constructible_v<E>;
    int64_t next = 10;
    template<class X, class F> void source(X& x, int64_t id, bool moved, F&&) { if (moved && has_moved_state<X>) RT_CHECK(idof(x) == -1, "a-moved-source-was-copied"); else if (!moved) RT_CHECK(idof(x) == id, "an-lvalue-passed-by-reference-was-taken"); }
    // a new value or error given in one of four ways
    template<class Fn> void give(Fn&& fn, M& out) {
        int64_t id = next++; int how = (int)rt_rand(4); bool ok = coin(); out = { ok, id }; rt_log("give", how, ok);
        auto go = [&](auto* p, auto wrap_l, auto wrap_c, auto wrap_r) {
            using X = std::remove_pointer_t<decltype(p)>; X x = mk<X>(id);
            if constexpr (!std::is_copy_constructible_v<X>) how = 2 + how % 2;
            if constexpr (std::is_copy_constructible_v<X>) { if (how == 0) { fn(wrap_l(x)); source(x, id, false, 0); } if (how == 1) { const X& c = x; fn(wrap_c(c)); source(x, id, false, 0); } }
            if (how == 2) { fn(wrap_r(std::move(x))); source(x, id, true, 0); }
            if (how == 3) fn(wrap_r(mk<X>(id)));
        };
        if (ok) { if constexpr (std::is_void_v<T>) { fn(Ok()); } else go((T*)nullptr, [](T& x) { return Ok(x); }, [](const T& x) { return Ok(x); }, [](T&& x) { return Ok(std::move(x)); }); }
        else go((E*)nullptr, [](E& x) { return Err(x); }, [](const E& x) { return Err(x); }, [](E&& x) { return Err(std::move(x)); });
    }
    void access(size_t i) {
        R& x = *r[i]; const R& c = x; M& k = m[i]; int64_t a = next++;
        if constexpr (!std::is_void_v<T>) {
            if constexpr (cpV) {
                T alt = mk<T>(a); const T& calt = alt;
                RT_CHECK(idof(x.value_or(mk<T>(a))) == (k.ok ? k.id : a), "value_or"); RT_CHECK(idof(x.value_or(alt)) == (k.ok ? k.id : a) && &x.value_or(alt) == (k.ok ? &x.value() : &alt), "value_or"); RT_CHECK(&c.value_or(calt) == (k.ok ? &c.value() : &calt), "value_or"); RT_CHECK(idof(alt) == a, "value_or-took-its-argument");
            }
            if constexpr (comparable<T>) if (k.id != -1) {
                T same = mk<T>(k.id), other = mk<T>(a);
                RT_CHECK((c == Ok(std::as_const(same))) == k.ok && !(c == Ok(std::as_const(other))) && (c == Ok(std::move(same))) == k.ok && (c != Ok(mk<T>(k.id))) == !k.ok && c != Ok(mk<T>(a)) && (c != Ok(std::as_const(same))) == !k.ok, "compare-with-Ok");
                RT_CHECK(idof(same) == k.id && idof(other) == a, "comparing-took-its-argument");
            }
        } else RT_CHECK((c == Ok()) == k.ok && (c != Ok()) == !k.ok, "compare-with-Ok");
        if constexpr (comparable<E>) if (k.id != -1) {
            E same = mk<E>(k.id), other = mk<E>(a);
            RT_CHECK((c == Err(std::as_const(same))) == !k.ok && !(c == Err(std::as_const(other))) && (c == Err(std::move(same))) == !k.ok && (c != Err(mk<E>(k.id))) == k.ok && c != Err(mk<E>(a)) && (c != Err(std::as_const(same))) == k.ok, "compare-with-Err");
        }
        if constexpr (std::is_copy_constructible_v<E>) { E alt = mk<E>(a); const E& calt = alt; RT_CHECK(idof(x.error_or(mk<E>(a))) == (k.ok ? a : k.id) && &x.error_or(alt) == (k.ok ? &alt : &x.error()) && &c.error_or(calt) == (k.ok ? &calt : &c.error()), "error_or"); RT_CHECK(idof(alt) == a, "error_or-took-its-argument"); }
    }
    void run() {
        int ops = 3 + (int)rt_rand(14); rt_desc("ops=%d", ops);
        for (int k = 0; k < ops; ++k) {
            size_t n = r.size(), i = n ? rt_rand(n) : 0, j = n ? rt_rand(n) : 0; int op = n ? (int)rt_rand(9) : 0; rt_log("op", op, (int64_t)i); rt_count("operations", 1);
            switch (op) {
            case 0: case 1: { M x; give([&](auto&& tag) { r.push_back(std::make_unique<R>(std::forward<decltype(tag)>(tag))); }, x); m.push_back(x); break; }
            case 2: case 3: { M x; give([&](auto&& tag) { *r[i] = std::forward<decltype(tag)>(tag); }, x); m[i] = x; break; }
            case 4: if constexpr (cpT) { if (coin()) { r.push_back(std::make_unique<R>(std::as_const(*r[i]))); m.push_back(m[i]); } else { const R& src = *r[i]; *r[j] = src; m[j] = m[i]; } } break;
            case 5: { r.push_back(std::make_unique<R>(std::move(*r[i]))); m.push_back(m[i]); moved(i); break; }
            case 6: if (i != j) { *r[j] = std::move(*r[i]); m[j] = m[i]; moved(i); } break;
            case 7: access(i); break;
            case 8: r.erase(r.begin() + (long)i); m.erase(m.begin() + (long)i); break;
            }
            for (size_t q = 0; q < r.size(); ++q) check(*r[q], m[q]);
            if (r.size() > 5) { r.erase(r.begin()); m.erase(m.begin()); }
        }
    }
    void moved(size_t i) {
        bool st; if constexpr (std::is_void_v<T>) st = !m[i].ok && has_moved_state<E>; else st = m[i].ok ? has_moved_state<T> : has_moved_state<E>;
        if (st) m[i].id = -1;
        else if (!m[i].ok && std::is_same_v<E, std::exception_ptr>) { r.erase(r.begin() + (long)i); m.erase(m.begin() + (long)i); }   // an empty exception_ptr cannot be rethrown
        else if (std::is_void_v<T> && m[i].ok) {}
    }
};
}
RT_CASE(C19, result_history_value) { Hist<Val, EA>().run(); }
RT_CASE(C19, result_history_same_type) { Hist<Val, Val>().run(); }
RT_CASE(C19, result_history_int) { if (coin()) Hist<int, int>().run(); else Hist<int, EA>().run(); }
RT_CASE(C19, result_history_move_only) { if (coin()) Hist<MT, EA>().run(); else Hist<MT, std::exception_ptr>().run(); }
RT_CASE(C19, result_history_void) { if (coin()) Hist<void, EA>().run(); else Hist<void, std::exception_ptr>().run(); }
RT_CASE(C19, result_history_exception) { if (coin()) Hist<Val, std::exception_ptr>().run(); else Hist<NoDef, std::exception_ptr>().run(); }
RT_CASE(C19, result_defaults) {
    rt_desc("default"); { result<Val, EA> r; RT_CHECK(r.has_value() && r.value().get() == -2, "default"); } { result<NoDef, EA> r; RT_CHECK(r.has_error() && r.error().v.get() == -3, "default"); }
    { result<void, EA> r; RT_CHECK(r.has_value(), "default"); } { const result<Val> r; RT_CHECK(r.has_value() && (bool)r && r.value().get() == -2, "default"); }
}

// ---------------------------------------------------------------- coroutines returning result
namespace macoro::detail {
template<> inline auto result_unhandled_exception<Val, EA>() { try { throw; } catch (const Exc& e) { return EA(e.id); } catch (const EA& e) { return e; } }
template<> inline auto result_unhandled_exception<void, EA>() { return result_unhandled_exception<Val, EA>(); }
}
namespace {
enum OpK { VAL, AWAIT, AWAIT_LV, TRY, TRY_LV, RET_OK, RET_OK_LV, RET_ERR, RET_CHILD, THROW, AWAIT_VOID };
struct ROp { int k, child, val; };
struct RProg { std::vector<std::vector<ROp>> b; std::vector<char> mc; std::vector<M> log; };
RProg* RP;
void seen(const M& m) { RP->log.push_back(m); }
template<class R> void seen_r(const R& r) { seen(r.has_value() ? M{ true, r.value().get() } : M{ false, idof(r.error()) }); }
M model(int i, std::vector<M>& log) {
    int64_t acc = i;
    for (auto& o : RP->b[(size_t)i]) {
        if (o.k == VAL) log.push_back({ true, acc }); 
        else if (o.k == AWAIT || o.k == AWAIT_LV || o.k == AWAIT_VOID) { M m = model(o.child, log); if (!m.ok) return m; log.push_back(m); if (o.k != AWAIT_VOID) acc = acc * 3 + m.id; }
        else if (o.k == TRY || o.k == TRY_LV) { M m = model(o.child, log); log.push_back(m); acc = acc * 5 + m.id; }
        else if (o.k == RET_OK || o.k == RET_OK_LV) return { true, acc + o.val };
        else if (o.k == RET_ERR || o.k == THROW) return { false, o.val };
        else if (o.k == RET_CHILD) return model(o.child, log);
    }
    return { true, acc };
}
template<class E> E mkE(int64_t id) { return mk<E>(id); }
template<class E> using RVal = result<Val, E>; template<class E> using RVoid = result<void, E>;
template<class E> result<Val, E> rc(int i);
template<class E> result<void, E> rv20(int i) { Guard g; Val x = co_await rc<E>(i); seen({ true, x.get() }); co_return Ok(); }
template<class E> result<void, E> rvMC(int i) { MC_BEGIN(RVoid<E>, i, g = Guard{}, x = Val{}); MC_AWAIT_SET(x, rc<E>(i)); seen({ true, x.get() }); MC_RETURN(Ok()); MC_END(); }
template<class E> result<void, E> rv(int i) { return i % 2 ? rv20<E>(i) : rvMC<E>(i); }
template<class E> result<Val, E> rc20(int i) {
    Guard g; Val acc(i);
    for (auto& o : RP->b[(size_t)i]) {
        switch (o.k) {
        case VAL: seen({ true, acc.get() }); break;
        case AWAIT: { Val x = co_await rc<E>(o.child); seen({ true, x.get() }); acc = Val(acc.get() * 3 + x.get()); break; }
        case AWAIT_LV: { auto r = rc<E>(o.child); Val x = co_await r; seen({ true, x.get() }); acc = Val(acc.get() * 3 + x.get()); break; }
        case AWAIT_VOID: co_await rv<E>(o.child); break;
        case TRY: { M m; if constexpr (std::is_same_v<E, EA>) { try { Val x = co_await rc<E>(o.child); m = { true, x.get() }; } catch (const EA& e) { m = { false, idof(e) }; } } else { try { Val x = co_await rc<E>(o.child); m = { true, x.get() }; } catch (const Exc& e) { m = { false, e.id }; } } seen(m); acc = Val(acc.get() * 5 + m.id); break; }
        case TRY_LV: { auto r = rc<E>(o.child); seen_r(r); acc = Val(acc.get() * 5 + (r ? r.value().get() : idof(r.error()))); break; }
        case RET_OK: co_return Ok(Val(acc.get() + o.val));
        case RET_OK_LV: { Val x(acc.get() + o.val); co_return Ok(x); }
        case RET_ERR: co_return Err(mkE<E>(o.val));
        case RET_CHILD: co_return rc<E>(o.child);
        case THROW: throw Exc(o.val);
        }
    }
    co_return Ok(acc);
}
template<class E> result<Val, E> rcMC(int i) {
    MC_BEGIN(RVal<E>, i, g = Guard{}, acc = Val(i), k = size_t(0), o = (ROp*)nullptr, x = Val{}, r = RVal<E>(), rx = RVal<std::exception_ptr>());
    for (; k < RP->b[(size_t)i].size(); ++k) {
        o = &RP->b[(size_t)i][k];
        if (o->k == VAL) seen({ true, acc.get() });
        else if (o->k == AWAIT) { MC_AWAIT_SET(x, rc<E>(o->child)); seen({ true, x.get() }); acc = Val(acc.get() * 3 + x.get()); }
        else if (o->k == AWAIT_LV) { r = rc<E>(o->child); MC_AWAIT_SET(x, r); seen({ true, x.get() }); acc = Val(acc.get() * 3 + x.get()); }
        else if (o->k == AWAIT_VOID) { MC_AWAIT(rv<E>(o->child)); }
        else if (o->k == TRY) {
            MC_AWAIT_TRY(rx, rc<E>(o->child));
            if constexpr (std::is_same_v<E, EA>) { if (rx.has_error()) { try { std::rethrow_exception(rx.error()); } catch (const EA& e) { rx = Err(mk<std::exception_ptr>(idof(e))); } } }
            seen_r(rx); acc = Val(acc.get() * 5 + (rx ? rx.value().get() : idof(rx.error())));
        }
        else if (o->k == TRY_LV) { r = rc<E>(o->child); seen_r(r); acc = Val(acc.get() * 5 + (r ? r.value().get() : idof(r.error()))); }
        else if (o->k == RET_OK) MC_RETURN(Ok(Val(acc.get() + o->val)));
        else if (o->k == RET_OK_LV) { x = Val(acc.get() + o->val); MC_RETURN(Ok(x)); }
        else if (o->k == RET_ERR) MC_RETURN(Err(mkE<E>(o->val)));
        else if (o->k == RET_CHILD) MC_RETURN(rc<E>(o->child));
        else if (o->k == THROW) throw Exc(o->val);
    }
    MC_RETURN(Ok(acc));
    MC_END();
}
template<class E> result<Val, E> rc(int i) { return RP->mc[(size_t)i] ? rcMC<E>(i) : rc20<E>(i); }
template<class E> void run_result_coroutines() {
    RProg p; RP = &p; int n = 1 + (int)rt_rand(5);
    for (int i = 0; i < n; ++i) {
        p.mc.push_back(coin()); p.b.emplace_back();
        for (uint64_t k = rt_rand(5); k-- > 0;) {
            ROp o{ (int)rt_rand(11), 0, (int)rt_rand(1000) };
            bool child = o.k == AWAIT || o.k == AWAIT_LV || o.k == TRY || o.k == TRY_LV || o.k == RET_CHILD || o.k == AWAIT_VOID;
            if (child && i + 1 == n) o.k = VAL; else if (child) o.child = i + 1 + (int)rt_rand((uint64_t)(n - i - 1));
            p.b.back().push_back(o); rt_log("op", o.k, o.child);
        }
    }
    rt_desc("bodies=%d", n);
    std::vector<M> want; M m = model(0, want);
    { auto r = rc<E>(0); check(r, m); }
    RT_CHECK(p.log.size() == want.size(), "different-number-of-steps");
    for (size_t i = 0; i < want.size(); ++i) RT_CHECK(p.log[i].ok == want[i].ok && p.log[i].id == want[i].id, "wrong-step");
    rt_count("result-coroutine-steps", (int64_t)want.size());
}

// ---------------------------------------------------------------- wrap and MC_AWAIT_TRY
enum { RESUMED = 20, STARTED = 21, BODYG = 22 };
struct W { GateRef g; int ng; GateRef g2; bool thr; int id; Val* ext; };
task<Val> wVal(W w) { Guard b(BODYG); rt_add(STARTED, 1); if (w.ng > 0) co_await w.g; if (w.ng > 1) co_await w.g2; if (w.thr) throw Exc(w.id); co_return Val(w.id); }
task<Val> wValMC(W w) { MC_BEGIN(task<Val>, w, b = Guard(BODYG)); rt_add(STARTED, 1); if (w.ng > 0) MC_AWAIT(w.g); if (w.ng > 1) MC_AWAIT(w.g2); if (w.thr) throw Exc(w.id); MC_RETURN(Val(w.id)); MC_END(); }
task<Val&> wRef(W w) { Guard b(BODYG); rt_add(STARTED, 1); if (w.ng > 0) co_await w.g; if (w.ng > 1) co_await w.g2; if (w.thr) throw Exc(w.id); *w.ext = Val(w.id); co_return *w.ext; }
task<MVal> wMV(W w) { Guard b(BODYG); rt_add(STARTED, 1); if (w.ng > 0) co_await w.g; if (w.ng > 1) co_await w.g2; if (w.thr) throw Exc(w.id); co_return MVal(w.id); }
task<void> wVoid(W w) { Guard b(BODYG); rt_add(STARTED, 1); if (w.ng > 0) co_await w.g; if (w.ng > 1) co_await w.g2; if (w.thr) throw Exc(w.id); *w.ext = Val(w.id); }
eager_task<Val> wEager(W w) { Guard b(BODYG); rt_add(STARTED, 1); if (w.ng > 0) co_await w.g; if (w.ng > 1) co_await w.g2; if (w.thr) throw Exc(w.id); co_return Val(w.id); }
// awaiters with the forms of await_suspend
template<class H> using Void = std::conditional_t<std::is_same_v<typename coroutine_handle_traits<H>::template coroutine_handle<void>, coroutine_handle<void>>, coroutine_handle<>, std::coroutine_handle<>>;
template<int F> struct WA {
    W w; Guard b{ BODYG }; Val v{ 7 };
    explicit WA(W w_) : w(w_) {} WA(WA&&) = default;
    bool await_ready() { rt_add(STARTED, 1); return w.ng == 0; }
    template<class H> auto await_suspend(H h) { bool s = w.g.await_suspend(h); if constexpr (F == 0) { return s; } else return ret(s ? coroutine_handle<>(noop_coroutine()) : coroutine_handle<>(h), (Void<H>*)nullptr); }
    static std::coroutine_handle<> ret(coroutine_handle<> a, std::coroutine_handle<>*) { return a.std_cast(); } static coroutine_handle<> ret(coroutine_handle<> a, coroutine_handle<>*) { return a; }
    Val await_resume() { if (w.thr) throw Exc(w.id); return Val(w.id); }
};
struct WAV : WA<1> { using WA<1>::WA; void await_resume() { if (w.thr) throw Exc(w.id); *w.ext = Val(w.id); } };
struct WAR : WA<0> { using WA<0>::WA; Val& await_resume() { if (w.thr) throw Exc(w.id); v = Val(w.id); return v; } };
struct WAX : WA<0> { using WA<0>::WA; Val&& await_resume() { if (w.thr) throw Exc(w.id); v = Val(w.id); return std::move(v); } };
struct WC { W w; Guard b{ BODYG }; WA<0> operator co_await() && { return WA<0>(w); } };          // an awaitable for rvalues
struct WL { W w; Guard b{ BODYG }; WA<1> operator co_await() & { return WA<1>(w); } WA<1> operator co_await() && = delete; };   // for lvalues
struct WCF { W w; Guard b{ BODYG }; };                                                                  // a free operator
WA<0> operator co_await(WCF&& f) { return WA<0>(f.w); }

template<class R> void saw(R&& r, const W& w) {
    RT_CHECK(rt_add(RESUMED, 1) == 1, "resumed-twice");
    RT_CHECK(r.has_value() == !w.thr, "wrong-alternative");
    if (w.thr) RT_CHECK(idof(r.error()) == w.id, "not-the-exception-it-completed-with");
    else if constexpr (std::is_void_v<typename std::remove_cvref_t<R>::value_type>) { r.value(); RT_CHECK(w.ext->get() == w.id, "not-completed"); }
    else RT_CHECK(r.value().get() == w.id, "not-the-value-it-completed-with");
}
template<class T> constexpr bool moved_out = false;
#define FORMS(X) \
    X(0, Val, wVal(w)) X(1, Val, wValMC(w)) X(2, Val&, wRef(w)) X(3, MVal, wMV(w)) X(4, void, wVoid(w)) X(5, Val, wEager(w)) \
    X(6, Val, WA<0>(w)) X(7, Val, WA<1>(w)) X(8, void, WAV(w)) X(9, Val, WAR(w)) X(10, Val, WAX(w)) X(11, Val, (WC{ w })) X(12, Val, (WCF{ w }))
#define LFORMS(X) \
    X(13, Val, wVal(w)) X(14, Val&, wRef(w)) X(15, void, wVoid(w)) X(16, Val, WA<0>(w)) X(17, Val, WA<1>(w)) X(18, Val, WAR(w)) X(19, Val, (WL{ w }))
enum { NF = 20 };
task<void> use20(int f, bool pipe, W w) {
#define X(N, T, E) if (f == N) { if (pipe) { auto r = co_await (E | wrap()); saw(r, w); } else { auto r = co_await wrap(E); saw(r, w); } }
    FORMS(X)
#undef X
#define X(N, T, E) if (f == N) { auto l = E; if (pipe) { auto r = co_await (l | wrap()); saw(r, w); } else { auto r = co_await wrap(l); saw(r, w); } }
    LFORMS(X)
#undef X
    if (w.ext->get() != w.id) RT_CHECK(w.ext->get() == -50, "the-referred-to-object-was-changed");
}
template<class W> awaitable_result_t<W> emptyw() { return Err(std::exception_ptr{}); }
template<class T> result<T> empty() { return Err(std::exception_ptr{}); }
template<class T> std::remove_reference_t<T>& LV(T&&);
#define MCL(T, E) [](bool pipe, W w) -> task<void> { MC_BEGIN(task<void>, pipe, w, r = emptyw<decltype(wrap(E))>()); if (pipe) MC_AWAIT_SET(r, E | wrap()); else MC_AWAIT_SET(r, wrap(E)); saw(r, w); MC_END(); }(pipe, w)
#define MCLL(T, E) [](bool pipe, W w) -> task<void> { MC_BEGIN(task<void>, pipe, w, l = E, r = emptyw<decltype(wrap(LV(E)))>()); if (pipe) MC_AWAIT_SET(r, l | wrap()); else MC_AWAIT_SET(r, wrap(l)); saw(r, w); MC_END(); }(pipe, w)
#define MCT(T, E) [](W w) -> task<void> { MC_BEGIN(task<void>, w, r = empty<T>()); MC_AWAIT_TRY(r, E); saw(r, w); MC_END(); }(w)
#define MCTL(T, E) [](W w) -> task<void> { MC_BEGIN(task<void>, w, l = E, r = empty<T>()); MC_AWAIT_TRY(r, l); saw(r, w); MC_END(); }(w)
task<void> useMC(int f, bool pipe, W w) {
#define X(N, T, E) if (f == N) return MCL(T, E);
    FORMS(X)
#undef X
#define X(N, T, E) if (f == N) return MCLL(T, E);
    LFORMS(X)
#undef X
    std::abort();
}
task<void> useTry(int f, W w) {
#define X(N, T, E) if (f == N) return MCT(T, E);
    FORMS(X)
#undef X
#define X(N, T, E) if (f == N) return MCTL(T, E);
    LFORMS(X)
#undef X
    std::abort();
}
void useSync(int f, bool pipe, W w) {
#define X(N, T, E) if (f == N) { if (pipe) { auto r = sync_wait(E | wrap()); saw(r, w); } else { auto r = sync_wait(wrap(E)); saw(r, w); } }
    FORMS(X)
#undef X
#define X(N, T, E) if (f == N) { auto l = E; if (pipe) { auto r = sync_wait(l | wrap()); saw(r, w); } else { auto r = sync_wait(wrap(l)); saw(r, w); } }
    LFORMS(X)
#undef X
}
Drv drive(task<void> t) { co_await std::move(t); }
void run_wrap(int how) {
    int f = (int)rt_rand(NF); bool pipe = coin(), early = coin(); Val ext(-50);
    Workers ws(1 + (int)rt_rand(2)); W w{ { ws.gate() }, (int)rt_rand(3), { ws.gate() }, coin(), 100 + (int)rt_rand(100), &ext };
    rt_desc("form=%d how=%d pipe=%d gates=%d throws=%d early=%d", f, how, pipe, w.ng, w.thr, early);
    if (early || how == 3) ws.start();
    if (how == 0) drive(use20(f, pipe, w)); else if (how == 1) drive(useMC(f, pipe, w)); else if (how == 2) drive(useTry(f, w)); else useSync(f, pipe, w);
    if (ws.th.empty()) ws.start();
    ws.join(); RT_CHECK(rt_get(RESUMED) == 1, "never-resumed"); RT_CHECK(rt_get(BODYG) == 0 && rt_get(STARTED) == 1, "not-awaited-once"); rt_count("wrapped-awaits", 1);
}
}
RT_CASE(C19, result_coroutines) { if (coin()) run_result_coroutines<std::exception_ptr>(); else run_result_coroutines<EA>(); }
RT_CASE_W(C19, wrap_c20, 2) { run_wrap(0); }
RT_CASE_W(C19, wrap_mc, 2) { run_wrap(1); }
RT_CASE_W(C19, await_try, 2) { run_wrap(2); }
RT_CASE_W(C19, wrap_sync_wait, 2) { run_wrap(3); }
