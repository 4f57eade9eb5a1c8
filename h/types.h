// What an await delivers, for every kind of awaitable an operator may be given: the object itself where the
// operation's result is a reference, an object of its own where it is a value. Written so that it still
// compiles when an operator answers with the wrong one of the two.
#pragma once
#include "hx.h"
#include "macoro/type_traits.h"

namespace ty {
using namespace macoro;
enum Kind { kVal, kMVal, kRef, kCRef, kBase, kPtr, kVoid, kRefMC, eVal, eRef, eVoid, aVal, aMVal, aRef, aCRef, aRR, aRRM, aVoid, aOp, aFree, NKINDS };
struct Poly { int64_t n = 3; virtual ~Poly() {} virtual int kind() const { return 0; } };
struct Derived : Poly { int kind() const override { return 1; } };
struct Ctx { Gate* g; int ng; bool thr; Val val{ 9 }; MVal mval{ 9 }; Derived obj; int sh = 0; const void* seen = nullptr; };
enum { TY_RESUMES = 61, TY_STARTS = 62, TY_ENDS = 63 };

#define TY_BODY rt_add(TY_STARTS, 1); if (c->ng) co_await GateRef{ c->g }; c->sh = 1; rt_add(TY_ENDS, 1); if (c->thr) throw Exc(4);
inline task<Val> mVal(Ctx* c) { TY_BODY co_return Val(9); }
inline task<MVal> mMVal(Ctx* c) { TY_BODY co_return MVal(9); }
inline task<Val&> mRef(Ctx* c) { TY_BODY co_return c->val; }
inline task<const Val&> mCRef(Ctx* c) { TY_BODY co_return c->val; }
inline task<Poly&> mBase(Ctx* c) { TY_BODY co_return c->obj; }
inline task<Val*> mPtr(Ctx* c) { TY_BODY co_return &c->val; }
inline task<void> mVoid(Ctx* c) { TY_BODY }
inline task<Val&> mRefMC(Ctx* c) { MC_BEGIN(task<Val&>, c); rt_add(TY_STARTS, 1); if (c->ng) MC_AWAIT(GateRef{ c->g }); c->sh = 1; rt_add(TY_ENDS, 1); if (c->thr) throw Exc(4); MC_RETURN(c->val); MC_END(); }
inline eager_task<Val> meVal(Ctx* c) { TY_BODY co_return Val(9); }
inline eager_task<Val&> meRef(Ctx* c) { TY_BODY co_return c->val; }
inline eager_task<void> meVoid(Ctx* c) { TY_BODY }
#undef TY_BODY
// an awaiter of its own making, whose operation is the gate
template<class R> struct Aw {
    Ctx* c;
    bool await_ready() const noexcept { rt_add(TY_STARTS, 1); return !c->ng || c->g->await_ready(); }
    bool await_suspend(std::coroutine_handle<> h) noexcept { return c->g->try_wait(h.address()); }
    bool await_suspend(macoro::coroutine_handle<> h) noexcept { return c->g->try_wait(h.address()); }
    R await_resume() {
        c->sh = 1; rt_add(TY_ENDS, 1); if (c->thr) throw Exc(4);
        if constexpr (std::is_same_v<R, Val>) return Val(9);
        else if constexpr (std::is_same_v<R, MVal>) return MVal(9);
        else if constexpr (std::is_same_v<R, MVal&&>) return std::move(c->mval);
        else if constexpr (std::is_same_v<R, Val&&>) return std::move(c->val);
        else if constexpr (!std::is_void_v<R>) return c->val;
    }
};
// an awaitable with operator co_await; spelled for both kinds of coroutine
struct Op { Ctx* c; Aw<Val&> operator co_await() const noexcept { return { c }; } };
// ... and with a free one
struct FreeOp { Ctx* c; };
inline Aw<Val> operator co_await(FreeOp&& f) noexcept { return { f.c }; }
inline Aw<Val> operator co_await(FreeOp& f) noexcept { return { f.c }; }

template<int K> auto make(Ctx& c) {
    if constexpr (K == kVal) return mVal(&c); else if constexpr (K == kMVal) return mMVal(&c); else if constexpr (K == kRef) return mRef(&c);
    else if constexpr (K == kCRef) return mCRef(&c); else if constexpr (K == kBase) return mBase(&c); else if constexpr (K == kPtr) return mPtr(&c);
    else if constexpr (K == kVoid) return mVoid(&c); else if constexpr (K == kRefMC) return mRefMC(&c);
    else if constexpr (K == eVal) return meVal(&c); else if constexpr (K == eRef) return meRef(&c); else if constexpr (K == eVoid) return meVoid(&c);
    else if constexpr (K == aVal) return Aw<Val>{ &c }; else if constexpr (K == aMVal) return Aw<MVal>{ &c }; else if constexpr (K == aRef) return Aw<Val&>{ &c };
    else if constexpr (K == aCRef) return Aw<const Val&>{ &c }; else if constexpr (K == aRR) return Aw<Val&&>{ &c }; else if constexpr (K == aRRM) return Aw<MVal&&>{ &c };
    else if constexpr (K == aVoid) return Aw<void>{ &c }; else if constexpr (K == aOp) return Op{ &c }; else return FreeOp{ &c };
}
constexpr bool is_void(int k) { return k == kVoid || k == eVoid || k == aVoid; }
constexpr bool is_ref(int k) { return k == kRef || k == kCRef || k == kBase || k == kRefMC || k == eRef || k == aRef || k == aCRef || k == aOp; }

template<int K, class R> void check(Ctx& c, R& r) {
    RT_CHECK(c.sh == 1, "result-before-completion");
    RT_CHECK(!c.thr, "exception-lost");
    if constexpr (K == kBase) { RT_CHECK((const void*)&r == (const void*)static_cast<Poly*>(&c.obj), "reference-result-is-a-copy"); RT_CHECK(r.kind() == 1 && r.n == 3, "reference-result-is-a-copy"); }
    else if constexpr (is_ref(K)) { RT_CHECK((const void*)&r == (const void*)&c.val, "reference-result-is-a-copy"); RT_CHECK(r.get() == 9, "wrong-result"); }
    else if constexpr (K == kPtr) RT_CHECK(r == &c.val, "wrong-result");
    else RT_CHECK(r.get() == 9, "wrong-result");
    rt_count("results-of-every-type", 1);
}
inline void done(Ctx& c, bool caught) {
    RT_CHECK(caught == c.thr, "wrong-kind-of-outcome");
    RT_CHECK(c.sh == 1 && rt_get(TY_ENDS) == 1 && rt_get(TY_STARTS) == 1, "operation-not-run-exactly-once");
    rt_add(TY_RESUMES, 1);
}
// lv: also await what f gave as an lvalue, twice
template<int K, bool lv, class F> Drv await_(Ctx& c, F f, int form) {
    bool caught = false;
    try {
        if constexpr (lv && K != kMVal) if (form == 2) {
            auto t = f(make<K>(c));
            if constexpr (is_void(K)) { co_await t; RT_CHECK(!c.thr, "exception-lost"); co_await t; }
            else { auto&& r = co_await t; check<K>(c, r); auto&& r2 = co_await t; check<K>(c, r2); if constexpr (!std::is_pointer_v<std::decay_t<decltype(r)>>) RT_CHECK((void*)&r == (void*)&r2, "lvalue-await-gave-a-copy"); }
        }
        if (form < 2 || !lv || K == kMVal) {
            if (form == 0) { if constexpr (is_void(K)) co_await f(make<K>(c)); else if constexpr (is_ref(K)) { auto&& r = co_await f(make<K>(c)); check<K>(c, r); } else { auto r = co_await f(make<K>(c)); check<K>(c, r); } }
            else { auto t = f(make<K>(c)); if constexpr (is_void(K)) co_await std::move(t); else { auto&& r = co_await std::move(t); check<K>(c, r); } }
        }
    }
    catch (Exc& e) { caught = true; RT_CHECK(e.id == 4, "wrong-exception"); }
    done(c, caught);
}
template<int K, bool lv, class F> void one(int k, Ctx& c, F& f, int form) { if (k == K) await_<K, lv>(c, f, form); }
// awaits f(an awaitable of a random kind); f must accept every kind
template<bool lv, class F, int... K> void all(std::integer_sequence<int, K...>, Ctx& c, int k, F& f, int form) { (one<K, lv>(k, c, f, form), ...); }
template<bool lv, class F, class Go> void run(const char* what, F f, Go go, bool again = true) {
    Workers w(1); int k = (int)rt_rand(NKINDS), form = (int)rt_rand(3); bool early = coin();
    Ctx c{ w.gate(), one_in(3) ? 0 : 1, one_in(4) };
    rt_desc("%s kind=%d form=%d gates=%d throws=%d", what, k, form, c.ng, c.thr);
    if (early) w.start();
    all<lv>(std::make_integer_sequence<int, NKINDS>{}, c, k, f, form);
    if (!early) w.start();
    go();
    w.join();
    RT_CHECK(rt_get(TY_RESUMES) == 1, "awaiter-not-resumed-exactly-once");
}

// an awaitable of the caller's that owns something: given as an lvalue it stays the caller's, whole
template<class R> struct KeepR {
    Ctx* c; Val own{ 8 };
    Aw<R> operator co_await() & { RT_CHECK(own.get() == 8, "operand-incomplete"); c->seen = this; return { c }; }
    Aw<R> operator co_await() && { RT_CHECK(own.get() == 8, "operand-incomplete"); c->seen = this; Val taken(std::move(own)); return { c }; }
};
using Keep = KeepR<Val>;
// in_place: the operator awaits the caller's object itself, not a copy of it
template<class F> Drv keep_(Ctx& c, Keep& k, F& f) {
    bool caught = false;
    try {
        auto t = f(k);
        RT_CHECK(k.own.get() == 8, "operand-of-the-caller-taken");
        auto&& r = co_await std::move(t);
        if constexpr (requires { r.has_error(); }) { if (r.has_error()) std::rethrow_exception(r.error()); check<kVal>(c, r.value()); }
        else check<kVal>(c, r);
    }
    catch (Exc& e) { caught = true; RT_CHECK(e.id == 4, "wrong-exception"); }
    done(c, caught);
}
template<class F> void keeps(const char* what, F f, bool in_place = false) {
    Workers w(1); bool early = coin();
    Ctx c{ w.gate(), one_in(3) ? 0 : 1, one_in(4) }; Keep k{ &c };
    rt_desc("%s gates=%d throws=%d", what, c.ng, c.thr);
    if (early) w.start();
    keep_(c, k, f);
    if (!early) w.start();
    w.join();
    RT_CHECK(k.own.get() == 8, "operand-of-the-caller-taken");
    if (in_place) RT_CHECK(c.seen == &k, "a-copy-of-the-operand-awaited");
    RT_CHECK(rt_get(TY_RESUMES) == 1, "awaiter-not-resumed-exactly-once");
    rt_count("lvalue-operands", 1);
}
}
