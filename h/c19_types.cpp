// C19: whatever the type of the operation's result, the result that wrap gives holds its value or its exception.
#include "types.h"
#include "macoro/wrap.h"
using namespace macoro;
namespace {
template<int K> Drv go(ty::Ctx& c, int form) {
    auto look = [&](auto&& r) {
        RT_CHECK(r.has_error() == c.thr && r.has_value() == !c.thr && bool(r) == !c.thr, "wrong-kind-of-outcome");
        bool caught = false;
        try {
            if constexpr (ty::is_void(K)) r.value();
            else if constexpr (K == ty::kBase) RT_CHECK(r.value().n == 3, "wrong-result");
            else if constexpr (K == ty::kPtr) RT_CHECK(r.value() == &c.val, "wrong-result");
            else RT_CHECK(r.value().get() == 9, "wrong-result");
            RT_CHECK(!c.thr, "exception-lost");
        } catch (Exc& e) { caught = true; RT_CHECK(e.id == 4, "wrong-exception"); }
        if (c.thr) { bool again = false; try { std::rethrow_exception(r.error()); } catch (Exc& e) { again = e.id == 4; } RT_CHECK(again, "wrong-exception"); }
        return caught;
    };
    bool caught = false;
    try {
        if (form == 0) { auto r = co_await wrap(ty::make<K>(c)); caught = look(r); }
        else if (form == 1) { auto r = co_await(ty::make<K>(c) | wrap()); caught = look(r); }
        else { auto a = ty::make<K>(c); auto r = co_await wrap(std::move(a)); caught = look(r); }
    } catch (Exc&) { RT_CHECK(false, "wrap-threw"); }
    ty::done(c, caught);
}
template<int... K> void all(std::integer_sequence<int, K...>, ty::Ctx& c, int k, int form) { ((k == K ? void(go<K>(c, form)) : void()), ...); }
}
RT_CASE(C19, types_of_wrap) {
    Workers w(1); int k = (int)rt_rand(ty::NKINDS), form = (int)rt_rand(3); bool early = coin();
    ty::Ctx c{ w.gate(), one_in(3) ? 0 : 1, one_in(4) };
    rt_desc("kind=%d form=%d gates=%d throws=%d", k, form, c.ng, c.thr);
    if (early) w.start();
    all(std::make_integer_sequence<int, ty::NKINDS>{}, c, k, form);
    if (!early) w.start();
    w.join();
    RT_CHECK(rt_get(ty::TY_RESUMES) == 1, "awaiter-not-resumed-exactly-once");
}
RT_CASE(C19, types_of_wrap_lvalue) {
    if (coin()) ty::keeps("wrap", [](auto& a) { return wrap(a); }, true);
    else ty::keeps("wrap pipe", [](auto& a) { return a | wrap(); }, true);
}
