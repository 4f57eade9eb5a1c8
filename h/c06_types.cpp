// C06: whatever the type of a task's result, the scoped_task of a when_all_scope delivers it unchanged.
#include "types.h"
#include "macoro/when_all_scope.h"
using namespace macoro;
namespace {
template<int K> when_all_scope body(ty::Ctx& c, int form) {
    bool caught = false;
    try {
        auto h = co_await scoped(ty::make<K>(c));
        if constexpr (ty::is_void(K)) { co_await std::move(h); RT_CHECK(!c.thr, "exception-lost"); }
        else { auto&& r = co_await std::move(h); ty::check<K>(c, r); }
    }
    catch (Exc& e) { caught = true; RT_CHECK(e.id == 4, "wrong-exception"); }
    ty::done(c, caught);
}
template<int K> when_all_scope body_pipe(ty::Ctx& c, int form) {
    bool caught = false;
    try {
        auto h = co_await(ty::make<K>(c) | scoped());
        if constexpr (ty::is_void(K)) { co_await std::move(h); RT_CHECK(!c.thr, "exception-lost"); }
        else { auto&& r = co_await std::move(h); ty::check<K>(c, r); }
    }
    catch (Exc& e) { caught = true; RT_CHECK(e.id == 4, "wrong-exception"); }
    ty::done(c, caught);
}
Drv go(when_all_scope s) { try { co_await std::move(s); } catch (async_scope_exception&) {} rt_add(60, 1); }
template<int... K> void all(std::integer_sequence<int, K...>, ty::Ctx& c, int k, int form) { ((k == K ? void(go(form ? body<K>(c, form) : body_pipe<K>(c, form))) : void()), ...); }
}
RT_CASE(C06, types_of_scoped) {
    Workers w(1); int k = (int)rt_rand(ty::NKINDS), form = (int)rt_rand(2); bool early = coin();
    ty::Ctx c{ w.gate(), one_in(3) ? 0 : 1, one_in(4) };
    rt_desc("kind=%d form=%d gates=%d throws=%d", k, form, c.ng, c.thr);
    if (early) w.start();
    all(std::make_integer_sequence<int, ty::NKINDS>{}, c, k, form);
    if (!early) w.start();
    w.join();
    RT_CHECK(rt_get(ty::TY_RESUMES) == 1 && rt_get(60) == 1, "awaiter-not-resumed-exactly-once");
}
