// C04: whatever the type of a child's result, when_all_ready delivers it unchanged, from its place.
#include "types.h"
#include "macoro/when_all.h"
using namespace macoro;
namespace {
task<int> other(int i) { co_return int(i); }
template<int K> Drv tuple_(ty::Ctx& c, int form) {
    bool caught = false;
    try {
        auto r = co_await when_all_ready(other(5), ty::make<K>(c), other(6));
        RT_CHECK(std::get<0>(r).result() == 5 && std::get<2>(r).result() == 6, "result-of-another-child");
        if constexpr (ty::is_void(K)) { std::get<1>(r).result(); RT_CHECK(!c.thr, "exception-lost"); }
        else if (form == 0) { auto&& x = std::get<1>(r).result(); ty::check<K>(c, x); }
        else { auto&& x = std::move(std::get<1>(r)).result(); ty::check<K>(c, x); }
    }
    catch (Exc& e) { caught = true; RT_CHECK(e.id == 4, "wrong-exception"); }
    ty::done(c, caught);
}
template<int K> Drv vector_(ty::Ctx& c, int form) {
    bool caught = false;
    try {
        std::vector<decltype(ty::make<K>(c))> v; v.push_back(ty::make<K>(c));
        auto r = co_await when_all_ready(std::move(v));
        RT_CHECK(r.size() == 1, "wrong-number-of-results");
        if constexpr (ty::is_void(K)) { r[0].result(); RT_CHECK(!c.thr, "exception-lost"); }
        else if (form == 0) { auto&& x = r[0].result(); ty::check<K>(c, x); }
        else { auto&& x = std::move(r[0]).result(); ty::check<K>(c, x); }
    }
    catch (Exc& e) { caught = true; RT_CHECK(e.id == 4, "wrong-exception"); }
    ty::done(c, caught);
}
template<int... K> void all(std::integer_sequence<int, K...>, ty::Ctx& c, int k, int form, bool vec) {
    ((k == K ? void(vec ? vector_<K>(c, form) : tuple_<K>(c, form)) : void()), ...);
}
}
RT_CASE(C04, types_of_when_all) {
    Workers w(1); int k = (int)rt_rand(ty::NKINDS), form = (int)rt_rand(2); bool vec = coin(), early = coin();
    ty::Ctx c{ w.gate(), one_in(3) ? 0 : 1, one_in(4) };
    rt_desc("kind=%d form=%d vector=%d gates=%d throws=%d", k, form, vec, c.ng, c.thr);
    if (early) w.start();
    all(std::make_integer_sequence<int, ty::NKINDS>{}, c, k, form, vec);
    if (!early) w.start();
    w.join();
    RT_CHECK(rt_get(ty::TY_RESUMES) == 1, "awaiter-not-resumed-exactly-once");
}
namespace {
template<class R> Drv lval_(ty::Ctx& c, ty::KeepR<R>& k, int form) {
    bool caught = false;
    auto look = [&](auto&& x) { if constexpr (std::is_void_v<R>) { x.result(); RT_CHECK(!c.thr, "exception-lost"); } else { auto&& y = x.result(); ty::check<ty::kVal>(c, y); } };
    try {
        if (form == 0) { auto r = co_await when_all_ready(k); RT_CHECK(c.seen == &k, "a-copy-of-the-operand-awaited"); look(std::get<0>(r)); }
        else { std::vector<ty::KeepR<R>> v; v.push_back(k); auto w = when_all_ready(v); RT_CHECK(v.size() == 1 && v[0].own.get() == 8, "operand-of-the-caller-taken"); auto r = co_await std::move(w); look(r[0]); }
    }
    catch (Exc& e) { caught = true; RT_CHECK(e.id == 4, "wrong-exception"); }
    ty::done(c, caught);
}
template<class R> void keep(const char* what) {
    Workers w(1); int form = (int)rt_rand(2); bool early = coin();
    ty::Ctx c{ w.gate(), one_in(3) ? 0 : 1, one_in(4) }; ty::KeepR<R> k{ &c };
    rt_desc("%s form=%d gates=%d throws=%d", what, form, c.ng, c.thr);
    if (early) w.start();
    lval_(c, k, form);
    if (!early) w.start();
    w.join();
    RT_CHECK(k.own.get() == 8, "operand-of-the-caller-taken");
    RT_CHECK(rt_get(ty::TY_RESUMES) == 1, "awaiter-not-resumed-exactly-once");
}
}
RT_CASE(C04, types_of_when_all_lvalue) { if (coin()) keep<Val>("value"); else keep<void>("void"); }
