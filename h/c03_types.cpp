// C03: whatever the type of an operation's result, sync_wait and make_blocking return it unchanged.
#include "types.h"
#include "macoro/sync_wait.h"
using namespace macoro;
namespace {
template<int K> void wait_(ty::Ctx& c, int form) {
    bool caught = false;
    auto see = [&](auto&& go) {
        if constexpr (ty::is_void(K)) { go(); RT_CHECK(!c.thr, "exception-lost"); }
        else if constexpr (ty::is_ref(K) || std::is_lvalue_reference_v<decltype(go())>) { auto&& r = go(); ty::check<K>(c, r); }
        else { auto r = go(); ty::check<K>(c, r); }
    };
    try {
        switch (form) {
        case 0: see([&]() -> decltype(auto) { return sync_wait(ty::make<K>(c)); }); break;
        case 1: see([&]() -> decltype(auto) { return ty::make<K>(c) | sync_wait(); }); break;
        case 2: { auto b = make_blocking(ty::make<K>(c)); see([&]() -> decltype(auto) { return b.get(); }); break; }
        case 3: { auto b = ty::make<K>(c) | make_blocking(); see([&]() -> decltype(auto) { return b.get(); }); break; }
        case 4: if constexpr (K == ty::kMVal) { sync_wait(ty::make<ty::kVoid>(c)); RT_CHECK(!c.thr, "exception-lost"); } else { auto t = ty::make<K>(c); see([&]() -> decltype(auto) { return sync_wait(t); }); break; }
        }
    }
    catch (Exc& e) { caught = true; RT_CHECK(e.id == 4, "wrong-exception"); }
    ty::done(c, caught);
}
template<int... K> void all(std::integer_sequence<int, K...>, ty::Ctx& c, int k, int form) { ((k == K ? wait_<K>(c, form) : void()), ...); }
}
RT_CASE(C03, types_of_blocking) {
    Workers w(1); int k = (int)rt_rand(ty::NKINDS), form = (int)rt_rand(5);
    ty::Ctx c{ w.gate(), one_in(3) ? 0 : 1, one_in(4) };
    rt_desc("kind=%d form=%d gates=%d throws=%d", k, form, c.ng, c.thr);
    w.start();
    all(std::make_integer_sequence<int, ty::NKINDS>{}, c, k, form);
    w.join();
    RT_CHECK(rt_get(ty::TY_RESUMES) == 1, "not-returned-exactly-once");
}
RT_CASE(C03, types_of_blocking_lvalue) {
    Workers w(1); int form = (int)rt_rand(4); ty::Ctx c{ w.gate(), one_in(3) ? 0 : 1, one_in(4) }; ty::Keep k{ &c }; bool caught = false;
    rt_desc("form=%d gates=%d throws=%d", form, c.ng, c.thr);
    w.start();
    try {
        switch (form) {
        case 0: { auto r = sync_wait(k); ty::check<ty::kVal>(c, r); break; }
        case 1: { auto r = k | sync_wait(); ty::check<ty::kVal>(c, r); break; }
        case 2: { auto b = make_blocking(k); auto r = b.get(); ty::check<ty::kVal>(c, r); break; }
        case 3: { auto b = k | make_blocking(); auto r = b.get(); ty::check<ty::kVal>(c, r); break; }
        }
    }
    catch (Exc& e) { caught = true; RT_CHECK(e.id == 4, "wrong-exception"); }
    ty::done(c, caught);
    w.join();
    RT_CHECK(k.own.get() == 8, "operand-of-the-caller-taken");
    if (form < 2) RT_CHECK(c.seen == &k, "a-copy-of-the-operand-awaited");
    rt_count("lvalue-operands", 1);
}
