// C05: whatever the type of a task's result, the handle that async_scope::add gives delivers it unchanged.
#include "types.h"
#include "macoro/async_scope.h"
using namespace macoro;
RT_CASE(C05, types_of_scope) {
    async_scope sc;
    ty::run<false>("add", [&](auto a) { return sc.add(std::move(a)); }, [] {});
    { struct J { static Drv go(async_scope& s) { try { co_await s; } catch (async_scope_exception&) {} catch (Exc&) {} rt_add(60, 1); } }; J::go(sc); }
    RT_CHECK(rt_get(60) == 1, "joiner-not-resumed");
}
