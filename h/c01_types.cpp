// C01: whatever the type of an operation's result, task, make_task and a nested await deliver it unchanged.
#include "types.h"
using namespace macoro;
namespace {
template<class A> auto nest(A a) -> task<remove_rvalue_reference_t<awaitable_result_t<A>>> { co_return co_await std::move(a); }
template<class A> auto nest2(A a) -> task<remove_rvalue_reference_t<awaitable_result_t<A>>> { return nest(nest(std::move(a))); }
}
RT_CASE(C01, types_of_task) { ty::run<true>("nested", [](auto a) { return nest2(std::move(a)); }, [] {}); }
RT_CASE(C01, types_of_make_task) { ty::run<true>("make_task", [](auto a) { return make_task(std::move(a)); }, [] {}); }
RT_CASE(C01, types_of_task_lvalue) { ty::keeps("make_task", [](auto& a) { return make_task(a); }); }
