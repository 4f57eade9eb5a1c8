// C02: whatever the type of an operation's result, eager_task, make_eager and start_on deliver it unchanged.
#include "types.h"
#include "macoro/start_on.h"
#include "macoro/inline_scheduler.h"
#include "macoro/thread_pool.h"
using namespace macoro;
namespace {
template<class A> auto nest(A a) -> eager_task<remove_rvalue_reference_t<awaitable_result_t<A>>> { co_return co_await std::move(a); }
}
RT_CASE(C02, types_of_eager_task) { ty::run<true>("nested", [](auto a) { return nest(nest(std::move(a))); }, [] {}); }
RT_CASE(C02, types_of_make_eager) {
    if (coin()) ty::run<true>("make_eager", [](auto a) { return make_eager(std::move(a)); }, [] {});
    else ty::run<true>("make_eager pipe", [](auto a) { return std::move(a) | make_eager(); }, [] {});
}
RT_CASE(C02, types_of_start_on) {
    inline_scheduler in;
    if (coin()) ty::run<true>("start_on", [&](auto a) { return start_on(in, std::move(a)); }, [] {});
    else ty::run<true>("start_on pipe", [&](auto a) { return std::move(a) | start_on(in); }, [] {});
}
RT_CASE(C02, types_of_start_on_pool) {
    thread_pool tp; auto work = tp.make_work(); tp.create_thread();
    ty::run<true>("start_on pool", [&](auto a) { return std::move(a) | start_on(tp); }, [&] { work.reset(); tp.join(); });
}
RT_CASE(C02, types_of_eager_lvalue) {
    if (coin()) ty::keeps("make_eager", [](auto& a) { return make_eager(a); });
    else ty::keeps("make_eager pipe", [](auto& a) { return a | make_eager(); });
}
