// C17: whatever the type of the operation's result, take_until delivers it unchanged.
#include "types.h"
#include "macoro/take_until.h"
using namespace macoro;
namespace {
struct Until {
    int* stopped;
    void request_stop() { ++*stopped; }
    bool await_ready() const noexcept { return true; }
    template<class H> void await_suspend(H) noexcept {}
    void await_resume() { RT_CHECK(*stopped == 1, "until-awaited-without-being-stopped"); }
};
}
RT_CASE(C17, types_of_take_until) {
    int stopped = 0;
    ty::run<true>("take_until", [&](auto a) { return take_until(std::move(a), Until{ &stopped }); }, [] {});
    RT_CHECK(stopped == 1, "until-not-stopped-exactly-once");
}
RT_CASE(C17, types_of_until_lvalue) { int stopped = 0; ty::keeps("take_until", [&](auto& a) { return take_until(a, Until{ &stopped }); }); }
