// Building blocks of the harnesses: tracked values, exceptions, gates, drivers.
#pragma once
#include "../rt/rt.h"
#include "macoro/config.h"
#include "macoro/coroutine_handle.h"
#include "macoro/task.h"
#include "macoro/macros.h"
#include <atomic>
#include <coroutine>
#include <deque>
#include <exception>
#include <memory>
#include <mutex>
#include <optional>
#include <stdexcept>
#include <thread>
#include <utility>
#include <vector>

// monitor slots: [0,16) must be zero when an execution ends
enum { SL_VAL = 0, SL_EXC = 1, SL_DRV = 2, SL_GUARD = 3, SL_FREE0 = 16 };

// ------------------------------------------------------------ tracked value
// Owns a heap block, so that every lifetime error is visible to the runtime.
struct Val {
    int64_t* box;
    explicit Val(int64_t id) : box(new int64_t(id)) { rt_add(SL_VAL, 1); }
    Val() : Val(-2) {}
    Val(const Val& o) : box(new int64_t(o.get())) { rt_add(SL_VAL, 1); }
    Val(Val&& o) noexcept : box(o.box) { o.box = nullptr; rt_add(SL_VAL, 1); }
    Val& operator=(const Val& o) { if (this != &o) { auto* n = new int64_t(o.get()); delete box; box = n; } return *this; }
    Val& operator=(Val&& o) noexcept { if (this != &o) { delete box; box = o.box; o.box = nullptr; } return *this; }
    ~Val() { rt_add(SL_VAL, -1); delete box; }
    int64_t get() const { return box ? *box : -1; }     // -1: moved from
    bool operator==(const Val& o) const { return get() == o.get(); }
};
// move-only
struct MVal {
    int64_t* box;
    explicit MVal(int64_t id) : box(new int64_t(id)) { rt_add(SL_VAL, 1); }
    MVal(const MVal&) = delete;
    MVal(MVal&& o) noexcept : box(std::exchange(o.box, nullptr)) { rt_add(SL_VAL, 1); }
    MVal& operator=(MVal&& o) noexcept { if (this != &o) { delete box; box = std::exchange(o.box, nullptr); } return *this; }
    ~MVal() { rt_add(SL_VAL, -1); delete box; }
    int64_t get() const { return box ? *box : -1; }
};

struct Exc {
    int64_t id;
    explicit Exc(int64_t i) : id(i) { rt_add(SL_EXC, 1); }
    Exc(const Exc& o) : id(o.id) { rt_add(SL_EXC, 1); }
    ~Exc() { rt_add(SL_EXC, -1); }
};

// counts its own lifetime in SL_GUARD and in a slot of the user's choice
struct Guard {
    int slot;
    explicit Guard(int s = 15) : slot(s) { rt_add(SL_GUARD, 1); rt_add(slot, 1); }
    Guard(const Guard& o) : slot(o.slot) { rt_add(SL_GUARD, 1); rt_add(slot, 1); }
    ~Guard() { rt_add(SL_GUARD, -1); rt_add(slot, -1); }
};

// ------------------------------------------------------------------- driver
// A detached eager coroutine: frees itself when the body returns.
struct Drv {
    struct promise_type {
        promise_type() { rt_add(SL_DRV, 1); }
        ~promise_type() { rt_add(SL_DRV, -1); }
        Drv get_return_object() noexcept { return {}; }
        std::suspend_never initial_suspend() noexcept { return {}; }
        std::suspend_never final_suspend() noexcept { return {}; }
        void return_void() noexcept {}
        void unhandled_exception() noexcept { rt_fail("unexpected-exception", "an exception left a driver coroutine"); }
    };
};

// --------------------------------------------------------------------- gate
// One coroutine waits, one thread opens; correctly synchronised.
struct Gate {
    std::atomic<void*> st{ nullptr };
    static void* opened() { return (void*)16; }
    void open() {
        void* o = st.exchange(opened(), std::memory_order_acq_rel);
        if (o && o != opened()) macoro::coroutine_handle<>::from_address(o).resume();
    }
    bool try_wait(void* h) {
        void* e = nullptr;
        return st.compare_exchange_strong(e, h, std::memory_order_acq_rel, std::memory_order_acquire);
    }
    bool await_ready() const noexcept { return st.load(std::memory_order_acquire) == opened(); }
    bool await_suspend(std::coroutine_handle<> h) noexcept { return try_wait(h.address()); }
    bool await_suspend(macoro::coroutine_handle<> h) noexcept { return try_wait(h.address()); }
    void await_resume() noexcept {}
};
// an awaitable that refers to a gate
struct GateRef {
    Gate* g;
    bool await_ready() const noexcept { return g->await_ready(); }
    bool await_suspend(std::coroutine_handle<> h) noexcept { return g->try_wait(h.address()); }
    bool await_suspend(macoro::coroutine_handle<> h) noexcept { return g->try_wait(h.address()); }
    void await_resume() noexcept {}
};

// gates split over worker threads that open them
struct Workers {
    std::deque<Gate> gates;
    std::vector<std::vector<Gate*>> q;
    std::vector<std::thread> th;
    explicit Workers(int n) : q(n) {}
    Gate* gate() {
        gates.emplace_back();
        Gate* g = &gates.back();
        auto& v = q[rt_rand(q.size())];
        v.insert(v.begin() + (ptrdiff_t)rt_rand(v.size() + 1), g);
        return g;
    }
    void start() {
        for (auto& v : q) th.emplace_back([&v] { for (auto* g : v) g->open(); });
    }
    void join() { for (auto& t : th) t.join(); th.clear(); }
};

// an object moved into itself keeps its value
template<class T> void self_move(T& t) { T& u = t; t = std::move(u); rt_count("self-moves", 1); }
inline bool coin() { return rt_rand(2) == 0; }
inline bool one_in(uint64_t n) { return rt_rand(n) == 0; }
