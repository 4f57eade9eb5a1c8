// C07: barrier.
#include "hx.h"
#include "macoro/barrier.h"
#include "macoro/sync_wait.h"
using namespace macoro;

namespace {
enum { CALLED = 20, RESUMED = 21, TOTAL = 22, WAITING = 23, LATE = 24 };
struct Ctx {
    std::unique_ptr<barrier> b; std::vector<int> data; int rounds; bool destroy; bool sync;
    std::atomic<int> round{ 0 };
};
// the waiter: after each release it must see all writes, may destroy or reuse at once
Drv waiter(Ctx* c, int n) {
    barrier* b = c->b.get();
    rt_set(WAITING, 1);
    co_await *b;
    RT_CHECK(rt_add(RESUMED, 1) == 1, "waiter-resumed-twice");
    RT_CHECK(rt_get(CALLED) == rt_get(TOTAL), "resumed-before-the-count-was-zero");
    for (int i = 0; i < n; ++i) RT_CHECK(c->data[i] == i + 1, "writes-before-decrement-not-visible");
    if (c->destroy) c->b.reset();
}
Drv waiterMC_(Ctx* c, int n);
task<void> waiter_task(Ctx* c, int n) {
    MC_BEGIN(task<void>, c, n);
    rt_set(WAITING, 1);
    MC_AWAIT(*c->b);
    RT_CHECK(rt_add(RESUMED, 1) == 1, "waiter-resumed-twice");
    RT_CHECK(rt_get(CALLED) == rt_get(TOTAL), "resumed-before-the-count-was-zero");
    for (int i = 0; i < n; ++i) RT_CHECK(c->data[i] == i + 1, "writes-before-decrement-not-visible");
    if (c->destroy) c->b.reset();
    MC_END();
}
Drv start_task(Ctx* c, int n) { co_await waiter_task(c, n); }
}

// n threads decrement (some add more work first), one coroutine waits and destroys the barrier
RT_CASE_W(C07, barrier_release, 3) {
    int n = 1 + (int)rt_rand(3); bool extra = coin(), mc = coin();
    Ctx c; c.destroy = coin(); c.data.assign(n * 2, 0);
    int where = (int)rt_rand(3);    // the waiter runs: before, between, after starting the threads
    int total = n; std::vector<int> more(n, 0);
    for (int i = 0; i < n; ++i) if (extra && coin()) { more[i] = 1; ++total; }
    std::vector<int> slots(n); 
    rt_desc("threads=%d extra=%d where=%d destroy=%d macro=%d", n, total - n, where, c.destroy, mc);
    rt_set(TOTAL, total);
    c.b = std::make_unique<barrier>(n);
    barrier* b = c.b.get();
    auto wait = [&] { if (mc) start_task(&c, n); else waiter(&c, n); };
    std::vector<std::thread> th; std::thread wt;
    if (where == 0) wait();
    else if (where == 1) wt = std::thread(wait);
    for (int i = 0; i < n; ++i) th.emplace_back([&, b, i] {
        int k = 1;
        c.data[i] = i + 1;
        if (more[i]) { size_t r = coin() ? b->increment() : b->add(1); RT_CHECK(r >= 2 && r <= (size_t)total + 1, "increment-returned-an-impossible-count"); ++k; }
        for (int j = 0; j < k; ++j) {
            rt_add(CALLED, 1);
            size_t r = b->decrement();
            RT_CHECK(r <= (size_t)total, "decrement-returned-an-impossible-count");
        }
    });
    if (where == 2) wait();
    for (auto& t : th) t.join();
    if (wt.joinable()) wt.join();
    RT_CHECK(rt_get(RESUMED) == 1, "waiter-never-resumed");
    rt_count("releases", 1);
}

// reuse: the resumed coroutine arms the barrier again, several rounds, each served by other threads
RT_CASE_W(C07, barrier_reuse, 2) {
    int n = 1 + (int)rt_rand(2), rounds = 2 + (int)rt_rand(3);
    rt_desc("threads=%d rounds=%d", n, rounds);
    struct X { barrier b{ 0 }; int n, rounds; std::vector<int> data; std::atomic<int> round{ 0 }; } x;
    x.n = n; x.rounds = rounds; x.data.assign(n, 0);
    struct L { static Drv go(X* x) {
        for (int r = 1; r <= x->rounds; ++r) {
            rt_set(CALLED, 0);
            size_t k = x->b.add(x->n);
            RT_CHECK(k == (size_t)x->n, "add-returned-a-wrong-count");
            x->round.store(r, std::memory_order_release);
            co_await x->b;
            RT_CHECK(rt_get(CALLED) == x->n, "resumed-before-the-count-was-zero");
            RT_CHECK(rt_add(RESUMED, 1) == r, "waiter-resumed-twice");
            for (int i = 0; i < x->n; ++i) RT_CHECK(x->data[i] == r, "writes-before-decrement-not-visible");
        }
        rt_count("rounds", x->rounds);
    } };
    std::vector<std::thread> th;
    for (int i = 0; i < n; ++i) th.emplace_back([&, i] {
        for (int r = 1; r <= rounds; ++r) {
            while (x.round.load(std::memory_order_acquire) < r) std::this_thread::yield();
            x.data[i] = r;
            rt_add(CALLED, 1);
            x.b.decrement();
        }
    });
    L::go(&x);
    for (auto& t : th) t.join();
    RT_CHECK(rt_get(RESUMED) == rounds, "waiter-never-resumed");
    RT_CHECK(x.b.count() == 0, "count-not-zero-at-the-end");
}

// a barrier at zero: the await does not wait, and an add that races it is never lost
RT_CASE(C07, barrier_zero_vs_add) {
    barrier b(0); bool addfirst = coin();
    rt_desc("thread-adds");
    struct L { static Drv go(barrier* b) { co_await *b; rt_add(RESUMED, 1); } };
    std::thread t([&] { size_t r = b.add(2); RT_CHECK(r >= 2, "add-returned-a-wrong-count"); b.decrement(); rt_add(CALLED, 1); b.decrement(); });
    L::go(&b);
    t.join();
    RT_CHECK(rt_get(RESUMED) == 1, "waiter-never-resumed");
    RT_CHECK(b.count() == 0, "count-not-zero-at-the-end");
    rt_count("zero-vs-add", 1);
}

// no await in progress: returned counts are exactly a total order of the operations
RT_CASE(C07, barrier_counts) {
    int n = 2 + (int)rt_rand(2); size_t init = 3 * n + rt_rand(3);
    barrier b(init);
    rt_desc("threads=%d init=%zu", n, init);
    struct Op { int d; size_t r; }; std::vector<std::vector<Op>> ops(n);
    std::vector<std::thread> th;
    for (int i = 0; i < n; ++i) {
        int k = 1 + (int)rt_rand(3);
        for (int j = 0; j < k; ++j) ops[i].push_back(Op{ one_in(3) ? (int)rt_rand(3) : -1, 0 });
        th.emplace_back([&, i] { for (auto& o : ops[i]) o.r = o.d < 0 ? b.decrement() : o.d == 1 && coin() ? b.increment() : b.add(o.d); });
    }
    for (auto& t : th) t.join();
    // exists an interleaving of the per-thread sequences with exactly these results?
    std::vector<size_t> pos(n, 0);
    struct F { static bool rec(std::vector<std::vector<Op>>& o, std::vector<size_t>& p, int64_t c) {
        bool all = true;
        for (size_t i = 0; i < o.size(); ++i) if (p[i] < o[i].size()) {
            all = false; Op& x = o[i][p[i]];
            if ((int64_t)x.r == c + x.d) { ++p[i]; if (rec(o, p, c + x.d)) { return true; } --p[i]; }
        }
        return all;
    } };
    RT_CHECK(F::rec(ops, pos, (int64_t)init), "returned-counts-fit-no-order-of-the-operations");
    int64_t sum = (int64_t)init; for (auto& v : ops) for (auto& o : v) sum += o.d;
    RT_CHECK(b.count() == (size_t)sum, "final-count-wrong");
    struct L { static Drv go(barrier* b) { co_await *b; rt_add(RESUMED, 1); } };
    L::go(&b);
    if (sum > 0) RT_CHECK(rt_get(RESUMED) == 0, "resumed-before-the-count-was-zero");
    while (sum > 0) { RT_CHECK(rt_get(RESUMED) == 0, "resumed-before-the-count-was-zero"); RT_CHECK(b.decrement() == (size_t)--sum, "decrement-returned-a-wrong-count"); }
    RT_CHECK(rt_get(RESUMED) == 1, "waiter-never-resumed");
    rt_count("count-histories", 1);
}

// another thread sees the count at zero and counts again, while the waiter is still being resumed
RT_CASE(C07, barrier_counts_again_at_zero) {
    int n = 1 + (int)rt_rand(2), k = 1 + (int)rt_rand(2); bool waiter = one_in(4) ? false : true; rt_desc("count=%d again=%d waiter=%d", n, k, waiter);
    barrier b((size_t)n); std::vector<std::thread> th;
    struct L { static Drv go(barrier* b) { co_await *b; RT_CHECK(rt_add(RESUMED, 1) == 1, "waiter-resumed-twice"); } };
    for (int i = 0; i < n; ++i) th.emplace_back([&] { b.decrement(); });
    std::thread p([&] {
        while (b.count()) std::this_thread::yield();
        for (int i = 1; i <= k; ++i) RT_CHECK(b.increment() == (size_t)i, "add-returned-a-wrong-count");
        for (int i = k; i > 0; --i) RT_CHECK(b.decrement() == (size_t)i - 1, "decrement-returned-a-wrong-count");
        rt_count("counted-again", 1);
    });
    if (waiter) L::go(&b);
    for (auto& t : th) t.join();
    p.join();
    RT_CHECK(rt_get(RESUMED) == waiter, "waiter-never-resumed");
    RT_CHECK(b.count() == 0, "count-not-zero-at-the-end");
}
