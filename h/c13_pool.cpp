// C13: thread_pool posting, dispatching, running and joining.
#include "hx.h"
#include <chrono>
#include "macoro/thread_pool.h"
#include "macoro/transfer_to.h"
#include "macoro/start_on.h"
#include "macoro/sync_wait.h"
#include "macoro/when_all.h"
using namespace macoro;

namespace {
enum { DONE = 20, WORKOFF = 21, HOPS = 22, MARK = 23, EXT = 64, POOLOF = 96, HOP = 128 };  // EXT+tid: not a pool thread; POOLOF+tid: pool seen; HOP+i: resumptions of coroutine i
void external_thread() { rt_set(EXT + rt_tid(), 1); }
void on_pool(int id) {          // id >= 1
    int t = rt_tid();
    RT_CHECK(!rt_get(EXT + t), "resumed-on-a-thread-that-does-not-run-the-pool");
    int64_t o = rt_get(POOLOF + t);
    RT_CHECK(o == 0 || o == id, "resumed-on-a-thread-of-another-pool");
    rt_set(POOLOF + t, id);
}
// hands its coroutine to the pool as a plain handle
struct ByHandle {
    thread_pool* p; int how;
    bool await_ready() const noexcept { return false; }
    coroutine_handle<> await_suspend(coroutine_handle<> h) {
        if (how == 0) p->post(h); else if (how == 1) p->schedule(h); else return p->dispatch(h);
        return noop_coroutine();
    }
    std::coroutine_handle<> await_suspend(std::coroutine_handle<> h) { return await_suspend(coroutine_handle<>(h)).std_cast(); }
    void await_resume() const noexcept {}
};
struct Hop { int pool, how; };
task<void> one_hop20(thread_pool* p, int how) {
    switch (how) {
    case 0: co_await p->schedule(); break;
    case 1: co_await p->post(); break;
    case 2: co_await p->dispatch(); break;
    case 3: co_await transfer_to(*p); break;
    case 4: co_await ByHandle{ p, 0 }; break;
    case 5: co_await ByHandle{ p, 1 }; break;
    default: co_await ByHandle{ p, 2 }; break;
    }
}
task<void> one_hopMC(thread_pool* p, int how) {
    MC_BEGIN(task<void>, p, how);
    if (how == 0) MC_AWAIT(p->schedule());
    else if (how == 1) MC_AWAIT(p->post());
    else if (how == 2) MC_AWAIT(p->dispatch());
    else if (how == 3) MC_AWAIT(transfer_to(*p));
    else MC_AWAIT(ByHandle(p, how == 4 ? 0 : how == 5 ? 1 : 2));
    MC_END();
}
task<int> work_item(std::vector<thread_pool*> ps, std::vector<Hop> hops, int id, int* data) {
    int n = 0; Guard g;
    for (auto& h : hops) {
        *data = *data + 1;
        if (h.how & 8) co_await one_hopMC(ps[h.pool], h.how & 7); else co_await one_hop20(ps[h.pool], h.how & 7);
        on_pool(h.pool + 1); ++n;
        RT_CHECK(rt_add(HOP + id, 1) == n, "posted-coroutine-resumed-twice");
        RT_CHECK(*data == n, "writes-before-post-not-visible");
    }
    rt_add(HOPS, n);
    co_return n;
}
std::vector<Hop> some_hops(int pools, int max) {
    std::vector<Hop> h(1 + rt_rand(max));
    for (auto& x : h) { x.pool = (int)rt_rand(pools); x.how = (int)rt_rand(7) + (coin() ? 8 : 0); }
    return h;
}
Drv detached(std::vector<thread_pool*> ps, std::vector<Hop> hops, int id, int* data) {
    int want = (int)hops.size();
    int n = co_await work_item(std::move(ps), std::move(hops), id, data);
    RT_CHECK(n == want, "hops-lost"); rt_add(DONE, 1);
}
}

// K coroutines hop through one pool from several threads; join() returns after all of them
RT_CASE_W(C13, pool_post_join, 3) {
    external_thread();
    int T = 1 + (int)rt_rand(3), K = 1 + (int)rt_rand(4), P = (int)rt_rand(2), late = (int)rt_rand(2);
    std::vector<int> data(K, 0); std::vector<std::vector<Hop>> hops(K); int total = 0;
    for (auto& h : hops) { h = some_hops(1, 3); total += (int)h.size(); }
    rt_desc("threads=%d coroutines=%d hops=%d posters=%d late=%d", T, K, total, P, late);
    {
        thread_pool::work w; std::unique_ptr<thread_pool> pool;
        if (coin()) pool = std::make_unique<thread_pool>((size_t)(late ? 1 : T), w);
        else { pool = std::make_unique<thread_pool>(); w = pool->make_work(); if (!late) pool->create_threads(T); }
        thread_pool* p = pool.get();
        std::vector<std::thread> ext;
        auto w2 = std::make_shared<thread_pool::work>(std::move(w));
        if (P) ext.emplace_back([&] { external_thread(); for (int i = 0; i < K; i += 2) detached({ p }, hops[i], i, &data[i]); });
        for (int i = 0; i < K; ++i) if (!P || (i & 1)) detached({ p }, hops[i], i, &data[i]);
        if (late) { if (coin()) p->create_threads(T); else for (int i = 0; i < T; ++i) p->create_thread(); }
        if (P && coin()) { for (auto& t : ext) t.join(); ext.clear(); }
        if (P && ext.size()) {          // the poster thread lets the work go
            std::thread rel([&] { external_thread(); for (auto& t : ext) t.join(); rt_set(WORKOFF, 1); w2->reset(); });
            p->join();
            RT_CHECK(rt_get(WORKOFF) == 1, "join-returned-although-work-is-held");
            RT_CHECK(rt_get(DONE) == K, "join-returned-before-everything-ran");
            rel.join();
        } else {
            rt_set(WORKOFF, 1);
            if (coin()) w2->reset(); else { thread_pool::work other; other = std::move(*w2); }
            if (coin()) { p->join(); RT_CHECK(rt_get(DONE) == K, "join-returned-before-everything-ran"); }
        }
    }   // the destructor joins, too
    RT_CHECK(rt_get(DONE) == K && rt_get(HOPS) == total, "posted-coroutine-lost");
    rt_count("hops", total);
}

// the pool is destroyed as soon as its last coroutine is done, which another pool (or thread) posted
RT_CASE_W(C13, pool_destroyed_after_last, 3) {
    external_thread();
    int T = 1 + (int)rt_rand(2); bool two = coin(); auto hops = some_hops(1, 2); int data = 0;
    rt_desc("threads=%d secondpool=%d hops=%zu", T, two, hops.size());
    std::vector<Hop> h2 = hops;
    if (two) { h2.clear(); h2.push_back({ 1, 0 }); for (auto h : hops) h2.push_back(h); }
    thread_pool::work wb; std::unique_ptr<thread_pool> b; if (two) b = std::make_unique<thread_pool>(1, wb);
    std::thread ext; int n;
    {
        thread_pool::work w; thread_pool a((size_t)T, w);
        if (two) { n = sync_wait(work_item({ &a, b.get() }, h2, 0, &data)); w.reset(); }
        else {
            // another thread starts the coroutine; this one blocks until it ended
            std::atomic<int> fin{ 0 };
            struct L { static Drv go(thread_pool* a, std::vector<Hop> h, int* d, std::atomic<int>* f) { co_await work_item({ a }, std::move(h), 0, d); f->store(1, std::memory_order_release); f->notify_all(); } };
            ext = std::thread([&] { external_thread(); L::go(&a, h2, &data, &fin); });
            fin.wait(0, std::memory_order_acquire);
            n = (int)h2.size();
            // the std::atomic lives until the notifier is through
            if (coin()) { ext.join(); w.reset(); }
            else { w.reset(); a.join(); rt_set(DONE, 1); ext.join(); }
        }
    }
    if (two) { wb.reset(); b.reset(); }
    RT_CHECK(n == (int)h2.size() && rt_get(HOPS) == n, "posted-coroutine-lost");
    rt_count("hops", n);
}
RT_CASE(C13, pool_two_pools) {
    external_thread();
    int K = 1 + (int)rt_rand(3), total = 0; std::vector<int> data(K, 0); std::vector<std::vector<Hop>> hops(K);
    for (auto& h : hops) { h = some_hops(2, 4); total += (int)h.size(); }
    rt_desc("coroutines=%d hops=%d", K, total);
    { thread_pool::work wa, wb; thread_pool a(1 + rt_rand(2), wa), b(1 + rt_rand(2), wb);
      std::vector<task<int>> ts; for (int i = 0; i < K; ++i) ts.push_back(work_item({ &a, &b }, hops[i], i, &data[i]));
      if (K == 1 && coin()) { int n = sync_wait(std::move(ts[0])); RT_CHECK(n == (int)hops[0].size(), "hops-lost"); }
      else { auto r = sync_wait(when_all_ready(std::move(ts))); for (int i = 0; i < K; ++i) RT_CHECK(r[i].result() == (int)hops[i].size(), "hops-lost"); }
      if (coin()) wa = {}; if (coin()) wb.reset(); wa.reset(); wb.reset();
    }
    RT_CHECK(rt_get(HOPS) == total, "posted-coroutine-lost");
    rt_count("hops", total);
}
// run() on client threads: returns exactly when nothing is queued and no work is held
RT_CASE_W(C13, pool_run, 2) {
    int R = 1 + (int)rt_rand(3), K = (int)rt_rand(4); bool hold = coin(); int total = 0;
    std::vector<int> data(K, 0); std::vector<std::vector<Hop>> hops(K); for (auto& h : hops) { h = some_hops(1, 3); total += (int)h.size(); }
    rt_desc("runners=%d coroutines=%d hold=%d", R, K, hold);
    external_thread();
    thread_pool p; thread_pool::work w; if (hold) w = p.make_work();
    for (int i = 0; i < K; ++i) detached({ &p }, hops[i], i, &data[i]);
    RT_CHECK(rt_get(HOPS) == 0, "resumed-on-a-thread-that-does-not-run-the-pool");
    if (!hold && coin()) {         // this thread
        rt_set(EXT + rt_tid(), 0); p.run(); 
        RT_CHECK(rt_get(DONE) == K, "run-returned-before-everything-ran");
        rt_set(POOLOF + rt_tid(), 0); p.run();     // again, empty: returns at once
    } else {
        std::vector<std::thread> th; std::atomic<int> left{ R };
        for (int i = 0; i < R; ++i) th.emplace_back([&] {
            p.run();
            if (hold) RT_CHECK(rt_get(WORKOFF) == 1, "run-returned-although-work-is-held");
            if (left.fetch_sub(1) == 1) RT_CHECK(rt_get(DONE) == K, "run-returned-before-everything-ran");
        });
        if (hold) { if (coin()) std::this_thread::yield(); rt_set(WORKOFF, 1); w.reset(); }
        for (auto& t : th) t.join();
    }
    RT_CHECK(rt_get(DONE) == K && rt_get(HOPS) == total, "posted-coroutine-lost");
    rt_count("runs", R);
}
// run() inside any pool throws, and leaves the pool intact
RT_CASE(C13, pool_nested_run) {
    external_thread();
    thread_pool::work w, w2; thread_pool a(1, w), b(1, w2); bool other = coin();
    rt_desc("other=%d", other);
    struct L { static task<int> go(thread_pool* a, thread_pool* r) {
        co_await a->schedule(); on_pool(1);
        bool t = false; try { r->run(); } catch (std::runtime_error&) { t = true; }
        RT_CHECK(t, "run-inside-a-pool-did-not-throw");
        co_await a->schedule(); on_pool(1);
        int64_t id = rt_tid(); co_await a->dispatch(); RT_CHECK(id == rt_tid(), "dispatch-on-a-pool-thread-was-not-inline");
        t = false; try { r->run(); } catch (std::runtime_error&) { t = true; }
        RT_CHECK(t, "run-inside-a-pool-did-not-throw");
        co_return 5;
    } };
    RT_CHECK(sync_wait(L::go(&a, other ? &b : &a)) == 5, "hops-lost");
    w.reset(); w2.reset(); a.join(); b.join(); rt_count("nested-runs", 2);
}
// dispatch on a pool thread continues before anything queued; on others it queues
RT_CASE(C13, pool_dispatch_inline) {
    external_thread();
    thread_pool::work w; thread_pool a(1, w), other; int how = (int)rt_rand(2);
    rt_desc("how=%d", how);
    struct L {
        static Drv queued(thread_pool* a) { co_await a->post(); rt_add(MARK, 1); rt_add(DONE, 1); }
        static Drv go(thread_pool* a, int how) {
            int m = rt_tid();
            if (how) co_await ByHandle{ a, 2 }; else co_await a->dispatch();
            RT_CHECK(rt_tid() != m, "dispatch-from-outside-was-not-queued"); on_pool(1);
            queued(a);
            int64_t before = rt_get(MARK);
            if (how) co_await ByHandle{ a, 2 }; else co_await a->dispatch();
            RT_CHECK(rt_get(MARK) == before, "dispatch-on-a-pool-thread-was-not-inline"); on_pool(1);
            rt_add(DONE, 1);
        }
    };
    L::go(&a, how);
    w.reset(); a.join();
    RT_CHECK(rt_get(DONE) == 2, "posted-coroutine-lost"); rt_count("dispatches", 1);
}
// work is taken and dropped while things are posted and threads are created
RT_CASE_W(C13, pool_churn, 2) {
    external_thread();
    int K = 2 + (int)rt_rand(4), E = 1 + (int)rt_rand(2), total = 0; std::vector<int> data(K, 0); std::vector<std::vector<Hop>> hops(K);
    for (auto& h : hops) { h = some_hops(1, 2); total += (int)h.size(); }
    rt_desc("coroutines=%d externals=%d", K, E);
    {
        thread_pool p; auto keep = p.make_work();
        std::vector<std::thread> ext; std::atomic<int> next{ 0 };
        for (int e = 0; e < E; ++e) ext.emplace_back([&, e] {
            external_thread();
            for (;;) { int i = next.fetch_add(1); if (i >= K) break; auto w = p.make_work(); detached({ &p }, hops[i], i, &data[i]); if (i % 2 == 0) w.reset(); auto w2 = std::move(w); }
        });
        p.create_threads(1); if (coin()) p.create_thread();
        for (auto& t : ext) t.join();
        keep.reset(); p.join();
        RT_CHECK(rt_get(DONE) == K, "join-returned-before-everything-ran");
        // a second life
        auto w = p.make_work(); p.create_threads(1 + rt_rand(2));
        int d2 = 0; auto h2 = some_hops(1, 2); total += (int)h2.size();
        RT_CHECK(sync_wait(work_item({ &p }, h2, K, &d2)) == (int)h2.size(), "hops-lost");
    }
    RT_CHECK(rt_get(HOPS) == total, "posted-coroutine-lost");
    rt_count("hops", total);
}
// work objects that are moved, assigned, swapped and reset: a pool runs on exactly while one of them holds its work
RT_CASE(C13, pool_work_ledger) {
    external_thread(); rt_no_time_jumps();
    int N = 1 + (int)rt_rand(4), ops = 2 + (int)rt_rand(14), total = 0; rt_desc("objects=%d ops=%d", N, ops);
    std::vector<thread_pool> p(2); std::vector<thread_pool::work> w(N); std::vector<int> of(N, -1);
    bool live[2] = { false, false };
    auto held = [&](int k) { return (int)std::count(of.begin(), of.end(), k); };
    auto settle = [&] { for (int k = 0; k < 2; ++k) if (live[k] && !held(k)) { p[k].join(); live[k] = false; rt_count("ended", 1); } };   // (a deadlock if work is still counted)
    auto use = [&](int k) {                                  // a thread is there and takes what is posted
        if (!live[k]) { p[k].create_threads(1 + rt_rand(2)); live[k] = true; }
        if (coin()) rt_sleep(1000);
        ++total; struct L { static task<int> go(thread_pool* p) { co_await p->post(); on_pool(1); co_return 5; } };
        RT_CHECK(sync_wait(L::go(&p[k])) == 5, "posted-coroutine-lost");
    };
    for (int o = 0; o < ops; ++o) {
        int a = (int)rt_rand(N), b = (int)rt_rand(N), k = (int)rt_rand(2);
        switch (rt_rand(6)) {
        case 0: case 1: w[a] = p[k].make_work(); of[a] = k; break;
        case 2: if (a != b) { w[a] = std::move(w[b]); of[a] = of[b]; of[b] = -1; } break;
        case 3: w[a].reset(); of[a] = -1; break;
        case 4: if (a != b) { std::swap(w[a], w[b]); std::swap(of[a], of[b]); } break;
        case 5: { thread_pool::work x(std::move(w[a])); if (coin()) { w[b] = std::move(x); int t = of[a]; of[a] = -1; of[b] = t; } else of[a] = -1; break; }
        }
        settle();
        for (int q = 0; q < 2; ++q) if (held(q) && one_in(3)) use(q);
    }
    for (int i = 0; i < N; ++i) { if (coin()) w[i].reset(); else w[i] = thread_pool::work(); of[i] = -1; settle(); }
    settle(); rt_count("posted", total);
}
// threads of a pool that was moved go on with it
RT_CASE(C13, pool_moved) {
    external_thread();
    int K = 1 + (int)rt_rand(3); bool assign = coin(); std::vector<int> data(K, 0); std::vector<std::vector<Hop>> hops(K); int total = 0;
    for (auto& h : hops) { h = some_hops(1, 2); total += (int)h.size(); }
    rt_desc("coroutines=%d assign=%d", K, assign);
    {
        thread_pool::work w; auto a = std::make_unique<thread_pool>(1 + rt_rand(2), w);
        thread_pool b; thread_pool::work wb; if (assign && coin()) { wb = b.make_work(); b.create_threads(1); wb.reset(); }
        std::unique_ptr<thread_pool> c; thread_pool* p = &b;
        if (assign) b = std::move(*a); else { c = std::make_unique<thread_pool>(std::move(*a)); p = c.get(); }
        a.reset();
        for (int i = 0; i < K; ++i) detached({ p }, hops[i], i, &data[i]);
        w.reset(); p->join();
        RT_CHECK(rt_get(DONE) == K, "join-returned-before-everything-ran");
    }
    RT_CHECK(rt_get(HOPS) == total, "posted-coroutine-lost");
    rt_count("moves", 1);
}
// start_on and make_eager over pools, results through sync_wait
RT_CASE(C13, pool_start_on) {
    external_thread();
    int K = 1 + (int)rt_rand(3); rt_desc("tasks=%d", K);
    { thread_pool::work w; thread_pool p(1 + rt_rand(3), w);
      struct L { static task<Val> go(int i) { on_pool(1); rt_add(HOPS, 1); co_return Val(i); } };
      std::vector<eager_task<Val>> v; for (int i = 0; i < K; ++i) v.push_back(coin() ? start_on(p, L::go(i)) : (L::go(i) | start_on(p)));
      for (int i = 0; i < K; ++i) RT_CHECK(sync_wait(std::move(v[i])).get() == i, "start_on-result-wrong");
      w.reset(); p.join();
    }
    RT_CHECK(rt_get(HOPS) == K, "posted-coroutine-lost"); rt_count("start_on", K);
}

// an idle pool thread takes queued work at once, also while it waits for timers
RT_CASE_W(C13, pool_post_among_timers, 3) {
    external_thread(); rt_no_time_jumps();
    int T = 1 + (int)rt_rand(2), D = 1 + (int)rt_rand(3), K = 1 + (int)rt_rand(3), E = (int)rt_rand(2);
    rt_desc("threads=%d timers=%d posts=%d externals=%d", T, D, K, E);
    {
        thread_pool::work w; thread_pool p((size_t)T, w); stop_source stop;
        struct L {
            static Drv timer(thread_pool* p, uint64_t d, int then, stop_token t) {
                co_await p->schedule_after(std::chrono::nanoseconds(d), std::move(t)); on_pool(1); rt_add(DONE, 1);
                for (int i = 0; i < then; ++i) post(p, i);
            }
            static Drv post(thread_pool* p, int how) {
                uint64_t t = rt_now();
                if (how & 1) co_await p->post(); else co_await p->schedule();
                on_pool(1); RT_CHECK(rt_now() < t + 500000, "queued-coroutine-waited-for-a-timer"); rt_add(DONE, 1);
            }
        };
        int64_t total = 0; std::vector<uint64_t> d(D); std::vector<int> then(D);
        for (int i = 0; i < D; ++i) { d[i] = one_in(3) ? 3600000000000ull : 1000000ull * rt_rand(20); then[i] = (int)rt_rand(3); total += 1 + then[i]; }
        std::thread ext;
        if (E) { total += K; ext = std::thread([&] { external_thread(); for (int i = 0; i < K; ++i) { if (coin()) rt_sleep(1000000 * rt_rand(10)); L::post(&p, i); } }); }
        for (int i = 0; i < D; ++i) L::timer(&p, d[i], then[i], stop.get_token());
        for (int i = 0; i < K; ++i) { if (one_in(3)) rt_sleep(1000000 * rt_rand(10)); L::post(&p, i); ++total; }
        if (ext.joinable()) ext.join();
        rt_sleep(30000000); stop.request_stop();
        w.reset(); p.join();
        RT_CHECK(rt_get(DONE) == total, "posted-coroutine-lost");
        rt_count("posts-among-timers", (uint64_t)total);
    }
}

// a pool of n threads runs n coroutines at a time, and never on more than n threads
RT_CASE(C13, pool_thread_count) {
    int n = 1 + (int)rt_rand(3), K = n + (int)rt_rand(3), form = (int)rt_rand(3); bool all = coin();
    rt_desc("threads=%d posts=%d form=%d together=%d", n, K, form, all);
    std::atomic<int> in{ 0 }; int tid[8] = {}; struct In { std::atomic<int>* in; int* tid; int n; bool all; } x{ &in, tid, n, all };
    {
        thread_pool::work w;
        std::unique_ptr<thread_pool> p;
        if (form == 0) p = std::make_unique<thread_pool>((size_t)n, w);
        else { p = std::make_unique<thread_pool>(); w = p->make_work(); if (form == 1) p->create_threads((size_t)n); else { p->create_thread(); if (n > 1) p->create_threads((size_t)n - 1); } }
        struct L { static Drv go(thread_pool* p, int i, In x) {
            co_await p->schedule();
            x.tid[i] = rt_tid();
            // together: the first n wait for each other, so they need n threads
            if (x.all && i < x.n) { x.in->fetch_add(1, std::memory_order_acq_rel); while (x.in->load(std::memory_order_acquire) < x.n) std::this_thread::yield(); }
            rt_add(DONE, 1);
        } };
        for (int i = 0; i < K; ++i) L::go(p.get(), i, x);
        if (all && coin()) while (in.load(std::memory_order_acquire) < n) std::this_thread::yield();   // (while work is held)
        w.reset(); p->join();
    }
    RT_CHECK(rt_get(DONE) == K, "posted-coroutine-never-ran");
    int d = 0; for (int i = 0; i < K; ++i) { RT_CHECK(tid[i] != 0, "body-not-on-the-scheduler's-thread"); bool first = true; for (int j = 0; j < i; ++j) if (tid[j] == tid[i]) first = false; d += first; }
    RT_CHECK(d <= n, "more-threads-than-created"); if (all) RT_CHECK(d == n, "fewer-threads-than-created");
    rt_count("pool-sizes", 1);
}

// groups of up to n coroutines that need each other, so each of the n threads has to take one: however they are queued, and again and again while the work is held
RT_CASE_W(C13, pool_rendezvous, 3) {
    external_thread();
    int n = 1 + (int)rt_rand(3), rounds = 1 + (int)rt_rand(3), own = coin(), R = own ? 0 : 1 + (int)rt_rand(n), total = 0; rt_desc("threads=%d runners=%d rounds=%d", n, R, rounds);
    struct S { std::atomic<int> in{ 0 }, out{ 0 }; int g = 0; };
    {
        thread_pool p; thread_pool::work w = p.make_work(); std::vector<std::thread> th; std::vector<std::unique_ptr<S>> all;
        if (n - R) { if (coin()) p.create_threads((size_t)(n - R)); else for (int i = 0; i < n - R; ++i) p.create_thread(); }
        for (int i = 0; i < R; ++i) th.emplace_back([&] { p.run(); RT_CHECK(rt_get(WORKOFF) == 1, "run-returned-although-work-is-held"); });
        struct L {
            static void meet(S* s) { on_pool(1); s->in.fetch_add(1); while (s->in.load() < s->g) std::this_thread::yield(); rt_add(DONE, 1); s->out.fetch_add(1); }
            static Drv go(thread_pool* p, S* s, int how, uint64_t d, stop_token t) {
                if (how < 7) co_await one_hop20(p, how); else co_await p->schedule_after(std::chrono::nanoseconds(d), std::move(t));
                meet(s);
            }
            static Drv spawn(thread_pool* p, S* s, int k) {          // one member queues the others
                co_await p->post(); for (int i = 0; i < k; ++i) go(p, s, (int)rt_rand(2) * 4, 0, {});
                meet(s);
            }
        };
        for (int r = 0; r < rounds; ++r) {
            all.push_back(std::make_unique<S>()); S* s = all.back().get(); s->g = 1 + (int)rt_rand(n); total += s->g;
            stop_source src; std::atomic<bool> stop{ false }; std::thread ext;
            if (coin()) rt_sleep(1000 * rt_rand(20));                 // let them fall asleep
            if (one_in(4)) L::spawn(&p, s, s->g - 1);
            else {
                int e = coin() ? (int)rt_rand(s->g + 1) : 0;
                auto some = [&](int from, int to) { for (int i = from; i < to; ++i) { int how = (int)rt_rand(10); bool far = how == 9; if (far) stop = true; L::go(&p, s, how, far ? 3600000000000ull : 1000 * rt_rand(20), far ? src.get_token() : stop_token{}); } };
                if (e) ext = std::thread([&, e] { external_thread(); some(0, e); });
                some(e, s->g);
                if (ext.joinable()) ext.join();
                if (coin()) rt_sleep(1000 * rt_rand(20));
                if (stop) src.request_stop();
            }
            while (s->out.load() < s->g) { rt_sleep(1000); std::this_thread::yield(); }
        }
        rt_set(WORKOFF, 1); w.reset(); p.join(); for (auto& t : th) t.join();
    }
    RT_CHECK(rt_get(DONE) == total, "posted-coroutine-lost"); rt_count("meetings", (uint64_t)rounds);
}

// threads that are created only when something is queued already, with no work object in sight
RT_CASE(C13, pool_threads_after_posts) {
    external_thread(); int K = 1 + (int)rt_rand(4), form = (int)rt_rand(3), n = 1 + (int)rt_rand(3); rt_desc("queued=%d form=%d threads=%d", K, form, n);
    {
        thread_pool p;
        struct L { static Drv go(thread_pool* p, bool timer, uint64_t d) { if (timer) co_await p->schedule_after(std::chrono::nanoseconds(d)); else co_await p->post(); on_pool(1); rt_add(DONE, 1); } };
        for (int i = 0; i < K; ++i) L::go(&p, form == 0 ? false : form == 1 ? true : coin(), 1000 * rt_rand(30));
        if (coin()) p.create_threads((size_t)n); else p.create_thread();
        p.join();
        RT_CHECK(rt_get(DONE) == K, "join-returned-before-everything-ran");
    }
    rt_count("late-threads", 1);
}
