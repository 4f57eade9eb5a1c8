// C14: thread_pool::schedule_after in virtual time.
#include "hx.h"
#include <chrono>
#include <algorithm>
#include "macoro/thread_pool.h"
#include "macoro/sync_wait.h"
#include "macoro/when_all.h"
using namespace macoro;
using namespace std::chrono_literals;

namespace {
enum { DONE = 20, ORDER = 21, WORKOFF = 22, EXT = 64, STOPT = 96, RES = 128 };  // STOPT+i: virtual time at which stop i was requested (0: never)
constexpr uint64_t HOUR = 3600ull * 1000000000ull;
void external_thread() { rt_set(EXT + rt_tid(), 1); }
struct Op { int id; std::chrono::nanoseconds d; stop_token tok; int64_t start = 0; };
// suspended for at least d, unless stopped
void resumed(int id, uint64_t start, uint64_t d) {
    RT_CHECK(rt_add(RES + id, 1) == 1, "resumed-twice");
    RT_CHECK(!rt_get(EXT + rt_tid()), "resumed-on-a-thread-that-does-not-run-the-pool");
    if (!rt_get(STOPT + id)) RT_CHECK(rt_now() >= start + d, "resumed-before-the-delay-had-elapsed");
    rt_count(rt_get(STOPT + id) ? "stopped" : "expired", 1);
    rt_add(DONE, 1);
}
Drv wait20(thread_pool* p, int id, uint64_t d, stop_token tok) {
    uint64_t s = rt_now(); Guard g;
    co_await p->schedule_after(std::chrono::nanoseconds(d), std::move(tok));
    resumed(id, s, d);
}
task<void> waitMC_(thread_pool* p, int id, uint64_t d, stop_token tok) {
    MC_BEGIN(task<void>, p, id, d, tok = std::move(tok), s = rt_now());
    MC_AWAIT(p->schedule_after(std::chrono::nanoseconds(d), std::move(tok)));
    resumed(id, s, d);
    MC_END();
}
Drv waitMC(thread_pool* p, int id, uint64_t d, stop_token tok) { co_await waitMC_(p, id, d, std::move(tok)); }
task<void> wait_task(thread_pool* p, int id, uint64_t d, stop_token tok) {
    uint64_t s = rt_now();
    co_await p->schedule_after(std::chrono::nanoseconds(d), std::move(tok));
    resumed(id, s, d);
}
uint64_t some_delay() { switch (rt_rand(5)) { case 0: return 0; case 1: return 1 + rt_rand(200); case 2: return 1000 * (1 + rt_rand(5)); case 3: return 1000000 * (1 + rt_rand(3)); default: return HOUR; } }
void go(int kind, thread_pool* p, int id, uint64_t d, stop_token tok) { if (kind) waitMC(p, id, d, std::move(tok)); else wait20(p, id, d, std::move(tok)); }
}

// everything races: registration from several threads, expiry, stops, posted work, exit of pool threads
RT_CASE_W(C14, delay_race, 4) {
    external_thread();
    int T = 1 + (int)rt_rand(2), K = 1 + (int)rt_rand(3), P = (int)rt_rand(3);
    bool early = coin(), stopthread = !one_in(3);
    std::vector<uint64_t> d(K); std::vector<int> src(K), kind(K);
    int S = 1 + (int)rt_rand(2); std::vector<stop_source> ss(S);
    for (int i = 0; i < K; ++i) { d[i] = some_delay(); src[i] = (int)rt_rand(S + 1) - 1; kind[i] = (int)rt_rand(2); }
    rt_desc("threads=%d ops=%d posts=%d early=%d stop=%d d0=%llu src0=%d", T, K, P, early, stopthread, (unsigned long long)d[0], src[0]);
    uint64_t begin = rt_now();
    {
        thread_pool::work w; thread_pool p((size_t)T, w);
        struct L { static Drv post(thread_pool* p) { co_await p->schedule(); rt_add(DONE, 1); } };
        std::thread stopper;
        auto stop = [&](int s) { for (int i = 0; i < K; ++i) if (src[i] == s && !rt_get(STOPT + i)) rt_set(STOPT + i, (int64_t)rt_now()); ss[s].request_stop(); };
        std::vector<int> stops; for (int s = 0; s < S; ++s) if (coin()) stops.push_back(s);
        std::vector<uint64_t> when; for (size_t i = 0; i < stops.size(); ++i) when.push_back(coin() ? 0 : some_delay() / 2);
        if (stopthread) stopper = std::thread([&] { external_thread(); for (size_t i = 0; i < stops.size(); ++i) { if (when[i]) rt_sleep(when[i]); stop(stops[i]); } });
        std::thread reg; auto tok = [&](int i) { return src[i] < 0 ? stop_token{} : ss[src[i]].get_token(); };
        int split = coin() ? (int)rt_rand(K + 1) : K;
        if (split < K) reg = std::thread([&, split] { external_thread(); for (int i = split; i < K; ++i) go(kind[i], &p, i, d[i], tok(i)); });
        for (int i = 0; i < split; ++i) go(kind[i], &p, i, d[i], tok(i));
        for (int i = 0; i < P; ++i) L::post(&p);
        if (early && split == K) w.reset();          // the pool lives on only because of what is pending
        if (reg.joinable()) reg.join();
        w.reset();
        p.join();
        RT_CHECK(rt_get(DONE) == K + P, "join-returned-before-everything-ran");
        if (stopper.joinable()) stopper.join();
    }
    for (int i = 0; i < K; ++i) RT_CHECK(rt_get(RES + i) == 1, "never-resumed");
    (void)begin;
}

// a stop ends the wait at once, and lets an otherwise idle pool exit at once
RT_CASE_W(C14, delay_prompt_stop, 3) {
    external_thread(); rt_no_time_jumps();
    int T = 1 + (int)rt_rand(3), K = 1 + (int)rt_rand(3), how = (int)rt_rand(4); uint64_t after = coin() ? 0 : 1000 * (1 + rt_rand(1000));
    rt_desc("threads=%d ops=%d how=%d after=%llu", T, K, how, (unsigned long long)after);
    stop_source s; uint64_t stopped = 0;
    {
        thread_pool::work w; thread_pool p((size_t)T, w);
        auto stop = [&] { stopped = rt_now(); for (int i = 0; i < K; ++i) rt_set(STOPT + i, (int64_t)rt_now()); s.request_stop(); };
        std::thread t;
        if (how == 0) stop();                                  // before the wait begins
        else if (how == 1) t = std::thread([&] { external_thread(); if (after) rt_sleep(after); stop(); });
        for (int i = 0; i < K; ++i) go((int)rt_rand(2), &p, i, HOUR, s.get_token());
        if (coin()) w.reset();
        if (how == 2) { if (after) rt_sleep(after); stop(); }
        if (how == 3) {                                        // requested by a coroutine of the pool
            struct L { static Drv go(thread_pool* p, uint64_t after, stop_source s, int K, uint64_t* st) { co_await p->schedule_after(std::chrono::nanoseconds(after)); *st = rt_now(); for (int i = 0; i < K; ++i) rt_set(STOPT + i, (int64_t)rt_now()); s.request_stop(); } };
            L::go(&p, after, s, K, &stopped);
        }
        w.reset();
        p.join();
        if (t.joinable()) t.join();
    }
    RT_CHECK(rt_get(DONE) == K, "join-returned-before-everything-ran");
    RT_CHECK(rt_now() < stopped + 1000000000ull, "pool-waited-for-a-deadline-that-no-longer-mattered");
    rt_count("prompt-stops", 1);
}

// expiry is prompt, too: with idle threads the resumption comes at the deadline, and the pool exits then
RT_CASE_W(C14, delay_prompt_expiry, 2) {
    external_thread(); rt_no_time_jumps();
    int T = 1 + (int)rt_rand(3), K = 1 + (int)rt_rand(4); bool early = coin();
    std::vector<uint64_t> d(K); uint64_t mx = 0; for (auto& x : d) { x = 1000000ull * rt_rand(50); mx = std::max(mx, x); }
    rt_desc("threads=%d ops=%d early=%d", T, K, early);
    uint64_t begin = rt_now();
    struct L { static Drv go(thread_pool* p, int id, uint64_t d) { uint64_t s = rt_now(); co_await p->schedule_after(std::chrono::nanoseconds(d)); resumed(id, s, d); RT_CHECK(rt_now() < s + d + 500000, "resumed-long-after-the-delay"); } };
    { thread_pool::work w; thread_pool p((size_t)T, w);
      for (int i = 0; i < K; ++i) { L::go(&p, i, d[i]); if (one_in(3)) rt_sleep(1000 * rt_rand(50)); }
      if (early) w.reset(); else { rt_sleep(mx / 2); w.reset(); }
      p.join(); }
    RT_CHECK(rt_get(DONE) == K, "join-returned-before-everything-ran");
    RT_CHECK(rt_now() < begin + mx + 1500000, "pool-waited-for-a-deadline-that-no-longer-mattered");
    rt_count("prompt-expiries", (uint64_t)K);
}

// one thread: expired timers run in deadline order
RT_CASE_W(C14, delay_order, 2) {
    int K = 2 + (int)rt_rand(6); bool sleepfirst = coin(); int stops = 0;
    rt_desc("ops=%d sleepfirst=%d", K, sleepfirst);
    thread_pool p; struct R { uint64_t lo, hi; int stopped; }; std::vector<R> r(K); std::vector<int> order; std::vector<stop_source> ss(K);
    struct L { static Drv go(thread_pool* p, int i, uint64_t d, std::vector<R>* r, std::vector<int>* o, stop_token t) {
        (*r)[i].lo = rt_now() + d; auto op = p->schedule_after(std::chrono::nanoseconds(d), std::move(t)); (*r)[i].hi = rt_now() + d;
        co_await std::move(op); o->push_back(i);
        if (!(*r)[i].stopped) RT_CHECK(rt_now() >= (*r)[i].lo, "resumed-before-the-delay-had-elapsed");
    } };
    for (int i = 0; i < K; ++i) { r[i].stopped = 0; L::go(&p, i, 100000ull * rt_rand(30), &r, &order, coin() ? ss[i].get_token() : stop_token{}); }
    std::vector<char> hastok(K, 0);
    if (one_in(2)) for (int i = 0; i < K; ++i) if (one_in(4)) { r[i].stopped = 1; ++stops; ss[i].request_stop(); }
    if (sleepfirst) rt_sleep(10000000);
    p.run();
    RT_CHECK((int)order.size() == K, "never-resumed");
    // stopped ones may come any time; the others in the order of their deadlines
    int last = -1;
    for (int i : order) { if (r[i].stopped) continue; if (last >= 0) RT_CHECK(r[last].lo <= r[i].hi, "timers-not-in-deadline-order"); last = i; }
    rt_count("ordered", (uint64_t)K);
}

// the coroutine frees everything as soon as it is resumed; registration of many tokens
RT_CASE(C14, delay_free_at_once) {
    external_thread();
    int K = 1 + (int)rt_rand(2); rt_desc("ops=%d", K);
    { auto src = std::make_unique<stop_source>(); thread_pool::work w; auto p = std::make_unique<thread_pool>(1 + rt_rand(2), w);
      std::vector<task<void>> v; for (int i = 0; i < K; ++i) v.push_back(wait_task(p.get(), i, rt_rand(3) * 100, src->get_token()));
      std::thread t([s = *src] () mutable { external_thread(); for (int i = 0; i < 2; ++i) rt_set(STOPT + i, (int64_t)rt_now()); s.request_stop(); });
      if (K == 1) sync_wait(std::move(v[0])); else { auto r = sync_wait(when_all_ready(std::move(v))); for (auto& x : r) x.result(); }
      src.reset(); w.reset(); p.reset(); t.join(); }
    RT_CHECK(rt_get(DONE) == K, "never-resumed");
}

// coroutines that keep a pool busy do not keep its timers from running
RT_CASE(C14, delay_not_starved) {
    external_thread();
    int T = 1 + (int)rt_rand(2), B = T + (int)rt_rand(2), K = 1 + (int)rt_rand(3), how = (int)rt_rand(3); uint64_t d = 1000 * rt_rand(30); rt_desc("threads=%d busy=%d timers=%d how=%d d=%llu", T, B, K, how, (unsigned long long)d);
    struct S { std::atomic<int> left; } s{ { K } };
    struct L {
        static Drv busy(thread_pool* p, S* s, int how) {
            for (int hops = 0; s->left.load() > 0; ++hops) {
                RT_CHECK(hops < 300, "timer-starved-by-queued-coroutines");
                rt_sleep(1000); if (how == 0) co_await p->post(); else if (how == 1) co_await p->schedule(); else { if (hops & 1) co_await p->schedule(); else co_await p->post(); }
            }
            rt_add(DONE, 1);
        }
        static Drv timer(thread_pool* p, int id, uint64_t d, S* s) { uint64_t b = rt_now(); co_await p->schedule_after(std::chrono::nanoseconds(d)); resumed(id, b, d); s->left.fetch_sub(1); }
    };
    { thread_pool::work w; thread_pool p((size_t)T, w); int64_t extra = 0;
      struct First { static Drv go(thread_pool* p, S* s, int how) { co_await p->post(); L::busy(p, s, how); } };
      for (int i = 0; i < K; ++i) L::timer(&p, i, d * (i + 1) / K, &s);
      for (int i = 0; i < B; ++i) { First::go(&p, &s, how); ++extra; }
      w.reset(); p.join(); RT_CHECK(rt_get(DONE) == K + extra, "join-returned-before-everything-ran"); }
}
// a pool whose threads are created only when its timers are pending
RT_CASE(C14, delay_threads_late) {
    external_thread();
    int K = 1 + (int)rt_rand(3), n = 1 + (int)rt_rand(2), extra = (int)rt_rand(2); rt_desc("timers=%d threads=%d", K, n);
    stop_source s; std::thread t;
    { thread_pool p; struct L { static Drv post(thread_pool* p) { co_await p->post(); rt_add(DONE, 1); } };
      for (int i = 0; i < K; ++i) go((int)rt_rand(2), &p, i, some_delay(), coin() ? s.get_token() : stop_token{});
      if (one_in(3)) rt_sleep(2000);
      if (extra) L::post(&p);
      auto stop = [&] { for (int i = 0; i < K; ++i) rt_set(STOPT + i, (int64_t)rt_now()); s.request_stop(); };
      if (one_in(3)) stop(); else if (one_in(3)) t = std::thread([&] { external_thread(); stop(); });
      if (coin()) p.create_threads((size_t)n); else p.create_thread();
      p.join();
      RT_CHECK(rt_get(DONE) == K + extra, "join-returned-before-everything-ran");
      if (t.joinable()) t.join(); }
}
