// C09: sequence_barrier.
#include "hx.h"
#include "macoro/sequence_barrier.h"
#include "macoro/sync_wait.h"
#include <algorithm>
#include <string>
using namespace macoro;

namespace {
enum { PUB = 20, DONE = 21, PER = 30 };   // PUB: offset whose publish has started
template<class S> struct Ctx {
    using T = sequence_traits<S>;
    S init; sequence_barrier<S> b; std::vector<int> data;
    Ctx(S i, int n) : init(i), b(i), data(n + 1, 0) {}
    int off(S s) const { return (int)T::difference(s, init); }       // 0: nothing published
    S seq(int o) const { return (S)(init + (S)o); }
    void publish(int o) { for (int k = last + 1; k <= o; ++k) data[k] = k; last = o; rt_set(PUB, o); b.publish(seq(o)); }
    int last = 0;
    void got(int target, S r) {
        int o = off(r);
        RT_CHECK(o >= target, "yielded-a-sequence-before-the-target");
        int64_t p = rt_get(PUB);
        RT_CHECK(o <= p, "yielded-a-sequence-never-published");
        for (int k = 1; k <= o; ++k) RT_CHECK(data[k] == k, "writes-before-publish-not-visible");
    }
};
template<class S> S some_init() {
    switch (rt_rand(5)) {
    case 0: return sequence_traits<S>::initial_sequence;
    case 1: return 0;
    case 2: return (S)(std::numeric_limits<S>::max() - (S)(1 + rt_rand(4)));
    case 3: return (S)(std::numeric_limits<std::make_signed_t<S>>::max() - (S)rt_rand(4));
    default: return (S)rt_rand(200);
    }
}
template<class S> Drv waiter(Ctx<S>* c, int i, std::vector<int> targets, int prelude) {
    for (int t : targets) {
        if (prelude == 1) {                   // an operation created first, copied, awaited later
            auto op = c->b.wait_until_published(c->seq(t)); rt_yield(); auto op2 = op;
            S r = co_await op2; c->got(t, r);
        } else { S r = co_await c->b.wait_until_published(c->seq(t)); c->got(t, r); }
        rt_add(PER + i, 1); rt_add(DONE, 1);
        if (prelude == 2) { S l = c->b.last_published(); c->got(t, l); }
    }
}
template<class S> task<void> waiterMC_(Ctx<S>* c, int i, std::vector<int> targets) {
    MC_BEGIN(task<void>, c, i, targets = std::move(targets), k = size_t(0), r = S(0));
    for (; k < targets.size(); ++k) {
        MC_AWAIT_SET(r, c->b.wait_until_published(c->seq(targets[k])));
        c->got(targets[k], r); rt_add(PER + i, 1); rt_add(DONE, 1);
    }
    MC_END();
}
template<class S> Drv waiterMC(Ctx<S>* c, int i, std::vector<int> t) { co_await waiterMC_<S>(c, i, std::move(t)); }

template<class S> void run_concurrent(int wmax) {
    int n = 1 + (int)rt_rand(wmax), len = 1 + (int)rt_rand(5), polls = (int)rt_rand(2);
    Ctx<S> c(some_init<S>(), len);
    std::vector<std::vector<int>> tg(n); std::vector<int> where(n), kind(n);
    for (int i = 0; i < n; ++i) {
        int k = 1 + (int)rt_rand(3); for (int j = 0; j < k; ++j) tg[i].push_back((int)rt_rand(len + 1));
        if (coin()) std::sort(tg[i].begin(), tg[i].end());
        where[i] = (int)rt_rand(3); kind[i] = (int)rt_rand(4);
    }
    std::vector<int> pub; for (int k = 1; k <= len; ++k) if (k == len || coin()) pub.push_back(k);
    int cut = one_in(3) ? (int)rt_rand(pub.size()) : (int)pub.size();    // published by the thread; the rest after a quiescent point
    rt_desc("init=%llu width=%d waiters=%d len=%d publishes=%zu cut=%d", (unsigned long long)c.init, (int)sizeof(S), n, len, pub.size(), cut);
    auto go = [&](int i) { if (kind[i] == 3) waiterMC<S>(&c, i, tg[i]); else waiter<S>(&c, i, tg[i], kind[i]); };
    for (int i = 0; i < n; ++i) if (where[i] == 0) go(i);
    std::vector<std::thread> th;
    for (int i = 0; i < n; ++i) if (where[i] == 1) th.emplace_back([&, i] { go(i); });
    th.emplace_back([&] { for (int k = 0; k < cut; ++k) c.publish(pub[k]); });
    if (polls) th.emplace_back([&] { int prev = 0; for (int k = 0; k < 3; ++k) { S l = c.b.last_published(); c.got(prev, l); prev = c.off(l); } });
    for (int i = 0; i < n; ++i) if (where[i] == 2) go(i);
    for (auto& t : th) t.join();
    auto check = [&] {
        for (int i = 0; i < n; ++i) {
            size_t k = (size_t)rt_get(PER + i);
            if (k < tg[i].size()) RT_CHECK(tg[i][k] > c.last, "waiter-left-suspended-although-its-sequence-was-published");
        }
        RT_CHECK(c.off(c.b.last_published()) == c.last, "last_published-wrong");
    };
    check();
    for (size_t k = cut; k < pub.size(); ++k) { c.publish(pub[k]); check(); rt_count("quiescent-checks", 1); }
    for (int i = 0; i < n; ++i) RT_CHECK(rt_get(PER + i) == (int64_t)tg[i].size(), "waiter-never-resumed");
    rt_count("waits", (uint64_t)rt_get(DONE));
}

// single thread: exact model, long runs across the wrap-around
template<class S> void run_model() {
    Ctx<S> c(some_init<S>(), 0);
    struct W { Drv static go(Ctx<S>* c, int t, int* st) {
        S target = c->seq(t); *st = 1;
        S r = co_await c->b.wait_until_published(target);
        RT_CHECK(*st == 1, "waiter-resumed-twice"); *st = 2;
        RT_CHECK(c->off(r) >= t && c->off(r) == c->last, "yielded-a-sequence-never-published");
    } };
    // offsets may exceed the signed range: advance the base instead
    struct Wt { int t; int st; };
    std::deque<Wt> ws; int n = 4 + (int)rt_rand(24); uint64_t total = 0;
    int lim = sizeof(S) == 1 ? 100 : 1000;
    rt_desc("init=%llu width=%d ", (unsigned long long)c.init, (int)sizeof(S));
    for (int k = 0; k < n; ++k) {
        int o = (int)rt_rand(3);
        if (o < 2) { int t = c.last + (int)rt_rand(o == 0 ? 5 : 20) - 2; if (t < 0) t = 0; rt_desc("w%d ", t); ws.push_back({ t, 0 }); W::go(&c, t, &ws.back().st); RT_CHECK((ws.back().st == 2) == (t <= c.last), "await-disagrees-with-the-published-sequence"); }
        else {
            int s = c.last + (int)rt_rand(8); rt_desc("p%d ", s);
            c.last = s; rt_set(PUB, s); c.b.publish(c.seq(s));
            for (auto& w : ws) RT_CHECK((w.st == 2) == (w.t <= c.last), "publish-did-not-release-exactly-the-satisfied-waiters");
            if (c.last > lim - 40) {                     // rebase: release everything, move the origin
                c.last += 30; rt_set(PUB, c.last); c.b.publish(c.seq(c.last)); ws.clear(); total += c.last; c.init = c.seq(c.last); c.last = 0; rt_set(PUB, 0); rt_desc("| ");
            }
        }
    }
    int mx = c.last; for (auto& w : ws) mx = std::max(mx, w.t);
    c.last = mx; rt_set(PUB, mx); c.b.publish(c.seq(mx));
    for (auto& w : ws) RT_CHECK(w.st == 2, "waiter-never-resumed");
    rt_count("model-histories", 1);
}
// a resumed coroutine publishes / waits again from inside publish()
template<class S> void run_reentrant() {
    Ctx<S> c(some_init<S>(), 0); int n = 2 + (int)rt_rand(4);
    rt_desc("init=%llu width=%d waiters=%d", (unsigned long long)c.init, (int)sizeof(S), n);
    struct W { static Drv go(Ctx<S>* c, int i, int n) {
        int t = i;
        for (int k = 0; k < 3; ++k) {
            t = i + 1 + k * n;
            S r = co_await c->b.wait_until_published(c->seq(t));
            RT_CHECK(c->off(r) >= t, "yielded-a-sequence-before-the-target");
            RT_CHECK(c->off(r) <= rt_get(PUB), "yielded-a-sequence-never-published");
            RT_CHECK(rt_add(PER + i, 1) == k + 1, "waiter-resumed-twice");
        }
    } };
    for (int i = 0; i < n; ++i) W::go(&c, i, n);
    int last = 0;
    while (last < 3 * n) { last = std::min(3 * n, last + 1 + (int)rt_rand(n)); rt_set(PUB, last); c.b.publish(c.seq(last));
        for (int i = 0; i < n; ++i) { int e = 0; while (e < 3 && i + 1 + e * n <= last) ++e; RT_CHECK(rt_get(PER + i) == e, "publish-did-not-release-exactly-the-satisfied-waiters"); } }
    rt_count("reentrant", 1);
}
}

RT_CASE_W(C09, seqbar_size_t, 3) { run_concurrent<size_t>(3); }
RT_CASE_W(C09, seqbar_u8, 2) { run_concurrent<uint8_t>(3); }
RT_CASE(C09, seqbar_u16) { run_concurrent<uint16_t>(3); }
RT_CASE(C09, seqbar_u32) { run_concurrent<uint32_t>(3); }
RT_CASE(C09, seqbar_model_size_t) { run_model<size_t>(); }
RT_CASE(C09, seqbar_model_u8) { run_model<uint8_t>(); }
RT_CASE(C09, seqbar_model_u32) { run_model<uint32_t>(); }
RT_CASE(C09, seqbar_reentrant) { if (coin()) run_reentrant<size_t>(); else run_reentrant<uint8_t>(); }
