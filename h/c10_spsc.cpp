// C10: sequence_spsc over a real ring buffer.
#include "hx.h"
#include "macoro/sequence_spsc.h"
#include "macoro/sync_wait.h"
#include "macoro/when_all.h"
#include <algorithm>
#include <string>
using namespace macoro;

namespace {
enum { PUB = 20, REL = 21, GOT = 22, CLAIMED = 23 };   // offsets: publish started, release started, consumed
template<class S> struct Ring {
    using T = sequence_traits<S>;
    int B, N; S init;
    sequence_barrier<S> rel; sequence_spsc<S> q; std::vector<int> slot;
    Ring(int b, int n, S i) : B(b), N(n), init(i), rel(i), q(rel, (size_t)b, i), slot(b, 0) {}
    S seq(int o) const { return (S)(init + (S)o); }
    int& at(int o) { return slot[o % B]; }
    void claimed(int o, S s) {     // o: offset expected, s: what the library said
        RT_CHECK(s == seq(o), "claims-are-not-consecutive");
        RT_CHECK(o <= rt_get(REL) + B, "claimed-a-slot-the-consumer-has-not-released");
        rt_set(CLAIMED, o);
    }
};
template<class S> S some_init() {
    switch (rt_rand(4)) {
    case 0: return sequence_traits<S>::initial_sequence;
    case 1: return (S)(std::numeric_limits<S>::max() - (S)(1 + rt_rand(4)));
    case 2: return (S)(std::numeric_limits<std::make_signed_t<S>>::max() - (S)rt_rand(4));
    default: return (S)rt_rand(200);
    }
}
struct Plan { std::vector<int> claim; std::vector<int> batch; int early; };   // claim: 0 = claim_one, k = claim_up_to(k)
template<class S> task<void> producer20(Ring<S>* r, Plan p) {
    int next = 1; size_t i = 0;
    while (next <= r->N) {
        int k = p.claim[i++ % p.claim.size()];
        if (k == 0) {
            S s = co_await r->q.claim_one();
            r->claimed(next, s);
            r->at(next) = next * 10; rt_set(PUB, next); r->q.publish(s); ++next;
        } else {
            if (k > r->N - next + 1) k = r->N - next + 1;
            auto rg = co_await r->q.claim_up_to((size_t)k);
            int n = (int)rg.size();
            RT_CHECK(!rg.empty() && n >= 1 && n <= k, "claim-size-out-of-range");
            RT_CHECK(rg.back() == (S)(rg.front() + (S)(n - 1)), "range-inconsistent");
            int j = 0;
            for (S s : rg) { r->claimed(next + j, s); r->at(next + j) = (next + j) * 10; ++j; }
            RT_CHECK(j == n, "range-inconsistent");
            if (p.early && n > 1) { rt_set(PUB, next); r->q.publish(rg.front()); auto rest = sequence_range<S>(rg[1], (S)(rg.back() + 1)); rt_set(PUB, next + n - 1); r->q.publish(rest); }
            else { rt_set(PUB, next + n - 1); r->q.publish(rg); }
            next += n;
        }
    }
}
template<class S> task<void> producerMC(Ring<S>* r, Plan p) {
    MC_BEGIN(task<void>, r, p = std::move(p), next = 1, i = size_t(0), k = 0, s = S(0), rg = sequence_range<S>());
    while (next <= r->N) {
        k = p.claim[i++ % p.claim.size()];
        if (k == 0) {
            MC_AWAIT_SET(s, r->q.claim_one());
            r->claimed(next, s); r->at(next) = next * 10; rt_set(PUB, next); r->q.publish(s); ++next;
        } else {
            if (k > r->N - next + 1) k = r->N - next + 1;
            MC_AWAIT_SET(rg, r->q.claim_up_to((size_t)k));
            RT_CHECK((int)rg.size() >= 1 && (int)rg.size() <= k, "claim-size-out-of-range");
            for (int j = 0; j < (int)rg.size(); ++j) { r->claimed(next + j, rg[j]); r->at(next + j) = (next + j) * 10; }
            next += (int)rg.size(); rt_set(PUB, next - 1); r->q.publish(rg);
        }
    }
    MC_END();
}
template<class S> task<void> consumer20(Ring<S>* r, Plan p) {
    int have = 0, done = 0; size_t i = 0; bool two = p.early;
    while (done < r->N) {
        if (have == done) {
            int want = done + 1;
            if (one_in(3)) { int m = std::min(r->N, done + r->B); want = done + 1 + (int)rt_rand(m - done); }
            S s;
            if (two) s = co_await r->q.wait_until_published(r->seq(want), r->seq(have));
            else s = co_await r->q.wait_until_published(r->seq(want));
            int o = (int)sequence_traits<S>::difference(s, r->seq(done)) + done;
            RT_CHECK(o >= want, "yielded-a-sequence-before-the-target");
            RT_CHECK(o <= rt_get(PUB), "yielded-a-sequence-never-published");
            have = o;
        }
        int b = std::min(have - done, std::max(1, p.batch[i++ % p.batch.size()]));
        for (int k = 0; k < b; ++k) { ++done; RT_CHECK(r->at(done) == done * 10, "message-lost-or-overwritten"); r->at(done) = -done; rt_add(GOT, 1); }
        rt_set(REL, done); r->rel.publish(r->seq(done));
    }
}
Drv detach(task<void> t) { co_await t; rt_add(SL_FREE0, 1); }

template<class S> void run(int bmax) {
    int B = 1 + (int)rt_rand(bmax), N = 1 + (int)rt_rand(12), how = (int)rt_rand(4);
    Ring<S> r(B, N, some_init<S>());
    Plan p; int k = 1 + (int)rt_rand(4); for (int i = 0; i < k; ++i) p.claim.push_back(coin() ? 0 : 1 + (int)rt_rand(B + 3)); p.early = coin();
    Plan c; k = 1 + (int)rt_rand(4); for (int i = 0; i < k; ++i) c.batch.push_back((int)rt_rand(B + 1)); c.early = coin();
    bool mc = one_in(3);
    rt_desc("width=%d init=%llu B=%d N=%d how=%d macro=%d", (int)sizeof(S), (unsigned long long)r.init, B, N, how, mc);
    auto prod = [&] { return mc ? producerMC<S>(&r, p) : producer20<S>(&r, p); };
    if (how == 0) {          // both on their own threads, blocking
        std::thread a([&] { sync_wait(prod()); }); sync_wait(consumer20<S>(&r, c)); a.join(); rt_add(SL_FREE0, 2);
    } else if (how == 1) {   // detached coroutines: each may continue on the other's thread
        std::thread a([&] { detach(prod()); }), b([&] { detach(consumer20<S>(&r, c)); }); a.join(); b.join();
    } else if (how == 2) {   // one thread
        if (coin()) { detach(prod()); detach(consumer20<S>(&r, c)); } else { detach(consumer20<S>(&r, c)); detach(prod()); }
    } else {
        std::thread a([&] { detach(consumer20<S>(&r, c)); }); detach(prod()); a.join();
    }
    RT_CHECK(rt_get(SL_FREE0) == 2, "producer-or-consumer-never-resumed");
    RT_CHECK(rt_get(GOT) == N && r.q.last_published() == r.seq(N), "message-lost-or-overwritten");
    rt_count("messages", N);
}

// exact model of the claims on one thread
template<class S> void run_model(int bmax) {
    int B = 1 + (int)rt_rand(bmax); S init = some_init<S>();
    Ring<S> r(B, 0, init);
    // a pending claim is a detached coroutine that stores its result
    struct P { int st = 0; sequence_range<S> rg; S one; } pend;
    struct L {
        static Drv one(Ring<S>* r, P* p) { p->st = 1; S s = co_await r->q.claim_one(); RT_CHECK(p->st == 1, "claim-resumed-twice"); p->st = 2; p->one = s; }
        static Drv up(Ring<S>* r, P* p, size_t k) { p->st = 1; auto g = co_await r->q.claim_up_to(k); RT_CHECK(p->st == 1, "claim-resumed-twice"); p->st = 2; p->rg = g; }
    };
    S next = (S)(init + 1), pub = init, rel = init; int steps = 10 + (int)rt_rand(80); int pk = 0; rt_desc("width=%d init=%llu B=%d ", (int)sizeof(S), (unsigned long long)init, B);
    auto diff = [](S a, S b) { return (int)sequence_traits<S>::difference(a, b); };
    auto settle = [&](bool must) {
        int freec = B - diff((S)(next - 1), rel);       // unclaimed free slots
        RT_CHECK((pend.st == 2) == (freec > 0), "claim-completion-disagrees-with-the-free-slots");
        (void)must;
        if (pend.st == 2) {
            if (pk == 0) { RT_CHECK(pend.one == next, "claims-are-not-consecutive"); next = (S)(next + 1); }
            else { int n = std::min(pk, freec); 
                RT_CHECK(pend.rg.front() == next, "claims-are-not-consecutive");
                RT_CHECK((int)pend.rg.size() >= 1 && (int)pend.rg.size() <= n, "claimed-a-slot-the-consumer-has-not-released");
                next = (S)(next + pend.rg.size()); }
            pend.st = 0;
        }
    };
    for (int i = 0; i < steps; ++i) {
        int o = (int)rt_rand(3);
        if (o == 0 && pend.st == 0) { pk = coin() ? 0 : 1 + (int)rt_rand(B + 2); rt_desc("c%d", pk); if (pk == 0) L::one(&r, &pend); else L::up(&r, &pend, (size_t)pk); settle(true); }
        else if (o == 1 && diff((S)(next - 1), pub) > 0) { pub = (S)(pub + 1 + (S)rt_rand((uint64_t)diff((S)(next - 1), pub))); rt_desc("p"); r.q.publish(pub); RT_CHECK(r.q.last_published() == pub, "last_published-wrong"); }
        else if (o == 2 && diff(pub, rel) > 0) { S nr = (S)(rel + 1 + (S)rt_rand((uint64_t)diff(pub, rel))); rt_desc("r%d", diff(nr, rel)); rel = nr; r.rel.publish(rel); if (pend.st) settle(true); }
    }
    if (pend.st == 1) { if (diff((S)(next - 1), pub) > 0) { pub = (S)(next - 1); r.q.publish(pub); } rel = pub; r.rel.publish(rel); settle(true); }
    RT_CHECK(pend.st == 0, "claim-never-resumed");
    rt_count("model-histories", 1);
}
}
RT_CASE_W(C10, spsc_size_t, 3) { run<size_t>(4); }
RT_CASE_W(C10, spsc_u8, 2) { run<uint8_t>(4); }
RT_CASE(C10, spsc_u16) { run<uint16_t>(4); }
RT_CASE(C10, spsc_u32) { run<uint32_t>(6); }
RT_CASE(C10, spsc_model_size_t) { run_model<size_t>(9); }
RT_CASE(C10, spsc_model_u8) { run_model<uint8_t>(16); }
RT_CASE(C10, spsc_model_u32) { run_model<uint32_t>(5); }
