// C11: sequence_mpsc over a real ring buffer.
#include "hx.h"
#include "macoro/sequence_mpsc.h"
#include "macoro/sync_wait.h"
#include <algorithm>
#include <type_traits>
using namespace macoro;

namespace {
enum { REL = 20, GOT = 21, NEXT = 22, ENDED = 23, CL = 64, PB = 128, W0 = 40 };  // CL+o: claims of offset o; PB+o: publish of o started
template<class S> struct Ring {
    using T = sequence_traits<S>;
    int B, N; S init;
    sequence_barrier<S> rel; sequence_mpsc<S> q; std::vector<int> slot;
    Ring(int b, int n, S i) : B(b), N(n), init(i), rel(i), q(rel, (size_t)b, i), slot(b, 0) {}
    S seq(int o) const { return (S)(init + (S)o); }
    int off(S s) const { int r = (int)rt_get(REL); return (int)T::difference(s, seq(r)) + r; }
    int& at(int o) { return slot[o & (B - 1)]; }
    // the offset of a sequence just granted
    int claimed(S s) {
        int o = off(s);
        RT_CHECK(o >= 1 && o <= N, "claimed-sequence-out-of-range");
        RT_CHECK(o <= rt_get(REL) + B, "claimed-a-slot-the-consumer-has-not-released");
        RT_CHECK(rt_add(CL + o, 1) == 1, "sequence-given-to-two-producers");
        return o;
    }
    int published_prefix(int from) { while (from + 1 <= N && rt_get(PB + from + 1)) ++from; return from; }
};
template<class S> S some_init() {
    switch (rt_rand(4)) {
    case 0: return sequence_traits<S>::initial_sequence;
    case 1: return (S)(std::numeric_limits<S>::max() - (S)(1 + rt_rand(4)));
    case 2: return (S)(std::numeric_limits<std::make_signed_t<S>>::max() - (S)rt_rand(4));
    default: return (S)rt_rand(200);
    }
}
struct Plan { int quota; std::vector<int> claim; int mode; };
constexpr int msg(int p, int n) { return p * 1000 + n; }

template<class S> task<void> producer(Ring<S>* r, int p, Plan pl) {
    int n = 0; size_t i = 0;
    while (n < pl.quota) {
        int k = pl.claim[i++ % pl.claim.size()];
        if (k == 0) {
            S s = co_await r->q.claim_one();
            int o = r->claimed(s);
            r->at(o) = msg(p, n++); rt_set(PB + o, 1); r->q.publish(s);
        } else {
            {
                if (k > pl.quota - n) k = pl.quota - n;
                auto rg = co_await r->q.claim_up_to((size_t)k);
                int c = (int)rg.size();
                RT_CHECK(c >= 1 && c <= k && c <= r->B, "claim-size-out-of-range");
                std::vector<int> os; for (S s : rg) os.push_back(r->claimed(s));
                for (int j = 0; j < c; ++j) { RT_CHECK(os[j] == os[0] + j, "range-not-consecutive"); r->at(os[j]) = msg(p, n + j); }
                n += c;
                if (pl.mode == 0) { for (int o : os) rt_set(PB + o, 1); r->q.publish(rg); }
                else if (pl.mode == 1) { for (int j = c - 1; j >= 0; --j) { rt_set(PB + os[j], 1); r->q.publish(rg[(size_t)j]); } }
                else { size_t h = rt_rand((uint64_t)c + 1); auto a = rg.first(h), b = rg.skip(h); for (int j = (int)h; j < c; ++j) rt_set(PB + os[j], 1); r->q.publish(b); for (int j = 0; j < (int)h; ++j) rt_set(PB + os[j], 1); r->q.publish(a); }
            }
        }
    }
}
template<class S> task<void> producerMC(Ring<S>* r, int p, Plan pl) {
    MC_BEGIN(task<void>, r, p, pl = std::move(pl), n = 0, s = S(0));
    while (n < pl.quota) {
        MC_AWAIT_SET(s, r->q.claim_one());
        { int o = r->claimed(s); r->at(o) = msg(p, n++); rt_set(PB + o, 1); r->q.publish(s); }
    }
    MC_END();
}
template<class S> task<void> consumer(Ring<S>* r, std::vector<int> batch, int np, bool ahead) {
    int have = 0, done = 0; size_t i = 0; std::vector<int> nextmsg(np, 0);
    while (done < r->N) {
        if (have == done) {
            int want = done + 1;
            if (ahead && one_in(3)) want = done + 1 + (int)rt_rand(std::min(r->N, done + r->B) - done);
            S s = co_await r->q.wait_until_published(r->seq(want), r->seq(have));
            int o = r->off(s);
            RT_CHECK(o >= want, "yielded-a-sequence-before-the-target");
            RT_CHECK(o <= r->published_prefix(done), "yielded-a-sequence-never-published");
            have = o;
            if (coin()) { S l = r->q.last_published_after(r->seq(have)); int lo = r->off(l); RT_CHECK(lo >= have && lo <= r->published_prefix(done), "last_published_after-wrong"); have = lo; }
        }
        int b = std::min(have - done, std::max(1, batch[i++ % batch.size()]));
        for (int k = 0; k < b; ++k) {
            ++done; int m = r->at(done), p = m / 1000;
            RT_CHECK(m >= 0 && p < np && m % 1000 == nextmsg[p], "message-lost-duplicated-or-reordered"); ++nextmsg[p];
            r->at(done) = -1; rt_add(GOT, 1);
        }
        rt_set(REL, done); r->rel.publish(r->seq(done));
    }
}
Drv detach(task<void> t) { co_await t; rt_add(ENDED, 1); }

template<class S> void run(int pmax, int qmax) {
    int np = 1 + (int)rt_rand(pmax), B = 1 << rt_rand(4), how = (int)rt_rand(4), N = 0;
    if (one_in(3)) B = 1;
    std::vector<Plan> pl(np);
    for (auto& p : pl) { p.quota = 1 + (int)rt_rand(qmax); N += p.quota; int k = 1 + (int)rt_rand(3); for (int i = 0; i < k; ++i) p.claim.push_back(coin() ? 0 : 1 + (int)rt_rand(B + 2)); p.mode = (int)rt_rand(3); }
    Ring<S> r(B, N, some_init<S>());
    std::vector<int> batch; int k = 1 + (int)rt_rand(3); for (int i = 0; i < k; ++i) batch.push_back((int)rt_rand(B + 1));
    bool ahead = coin(); for (auto& p : pl) if (ahead) p.claim = { 0 };   // a range is granted as a whole: waiting ahead of it could never end
    int mcp = one_in(3) ? (int)rt_rand(np) : -1;
    rt_desc("width=%d init=%llu B=%d N=%d producers=%d how=%d macro=%d ahead=%d", (int)sizeof(S), (unsigned long long)r.init, B, N, np, how, mcp, ahead);
    RT_CHECK((int)r.q.buffer_size() == B, "buffer_size-wrong");
    auto prod = [&](int p) { return p == mcp ? producerMC<S>(&r, p, pl[p]) : producer<S>(&r, p, pl[p]); };
    std::vector<std::thread> th;
    if (how == 0) {
        for (int p = 0; p < np; ++p) th.emplace_back([&, p] { sync_wait(prod(p)); rt_add(ENDED, 1); });
        sync_wait(consumer<S>(&r, batch, np, ahead)); rt_add(ENDED, 1);
    } else if (how == 1) {
        for (int p = 0; p < np; ++p) th.emplace_back([&, p] { detach(prod(p)); });
        if (coin()) detach(consumer<S>(&r, batch, np, ahead)); else th.emplace_back([&] { detach(consumer<S>(&r, batch, np, ahead)); });
    } else if (how == 2) {
        int c = (int)rt_rand(np + 1);
        for (int p = 0; p <= np; ++p) { if (p == c) detach(consumer<S>(&r, batch, np, ahead)); if (p < np) detach(prod(p)); }
    } else {
        detach(consumer<S>(&r, batch, np, ahead));
        for (int p = 0; p < np; ++p) { if (coin()) detach(prod(p)); else th.emplace_back([&, p] { detach(prod(p)); }); }
    }
    for (auto& t : th) t.join();
    RT_CHECK(rt_get(ENDED) == np + 1, "producer-or-consumer-never-resumed");
    for (int o = 1; o <= N; ++o) RT_CHECK(rt_get(CL + o) == 1, "gap-in-the-claimed-sequences");
    RT_CHECK(rt_get(GOT) == N, "message-lost-duplicated-or-reordered");
    RT_CHECK(r.q.last_published_after(r.seq(0)) == r.seq(N) || N > B, "last_published_after-wrong");
    RT_CHECK(r.q.any_available(), "any_available-false-although-slots-are-free");
    rt_count("messages", N);
}

// one thread, exact model: claims, out-of-order publishes, waits, any_available
template<class S> void run_model() {
    int B = 1 << rt_rand(4); S init = some_init<S>();
    Ring<S> r(B, 1000, init);
    struct C { int first, n, st; int one; S got; sequence_range<S> rg; }; std::deque<C> cs;
    struct Wt { int target, st, known; S got; }; bool forceone = false; std::deque<Wt> ws;
    struct L {
        static Drv one(Ring<S>* r, C* c) { c->st = 1; S s = co_await r->q.claim_one(); RT_CHECK(c->st == 1, "claim-resumed-twice"); c->st = 2; c->got = s; }
        static Drv up(Ring<S>* r, C* c, size_t k) { c->st = 1; auto g = co_await r->q.claim_up_to(k); RT_CHECK(c->st == 1, "claim-resumed-twice"); c->st = 2; c->rg = g; }
        static Drv wait(Ring<S>* r, Wt* w, S t, S known) { w->st = 1; auto op = r->q.wait_until_published(t, known); auto op2 = op; S s = co_await op2; RT_CHECK(w->st == 1, "waiter-resumed-twice"); w->st = 2; w->got = s; }
    };
    int claimed = 0, rel = 0, lim = sizeof(S) == 1 ? 90 : 400; std::vector<char> pub(1000, 0); int prefix = 0;
    rt_desc("width=%d init=%llu B=%d ", (int)sizeof(S), (unsigned long long)init, B);
    auto seq = [&](int o) { return (S)(init + (S)o); };
    auto check = [&] {
        for (auto& c : cs) {
            bool ok = c.first + c.n - 1 <= rel + B;
            RT_CHECK((c.st == 2) == ok, "claim-completion-disagrees-with-the-released-slots");
            if (ok) { if (c.one) RT_CHECK(c.got == seq(c.first), "claims-are-not-consecutive"); else RT_CHECK(c.rg.front() == seq(c.first) && (int)c.rg.size() == c.n, "claims-are-not-consecutive"); }
        }
        while (pub[prefix + 1]) ++prefix;
        for (auto& w : ws) {
            RT_CHECK((w.st == 2) == (w.target <= prefix), "waiter-completion-disagrees-with-the-published-prefix");
        }
        RT_CHECK(r.q.any_available() == (claimed + 1 <= rel + B), "any_available-wrong");
        RT_CHECK(r.q.last_published_after(seq(rel)) == seq(prefix), "last_published_after-wrong");
    };
    check();
    int steps = 10 + (int)rt_rand(60);
    for (int i = 0; i < steps && claimed < lim; ++i) {
        int o = (int)rt_rand(5);
        if (o <= 1) {
            if (claimed - rel > 2 * B + 2) continue;
            cs.emplace_back(); C& c = cs.back(); c.first = claimed + 1; c.st = 0; c.one = forceone || coin(); forceone = false;
            if (c.one) { c.n = 1; rt_desc("c1 "); L::one(&r, &c); }
            else { int k = (int)rt_rand(B + 3); c.n = std::min(k, B); rt_desc("u%d ", k); L::up(&r, &c, (size_t)k); }
            claimed += c.n;
        } else if (o == 2) {           // publish something granted
            std::vector<int> cand; for (auto& c : cs) if (c.st == 2) for (int k = 0; k < c.n; ++k) if (!pub[c.first + k]) cand.push_back(c.first + k);
            if (cand.empty()) continue;
            if (one_in(5)) { r.q.publish(sequence_range<S>(seq(claimed), seq(claimed))); check(); }      // an empty range: nothing happens
            int f = cand[rt_rand(cand.size())]; rt_desc("p%d ", f); pub[f] = 1; 
            r.q.publish(seq(f));
            while (pub[prefix + 1]) ++prefix;
        } else if (o == 3) {           // one waiter at a time: a single consumer
            bool busy = false; for (auto& w : ws) busy |= w.st == 1;
            if (busy) continue;
            int granted = 0; for (auto& c : cs) if (c.st == 2) granted = std::max(granted, c.first + c.n - 1);
            int top = std::min(rel + B, granted == claimed ? granted + 1 : granted);
            if (top <= rel) continue;
            int t = rel + 1 + (int)rt_rand(top - rel); if (t == claimed + 1) forceone = true;
            int known = rel + (int)rt_rand(prefix - rel + 1);
            ws.emplace_back(); ws.back().target = t; ws.back().st = 0; ws.back().known = known; rt_desc("w%d/%d ", t, known);
            L::wait(&r, &ws.back(), seq(t), seq(known));
            if (ws.back().st == 2) RT_CHECK(ws.back().got == seq(prefix) || known >= t, "wait-yielded-a-wrong-sequence");
        } else if (prefix > rel) { int hold = 1000; for (auto& w : ws) if (w.st == 1) hold = w.known; int m = std::min(prefix, hold); if (m <= rel) continue; rel += 1 + (int)rt_rand(m - rel); rt_desc("r%d ", rel); r.rel.publish(seq(rel)); }
        check();
    }
    // drain
    for (int guard = 0; guard < 2000; ++guard) {
        bool any = false;
        for (auto& c : cs) if (c.st == 2) for (int k = c.n - 1; k >= 0; --k) if (!pub[c.first + k]) { pub[c.first + k] = 1; r.q.publish(seq(c.first + k)); any = true; }
        while (pub[prefix + 1]) ++prefix;
        bool waiting = false; for (auto& w : ws) waiting |= w.st == 1;
        if (prefix > rel && !waiting) { rel = prefix; r.rel.publish(seq(rel)); any = true; }
        if (!any && waiting) { cs.emplace_back(); C& c = cs.back(); c.first = ++claimed; c.n = 1; c.one = 1; c.st = 0; L::one(&r, &c); any = true; }
        if (!any) break;
    }
    for (auto& c : cs) RT_CHECK(c.st == 2, "claim-never-resumed");
    for (auto& w : ws) RT_CHECK(w.st == 2, "waiter-never-resumed");
    rt_count("model-histories", 1);
}

// several coroutines wait for different sequences, producers publish in any order;
// after every batch of publishes exactly the satisfied waiters have been resumed
template<class S> void run_waiters() {
    int np = 1 + (int)rt_rand(3), nw = 1 + (int)rt_rand(4), B = 8, n1 = 1 + (int)rt_rand(4), N = n1 + (int)rt_rand(3), how = (int)rt_rand(2);
    if (np > n1) np = n1;
    Ring<S> r(B, N, some_init<S>());
    std::vector<int> target(nw), done(nw, 0); for (auto& t : target) t = 1 + (int)rt_rand(N);
    rt_desc("width=%d init=%llu producers=%d waiters=%d t0=%d first=%d N=%d how=%d", (int)sizeof(S), (unsigned long long)r.init, np, nw, target[0], n1, N, how);
    struct W { static Drv go(Ring<S>* r, int t, int w) {
        S s = co_await r->q.wait_until_published(r->seq(t), r->seq(0));
        int o = r->off(s);
        RT_CHECK(o >= t, "yielded-a-sequence-before-the-target");
        RT_CHECK(o <= r->published_prefix(0), "yielded-a-sequence-never-published");
        for (int k = 1; k <= o; ++k) RT_CHECK(r->at(k) >= 0, "writes-before-publish-not-visible");
        RT_CHECK(rt_add(W0 + w, 1) == 1, "waiter-resumed-twice"); rt_add(ENDED, 1);
    } };
    auto check = [&](int pub) { for (int w = 0; w < nw; ++w) RT_CHECK(rt_get(W0 + w) == (target[w] <= pub), target[w] <= pub ? "waiter-never-resumed" : "waiter-resumed-early"); };
    std::vector<std::thread> th; std::vector<Plan> pl(np);
    for (int p = 0; p < np; ++p) { pl[p].quota = n1 / np + (p < n1 % np); pl[p].claim = { coin() ? 0 : 1 + (int)rt_rand(3) }; pl[p].mode = (int)rt_rand(3); }
    for (int w = 0; w < nw; ++w) if (how == 0 || coin()) W::go(&r, target[w], w); else th.emplace_back([&, w] { W::go(&r, target[w], w); });
    for (int p = 0; p < np; ++p) th.emplace_back([&, p] { sync_wait(producer<S>(&r, p, pl[p])); });
    for (auto& t : th) t.join();
    check(n1);
    for (int k = n1 + 1; k <= N; ++k) { sync_wait(producer<S>(&r, 9, Plan{ 1, { 0 }, 0 })); check(k); }
    RT_CHECK(rt_get(ENDED) == nw, "waiter-never-resumed");
    rt_count("waits", nw);
}
}
RT_CASE_W(C11, mpsc_two_producers, 3) { run<size_t>(2, 4); }
RT_CASE_W(C11, mpsc_producers, 2) { run<size_t>(4, 4); }
RT_CASE(C11, mpsc_u32) { run<uint32_t>(2, 4); }
RT_CASE(C11, mpsc_u8) { run<uint8_t>(2, 4); }
RT_CASE(C11, mpsc_model_size_t) { run_model<size_t>(); }
RT_CASE(C11, mpsc_model_u8) { run_model<uint8_t>(); }
RT_CASE_W(C11, mpsc_waiters, 3) { if (one_in(4)) run_waiters<uint8_t>(); else run_waiters<size_t>(); }
