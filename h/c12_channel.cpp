// C12: spsc and mpsc channels.
#include "hx.h"
#include <memory>
#include "macoro/optional.h"
#include "macoro/channel.h"
#include "macoro/result.h"
#include "macoro/wrap.h"
#include "macoro/sync_wait.h"
#include <algorithm>
#include <type_traits>
using namespace macoro;

namespace {
enum { PUSHED = 20, CONS = 21, ENDED = 22, CLOSED = 23, RECV = 24, NEXT = 32 };  // NEXT+p: next message of sender p
using UP = std::unique_ptr<int64_t>;
struct Small { int64_t id = -5; int64_t chk = 0; };
inline Val mk(Val*, int64_t i) { return Val(i); }
inline UP mk(UP*, int64_t i) { return UP(new int64_t(i)); }
inline Small mk(Small*, int64_t i) { return Small{ i, ~i }; }
inline int64_t idof(const Val& v) { return v.get(); }
inline int64_t idof(const UP& v) { return v ? *v : -1; }
inline int64_t idof(const Small& v) { return v.chk == ~v.id ? v.id : -7; }

template<class T, class CH> struct Ctx {
    using sender_t = channel_sender<CH>; using receiver_t = channel_receiver<CH>;
    std::shared_ptr<CH> ch; std::unique_ptr<sender_t> s; std::unique_ptr<receiver_t> r; int cap, N, np; bool closing;
    std::atomic<int> sendersleft{ 0 };
    std::vector<int> sstyle, rstyle; 
};
inline void on_push_done(int cap) { int64_t p = rt_add(PUSHED, 1); RT_CHECK(p <= rt_get(CONS) + cap, "more-messages-than-the-capacity"); }
inline void on_recv(int64_t id, int np) {
    int p = (int)(id / 1000); RT_CHECK(id >= 0 && p < np, "received-something-never-sent");
    RT_CHECK(rt_get(NEXT + p) == id % 1000, "message-lost-duplicated-or-reordered"); rt_add(NEXT + p, 1); rt_add(RECV, 1);
}
// one coroutine per sender
template<class T, class CH> task<void> sender20(Ctx<T, CH>* c, int p, int quota) {
    for (int n = 0; n < quota; ++n) {
        int64_t id = p * 1000 + n; T* tag = nullptr;
        int st = c->sstyle[(size_t)(n + p) % c->sstyle.size()];
        if (st == 0) { co_await c->ch->push(mk(tag, id)); on_push_done(c->cap); }
        else if (st == 1) { auto w = co_await c->s->push(); w = mk(tag, id); on_push_done(c->cap); w.publish(); }
        else if (st == 2) { auto w = co_await c->s->push(); T& ref = w; ref = mk(tag, id); on_push_done(c->cap); }
        else if (st == 3) { typename CH::push_wrapper w; w = co_await c->s->push(); auto w2 = std::move(w); w2 = mk(tag, 7); rt_yield(); w2 = mk(tag, id); on_push_done(c->cap); w2.publish(); w2.publish(); }
        else if (st == 5) {           // a wrapper assigned over one that was not published
            auto w = co_await c->s->push(); w = mk(tag, id); on_push_done(c->cap);
            if (n + 1 < quota && c->cap >= 2 && c->np == 1) { ++n; w = co_await c->s->push(); w = mk(tag, id + 1); on_push_done(c->cap); }
        }
        else { auto a = c->ch->push(mk(tag, id)); co_await std::move(a); on_push_done(c->cap); }
    }
    if (c->sendersleft.fetch_sub(1, std::memory_order_acq_rel) == 1 && c->closing) { rt_set(CLOSED, 1); co_await c->s->close(); }
    rt_add(ENDED, 1);
}
template<class T, class CH> task<void> senderMC(Ctx<T, CH>* c, int p, int quota) {
    MC_BEGIN(task<void>, c, p, quota, n = 0, w = typename CH::push_wrapper{}, tag = (T*)nullptr);
    for (n = 0; n < quota; ++n) {
        if (n & 1) { MC_AWAIT_SET(w, c->s->push()); w = mk(tag, p * 1000 + n); on_push_done(c->cap); w.publish(); }
        else { MC_AWAIT(c->ch->push(mk(tag, p * 1000 + n))); on_push_done(c->cap); }
    }
    if (c->sendersleft.fetch_sub(1, std::memory_order_acq_rel) == 1 && c->closing) { rt_set(CLOSED, 1); MC_AWAIT(c->s->close()); }
    rt_add(ENDED, 1);
    MC_END();
}
template<class T, class CH> task<void> receiver20(Ctx<T, CH>* c) {
    for (int k = 0;; ++k) {
        if (!c->closing && k == c->N) break;
        int st = c->rstyle[(size_t)k % c->rstyle.size()]; bool closed = false;
        try {
            if (st == 0) { auto w = co_await c->r->pop(); int64_t id = idof(*w); on_recv(id, c->np); rt_add(CONS, 1); w.publish(); w.publish(); }
            else if (st == 1) { T& f = co_await c->r->front(); int64_t id = idof(f); T& f2 = co_await c->r->front(); RT_CHECK(&f == &f2, "front-consumed-the-message"); auto w = co_await c->r->pop(); RT_CHECK(idof(*w.operator->()) == id, "front-and-pop-disagree"); on_recv(id, c->np); rt_add(CONS, 1); }
            else if (st == 3) { typename CH::pop_wrapper h; h = co_await c->r->pop(); T v = std::move(*h); rt_yield(); auto h2 = std::move(h); on_recv(idof(v), c->np); rt_add(CONS, 1); h2.publish(); }
            else { T v; { auto w = co_await c->r->pop(); v = T(static_cast<T&&>(w)); rt_add(CONS, 1); } on_recv(idof(v), c->np); }
        } catch (channel_closed_exception&) { closed = true; }
        if (closed) {
            RT_CHECK(c->closing && rt_get(CLOSED), "closed-although-nobody-closed");
            RT_CHECK(rt_get(RECV) == c->N, "closed-before-all-messages-were-received");
            for (int j = 0; j < 2; ++j) {
                bool thrown = false;
                try { if (st & 1) { auto& f = co_await c->r->front(); (void)f; } else { auto w = co_await c->r->pop(); (void)w; } } catch (channel_closed_exception&) { thrown = true; }
                RT_CHECK(thrown, "value-received-after-close"); st ^= 1;
            }
            break;
        }
        RT_CHECK(rt_get(RECV) == k + 1, "value-received-after-close");
    }
    rt_add(ENDED, 1);
}
template<class T, class CH> task<void> receiverMC(Ctx<T, CH>* c) {
    MC_BEGIN(task<void>, c, k = 0, f = (T*)nullptr, w = typename CH::pop_wrapper{}, res = macoro::result<typename CH::pop_wrapper>(Err(std::exception_ptr())));
    for (k = 0;; ++k) {
        if (!c->closing && k == c->N) break;
        MC_AWAIT_TRY(res, c->r->pop());
        if (res.has_error()) {
            bool ok = false;
            try { std::rethrow_exception(res.error()); } catch (channel_closed_exception&) { ok = true; } catch (...) {}
            RT_CHECK(ok && c->closing && rt_get(CLOSED), "closed-although-nobody-closed");
            RT_CHECK(rt_get(RECV) == c->N, "closed-before-all-messages-were-received");
            break;
        }
        w = std::move(res.value());
        on_recv(idof(*w), c->np); rt_add(CONS, 1);
        w.publish();
    }
    rt_add(ENDED, 1);
    MC_END();
}
Drv detach(task<void> t) { co_await t; }

template<class T, class CH> void run(int pmax, int qmax) {
    Ctx<T, CH> c; c.cap = 1 << rt_rand(one_in(2) ? 1 : 3); c.np = 1 + (int)rt_rand(pmax); c.N = 0; c.closing = !one_in(4);
    std::vector<int> q(c.np); for (auto& x : q) { x = (int)rt_rand(qmax + 1); c.N += x; }
    c.sendersleft = c.np;
    int k = 1 + (int)rt_rand(3); for (int i = 0; i < k; ++i) c.sstyle.push_back((int)rt_rand(6));
    k = 1 + (int)rt_rand(3); for (int i = 0; i < k; ++i) { int s = (int)rt_rand(4); c.rstyle.push_back(s == 2 ? 4 : s); }
    bool mr = one_in(4); int ms = one_in(3) ? (int)rt_rand(c.np) : -1; int how = (int)rt_rand(4);
    c.ch = std::make_shared<CH>((size_t)c.cap);
    c.s = std::make_unique<channel_sender<CH>>(c.ch); c.r = std::make_unique<channel_receiver<CH>>(c.ch);
    rt_desc("cap=%d N=%d senders=%d how=%d close=%d macro-recv=%d macro-send=%d styles=%d/%d", c.cap, c.N, c.np, how, c.closing, mr, ms, c.sstyle[0], c.rstyle[0]);
    auto snd = [&](int p) { return p == ms ? senderMC<T, CH>(&c, p, q[p]) : sender20<T, CH>(&c, p, q[p]); };
    auto rcv = [&] { return mr ? receiverMC<T, CH>(&c) : receiver20<T, CH>(&c); };
    std::vector<std::thread> th;
    if (how == 0) {
        for (int p = 0; p < c.np; ++p) th.emplace_back([&, p] { sync_wait(snd(p)); });
        sync_wait(rcv());
    } else if (how == 1) {
        for (int p = 0; p < c.np; ++p) th.emplace_back([&, p] { detach(snd(p)); });
        detach(rcv());
    } else if (how == 2) {
        int at = (int)rt_rand(c.np + 1);
        for (int p = 0; p <= c.np; ++p) { if (p == at) detach(rcv()); if (p < c.np) detach(snd(p)); }
    } else {
        th.emplace_back([&] { detach(rcv()); });
        for (int p = 0; p < c.np; ++p) { if (coin()) detach(snd(p)); else th.emplace_back([&, p] { detach(snd(p)); }); }
    }
    for (auto& t : th) t.join();
    RT_CHECK(rt_get(ENDED) == c.np + 1, "sender-or-receiver-never-resumed");
    RT_CHECK(rt_get(RECV) == c.N, "message-lost-duplicated-or-reordered");
    for (int p = 0; p < c.np; ++p) RT_CHECK(rt_get(NEXT + p) == q[p], "message-lost-duplicated-or-reordered");
    rt_count("messages", c.N); if (c.closing) rt_count("closes", 1);
}
template<class T> using SP = spsc::channel<T>;
template<class T> using MP = mpsc::channel<T>;

// one thread: the sender is suspended exactly while capacity messages are unconsumed
template<class CH, class P> void run_model(P make) {
    int cap = 1 << rt_rand(4); auto sr = make((size_t)cap);
    auto& s = sr.first; auto& r = sr.second; int N = 1 + (int)rt_rand(20);
    struct L { static Drv go(std::remove_reference_t<decltype(s)>* s, int n) {
        for (int i = 0; i < n; ++i) { auto w = co_await s->push(); w = Val(i); rt_add(PUSHED, 1); if (i & 1) w.publish(); }
        co_await s->close(); rt_add(ENDED, 1);
    }
    static Drv pop(std::remove_reference_t<decltype(r)>* r) {
        rt_set(RECV, 1);
        try { auto w = co_await r->pop(); int64_t id = idof(*w); RT_CHECK(id == rt_get(CONS), "message-lost-duplicated-or-reordered"); rt_add(CONS, 1); rt_set(RECV, 2); }
        catch (channel_closed_exception&) { rt_set(RECV, 3); }
    } };
    rt_desc("cap=%d N=%d", cap, N);
    int first = coin() ? 1 : 0;
    if (first) { L::pop(&r); RT_CHECK(rt_get(RECV) == 1, "received-something-never-sent"); }
    L::go(&s, N);
    for (int c = 0; c <= N; ++c) {
        if (!(first && c == 0)) L::pop(&r);
        if (c < N) {
            RT_CHECK(rt_get(RECV) == 2 && rt_get(CONS) == c + 1, "receiver-never-resumed");
            RT_CHECK(rt_get(PUSHED) == std::min(N, c + 1 + cap), "sender-progress-disagrees-with-the-capacity");
        } else RT_CHECK(rt_get(RECV) == 3, "value-received-after-close");
    }
    RT_CHECK(rt_get(ENDED) == 1, "sender-never-resumed");
    rt_count("model-histories", 1);
}
// undelivered messages are destroyed with the channel; wrappers survive being moved and dropped
template<class CH, class P> void run_abandon(P make) {
    int cap = 1 << rt_rand(4); int n = (int)rt_rand(cap + 1), take = (int)rt_rand(n + 1);
    rt_desc("cap=%d n=%d take=%d", cap, n, take);
    auto sr = make((size_t)cap);
    struct L { static Drv go(std::remove_reference_t<decltype(sr)>* p, int n, int take) {
        for (int i = 0; i < n; ++i) { auto w = co_await p->first.push(); w = Val(i); auto w2 = std::move(w); }
        for (int i = 0; i < take; ++i) { auto w = co_await p->second.pop(); RT_CHECK(w->get() == i, "message-lost-duplicated-or-reordered"); auto w2 = std::move(w); decltype(w) w3; w3 = std::move(w2); }
        rt_add(ENDED, 1);
    } };
    L::go(&sr, n, take);
    RT_CHECK(rt_get(ENDED) == 1, "sender-or-receiver-never-resumed");
    RT_CHECK(rt_get(SL_VAL) == n - take, "undelivered-messages-lost-or-duplicated");
    rt_count("abandoned", (uint64_t)(n - take));
}
}
RT_CASE_W(C12, chan_spsc, 3) { if (coin()) run<Val, SP<Val>>(1, 6); else run<UP, SP<UP>>(1, 6); }
RT_CASE_W(C12, chan_mpsc, 3) { if (coin()) run<Val, MP<Val>>(3, 4); else run<UP, MP<UP>>(2, 4); }
RT_CASE(C12, chan_pod) { if (coin()) run<Small, SP<Small>>(1, 6); else run<Small, MP<Small>>(2, 4); }
RT_CASE(C12, chan_model) { if (coin()) run_model<SP<Val>>([](size_t c) { return spsc::make_channel<Val>(c); }); else run_model<MP<Val>>([](size_t c) { return mpsc::make_channel<Val>(c); }); }
RT_CASE(C12, chan_abandon) { if (coin()) run_abandon<SP<Val>>([](size_t c) { return spsc::make_channel<Val>(c); }); else run_abandon<MP<Val>>([](size_t c) { return mpsc::make_channel<Val>(c); }); }
RT_CASE(C12, chan_capacity) {
    size_t cap = rt_rand(20); bool ok = cap && !(cap & (cap - 1)), m = coin(); rt_desc("capacity=%zu mpsc=%d", cap, m);
    bool thrown = false;
    try { if (m) { auto c = mpsc::make_channel<Val>(cap); } else { auto c = spsc::make_channel<Val>(cap); } } catch (std::exception&) { thrown = true; }
    RT_CHECK(thrown == !ok, "capacity-not-a-power-of-two-accepted-or-power-of-two-rejected");
    rt_count("capacities", 1);
}
