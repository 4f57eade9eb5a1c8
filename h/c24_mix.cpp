// C24: programs composed of all parts of the library. A random tree of operations; every node
// runs its children in the way of its kind and adds up their outcomes, known in advance.
#include "hx.h"
#include <chrono>
#include <sstream>
#include "macoro/async_scope.h"
#include "macoro/barrier.h"
#include "macoro/channel.h"
#include "macoro/inline_scheduler.h"
#include "macoro/manual_reset_event.h"
#include "macoro/start_on.h"
#include "macoro/stop.h"
#include "macoro/sync_wait.h"
#include "macoro/take_until.h"
#include "macoro/thread_pool.h"
#include "macoro/timeout.h"
#include "macoro/transfer_to.h"
#include "macoro/when_all.h"
#include "macoro/when_all_scope.h"
#include "macoro/wrap.h"
using namespace macoro;

namespace {
enum Kind { LEAF, SEQ, ALL, SCOPE, WSCOPE, CHAN, MCHAN, EVENT, BARRIER, TAKE, STOP, EAGER, N_KIND };
const char* kind_name[] = { "leaf", "seq", "all", "scope", "wscope", "chan", "mchan", "event", "barrier", "take", "stop", "eager" };
int S(int id, int k) { return 64 + id * 4 + k; }    // 0 starts, 1 ends, 2 live guards, 3 outcomes delivered
struct W;
struct N {
    int id; Kind kind; bool thr, mc; int hop, how, aux; std::vector<N*> kids; W* w; GateRef gate;
    int data = 0; int64_t out = -1;     // written by the body, read by whoever awaited it
    int64_t expect() const { int64_t s = id; for (auto* k : kids) s += k->outcome(); return s; }
    int64_t outcome() const { return thr ? -7919 * id : expect(); }
};
struct W {
    std::deque<N> nodes; Workers workers; thread_pool* pool[2] = {}; int budget; inline_scheduler in;
    explicit W(int n) : workers(n) {}
};
N* make(W& w, int depth) {
    w.nodes.emplace_back(); N* n = &w.nodes.back(); --w.budget;
    n->id = (int)w.nodes.size(); n->w = &w; n->gate.g = w.workers.gate();
    n->thr = one_in(5); n->mc = one_in(4); n->hop = (int)rt_rand(8); n->how = (int)rt_rand(6); n->aux = (int)rt_rand(1024);
    n->kind = depth == 0 || w.budget <= 0 ? LEAF : (Kind)(1 + rt_rand(N_KIND - 1));
    if (n->kind != LEAF) { int k = n->kind == TAKE ? 1 : 1 + (int)rt_rand(3); for (int i = 0; i < k && (i == 0 || w.budget > 0); ++i) n->kids.push_back(make(w, depth - 1)); }
    return n;
}
task<Val> run(N* n);
task<Val> runMC(N* n);
task<Val> go(N* n) { return n->mc ? runMC(n) : run(n); }

void delivered(N* n) {
    RT_CHECK(rt_add(S(n->id, 3), 1) == 1, "outcome-delivered-twice");
    RT_CHECK(rt_get(S(n->id, 0)) == 1 && rt_get(S(n->id, 1)) == 1, "resumed-before-the-body-finished");
    RT_CHECK(n->data == n->id, "writes-of-the-body-not-visible");
    rt_count(kind_name[n->kind], 1);
}
int64_t got(N* n, const Val& v) { RT_CHECK(!n->thr, "wrong-kind-of-outcome"); delivered(n); RT_CHECK(v.get() == n->expect(), "wrong-result"); return v.get(); }
int64_t got(N* n, const Exc& e) { RT_CHECK(n->thr, "wrong-kind-of-outcome"); delivered(n); RT_CHECK(e.id == n->id, "wrong-exception"); return n->outcome(); }
template<class R> int64_t got_result(N* n, R& r) { try { Val v = std::move(r).result(); return got(n, v); } catch (Exc& e) { return got(n, e); } }
template<class R> int64_t got_macoro(N* n, R&& r) {
    if (r.has_value()) return got(n, r.value());
    try { std::rethrow_exception(r.error()); } catch (Exc& e) { return got(n, e); }
}
thread_pool& pool(N* n, int k = 0) { return *n->w->pool[(n->aux >> k) & 1]; }
std::chrono::nanoseconds delay(N* n) { return std::chrono::nanoseconds((n->aux % 5) * (n->aux % 7) * 100); }

// the outcome of a child, awaited in one of several ways
task<int64_t> out(N* k) {
    try {
        if (k->how == 0) { Val v = co_await go(k); co_return got(k, v); }
        if (k->how == 1) { auto t = go(k); Val& v = co_await t; Val& v2 = co_await t; RT_CHECK(&v == &v2, "second-await-of-lvalue-task"); co_return got(k, v); }
        if (k->how == 2) { auto r = co_await wrap(go(k)); co_return got_macoro(k, std::move(r)); }
        if (k->how == 3) { auto t = make_eager(go(k)); co_await t.when_ready(); Val v = co_await std::move(t); co_return got(k, v); }
        if (k->how == 4) { auto t = go(k) | start_on(pool(k, 3)); Val v = co_await std::move(t); co_return got(k, v); }
        auto t = make_task(go(k)); co_await t.when_ready(); Val v = co_await std::move(t); co_return got(k, v);
    }
    catch (Exc& e) { co_return got(k, e); }
}
task<int64_t> outMC(N* k) {
    MC_BEGIN(task<int64_t>, k, r = macoro::result<Val>(Err(std::exception_ptr())), v = std::unique_ptr<Val>());
    if (k->how & 1) { MC_AWAIT_SET(r, wrap(go(k))); }
    else MC_AWAIT_TRY(r, go(k));
    MC_RETURN(got_macoro(k, std::move(r)));
    MC_END();
}
task<int64_t> any_out(N* k) { return k->aux & 64 ? outMC(k) : out(k); }

// ---- children on channels
template<class CH> task<void> produce(channel_sender<CH>* tx, std::vector<N*> kids, std::atomic<int>* left, int form) {
    for (auto* k : kids) {
        int64_t o = co_await any_out(k);
        if (form & 1) { auto w = co_await tx->push(); Val& r = w; r = Val(o); } else { auto w = co_await tx->push(); w = Val(o); w.publish(); }
    }
    if (left->fetch_sub(1, std::memory_order_acq_rel) == 1) co_await tx->close();
}
template<class CH> task<void> consume(channel_receiver<CH>* rx, int64_t* sum, int want, int form) {
    int n = 0;
    for (;;) {
        bool closed = false;
        try {
            if (form & 2) { Val& f = co_await rx->front(); int64_t id = f.get(); auto w = co_await rx->pop(); RT_CHECK((*w).get() == id, "front-and-pop-disagree"); *sum += id; }
            else { auto w = co_await rx->pop(); *sum += (*w).get(); w.publish(); }
            ++n;
        } catch (channel_closed_exception&) { closed = true; }
        if (closed) break;
    }
    RT_CHECK(n == want, "message-lost-or-duplicated");
}
template<class CH, class F> task<void> through(F make_, N* n, int64_t* sum, bool multi) {
    auto p = make_((size_t)1 << (n->aux % 3));
    auto& tx = std::get<0>(p); auto& rx = std::get<1>(p);
    std::atomic<int> left{ multi ? (int)n->kids.size() : 1 };
    std::vector<task<void>> ts;
    if (n->aux & 8) ts.push_back(consume<CH>(&rx, sum, (int)n->kids.size(), n->aux));
    if (multi) for (auto* k : n->kids) ts.push_back(produce<CH>(&tx, { k }, &left, n->aux)); else ts.push_back(produce<CH>(&tx, n->kids, &left, n->aux));
    if (!(n->aux & 8)) ts.push_back(consume<CH>(&rx, sum, (int)n->kids.size(), n->aux));
    auto r = co_await when_all_ready(std::move(ts));
    for (auto& x : r) x.result();
}
// ---- synchronisation
task<void> wait_event(async_manual_reset_event* ev, int* seen, const int* pay) { co_await *ev; *seen = *pay; }
task<void> set_event(async_manual_reset_event* ev, N* n, int64_t* sum, int* pay) { for (auto* k : n->kids) *sum += co_await any_out(k); *pay = 5; ev->set(); }
task<void> count_down(barrier* b, N* k, int64_t* sum) { *sum = co_await any_out(k); b->decrement(); }
task<void> wait_barrier(barrier* b, std::vector<int64_t>* parts, int64_t* sum) { co_await *b; for (auto x : *parts) *sum += x; }
task<void> wait_stop(stop_token t, int* seen, const int* pay) { co_await t; *seen = *pay; }
task<void> ask_stop(stop_source s, N* n, int64_t* sum, int* pay) { for (auto* k : n->kids) *sum += co_await any_out(k); *pay = 6; s.request_stop(); }
task<void> join_all(std::vector<task<void>> ts) { auto r = co_await when_all_ready(std::move(ts)); for (auto& x : r) x.result(); }

when_all_scope scope_body(N* n, int64_t* sum) {
    std::vector<std::pair<N*, scoped_task<Val>>> hs; std::vector<scoped_task<int64_t>> ho;
    for (auto* k : n->kids) {
        if (k->aux & 16) hs.emplace_back(k, co_await scoped(go(k)));
        else if (k->aux & 32) ho.push_back(co_await (any_out(k) | scoped()));
        else { auto h = co_await scoped(any_out(k)); *sum += co_await std::move(h); }
    }
    for (auto& h : ho) *sum += co_await std::move(h);
    while (!hs.empty()) {
        N* k = hs.back().first; scoped_task<Val> h = std::move(hs.back().second); hs.pop_back();
        try { Val v = co_await std::move(h); *sum += got(k, v); } catch (Exc& e) { *sum += got(k, e); }
    }
}
task<int64_t> in_scope(N* n) {
    int64_t sum = 0; async_scope sc; std::vector<std::pair<N*, scoped_task<Val>>> hs; std::vector<N*> dropped; int want = 0, seen = 0;
    for (auto* k : n->kids) {
        if (k->aux & 16) { hs.emplace_back(k, sc.add(go(k))); }
        else { dropped.push_back(k); want += k->thr; sc.add(go(k)); }
    }
    if (n->aux & 1) for (auto& h : hs) { N* k = h.first; try { Val v = co_await std::move(h.second); sum += got(k, v); } catch (Exc& e) { sum += got(k, e); } }
    try { co_await sc; }
    catch (async_scope_exception& e) {
        for (auto& p : e.m_exceptions) try { std::rethrow_exception(p); } catch (Exc& x) { ++seen; bool mine = false; for (auto* k : dropped) mine |= k->id == x.id && k->thr; RT_CHECK(mine, "unknown-exception-reported"); }
    }
    RT_CHECK(seen == want, "exceptions-of-dropped-tasks-not-reported-exactly-once");
    for (auto* k : dropped) { delivered(k); RT_CHECK(k->out == k->expect(), "wrong-result"); sum += k->outcome(); }
    if (!(n->aux & 1)) for (auto& h : hs) { N* k = h.first; RT_CHECK(h.second.is_ready(), "joined-task-not-ready"); try { Val v = co_await std::move(h.second); sum += got(k, v); } catch (Exc& e) { sum += got(k, e); } }
    co_return sum;
}
task<int64_t> kids_of(N* n) {
    int64_t s = 0;
    switch (n->kind) {
    case LEAF: break;
    case SEQ: for (auto* k : n->kids) s += co_await any_out(k); break;
    case ALL:
        if (n->kids.size() == 2 && n->aux & 4) { auto r = co_await when_all_ready(go(n->kids[0]), any_out(n->kids[1])); s += got_result(n->kids[0], std::get<0>(r)); s += std::get<1>(r).result(); }
        else { std::vector<task<Val>> ts; for (auto* k : n->kids) ts.push_back(go(k)); auto r = co_await when_all_ready(std::move(ts)); for (size_t i = 0; i < r.size(); ++i) s += got_result(n->kids[i], r[i]); }
        break;
    case SCOPE: s = co_await in_scope(n); break;
    case WSCOPE: co_await scope_body(n, &s); break;
    case CHAN: { using CH = spsc::channel<Val>; co_await through<CH>([](size_t c) { return spsc::make_channel<Val>(c); }, n, &s, false); break; }
    case MCHAN: { using CH = mpsc::channel<Val>; co_await through<CH>([](size_t c) { return mpsc::make_channel<Val>(c); }, n, &s, true); break; }
    case EVENT: {
        async_manual_reset_event ev; int pay = 0, a = 0, b = 0; std::vector<task<void>> ts;
        ts.push_back(wait_event(&ev, &a, &pay)); ts.push_back(set_event(&ev, n, &s, &pay)); ts.push_back(wait_event(&ev, &b, &pay));
        co_await join_all(std::move(ts)); RT_CHECK(a == 5 && b == 5, "writes-before-set-not-visible"); break; }
    case BARRIER: {
        barrier b((ptrdiff_t)n->kids.size()); std::vector<int64_t> parts(n->kids.size()); std::vector<task<void>> ts;
        if (n->aux & 1) ts.push_back(wait_barrier(&b, &parts, &s));
        for (size_t i = 0; i < parts.size(); ++i) ts.push_back(count_down(&b, n->kids[i], &parts[i]));
        if (!(n->aux & 1)) ts.push_back(wait_barrier(&b, &parts, &s));
        co_await join_all(std::move(ts)); break; }
    case TAKE: {
        N* k = n->kids[0];
        if (n->aux & 128) { try { Val v = co_await take_until(go(k), timeout(pool(n), delay(n))); s = got(k, v); } catch (Exc& e) { s = got(k, e); } break; }
        if (n->aux & 1) { auto to = timeout(pool(n), delay(n) * 10); s = co_await take_until(any_out(n->kids[0]), std::move(to)); }
        else { stop_source src; auto to = timeout(pool(n), std::chrono::hours(1), src.get_token()); if (n->aux & 2) src.request_stop(); s = co_await take_until(any_out(n->kids[0]), std::move(to)); }
        break; }
    case STOP: {
        stop_source src; int pay = 0, a = 0, b = 0; std::vector<task<void>> ts; bool cb = false;
        stop_callback c(src.get_token(), [&] { cb = true; });
        ts.push_back(wait_stop(src.get_token(), &a, &pay)); ts.push_back(ask_stop(src, n, &s, &pay)); ts.push_back(wait_stop(src.get_token(), &b, &pay));
        co_await join_all(std::move(ts)); RT_CHECK(a == 6 && b == 6 && src.stop_requested(), "writes-before-the-request-not-visible"); RT_CHECK(cb, "callback-registered-when-stop-was-requested-never-ran"); break; }
    case EAGER: {
        std::vector<eager_task<int64_t>> es;
        for (auto* k : n->kids) { if (k->aux & 1) es.push_back(start_on(pool(k, 2), any_out(k))); else if (k->aux & 2) es.push_back(any_out(k) | start_on(n->w->in)); else es.push_back(make_eager(any_out(k))); }
        while (!es.empty()) { eager_task<int64_t> e = std::move(es.back()); es.pop_back(); s += co_await std::move(e); }
        break; }
    default: break;
    }
    co_return s;
}
struct End { N* n; ~End() { rt_add(S(n->id, 1), 1); } };
task<Val> run(N* n) {
    RT_CHECK(rt_add(S(n->id, 0), 1) == 1, "body-started-twice");
    Guard g(S(n->id, 2)); End e{ n };
    if (n->hop == 1) co_await pool(n).schedule();
    else if (n->hop == 2) co_await transfer_to(pool(n, 1));
    else if (n->hop == 3) co_await n->gate;
    else if (n->hop == 4) co_await pool(n).schedule_after(delay(n));
    else if (n->hop == 5) co_await pool(n, 2).post();
    int64_t s = n->id + co_await kids_of(n);
    if (n->hop == 6) co_await n->gate;
    else if (n->hop == 7) co_await pool(n, 4).schedule();
    n->data = n->id; n->out = s;
    if (n->thr) throw Exc(n->id);
    co_return Val(s);
}
task<Val> runMC(N* n) {
    MC_BEGIN(task<Val>, n, g = Guard(S(n->id, 2)), e = std::unique_ptr<End>(), s = int64_t(0));
    RT_CHECK(rt_add(S(n->id, 0), 1) == 1, "body-started-twice");
    e.reset(new End{ n });
    if (n->hop == 1) { MC_AWAIT(pool(n).schedule()); }
    else if (n->hop == 2) { MC_AWAIT(transfer_to(pool(n, 1))); }
    else if (n->hop == 3) { MC_AWAIT(n->gate); }
    else if (n->hop == 4) { MC_AWAIT(pool(n).schedule_after(delay(n))); }
    else if (n->hop == 5) { MC_AWAIT(pool(n, 2).post()); }
    MC_AWAIT_SET(s, kids_of(n));
    s += n->id;
    if (n->hop == 6) { MC_AWAIT(n->gate); }
    else if (n->hop == 7) { MC_AWAIT(pool(n, 4).schedule()); }
    n->data = n->id; n->out = s;
    e.reset();
    if (n->thr) throw Exc(n->id);
    MC_RETURN(Val(s));
    MC_END();
}
Drv drive(N* n, std::atomic<int>* done, int64_t* o) { *o = co_await any_out(n); done->store(1, std::memory_order_release); done->notify_all(); }

void program(int depth, int budget, int roots) {
    W w(1 + (int)rt_rand(2)); w.budget = budget;
    std::vector<N*> rs; for (int i = 0; i < roots; ++i) { w.budget = budget / roots; rs.push_back(make(w, depth)); }
    std::string d; for (auto& n : w.nodes) { char b[64]; snprintf(b, sizeof b, " %d:%s%s%s/%d", n.id, kind_name[n.kind], n.thr ? "!" : "", n.mc ? "m" : "", n.hop); d += b; if (d.size() > 400) break; }
    int form = (int)rt_rand(3); bool early = coin();
    rt_desc("form=%d%s", form, d.c_str());
    {
        thread_pool::work wa, wb; thread_pool a(1 + rt_rand(2), wa), b(1, wb); w.pool[0] = &a; w.pool[1] = &b;
        std::vector<int64_t> o((size_t)roots, -1);
        if (early) w.workers.start();
        auto one = [&](int i) {
            if (form == 0) { if (!early && i == 0) w.workers.start(); o[i] = sync_wait(any_out(rs[i])); }
            else if (form == 1) { auto bl = make_blocking(any_out(rs[i])); if (!early && i == 0) w.workers.start(); o[i] = bl.get(); }
            else { std::atomic<int> done{ 0 }; drive(rs[i], &done, &o[i]); if (!early && i == 0) w.workers.start(); done.wait(0, std::memory_order_acquire); }
        };
        std::thread second; if (roots > 1) { if (!early) { w.workers.start(); early = true; } second = std::thread([&] { one(1); }); }
        one(0);
        if (second.joinable()) second.join();
        for (int i = 0; i < roots; ++i) RT_CHECK(o[i] == rs[i]->outcome(), "wrong-result");
        w.workers.join();
        wa.reset(); wb.reset(); a.join(); b.join();
    }
    for (auto& n : w.nodes) {
        RT_CHECK(rt_get(S(n.id, 0)) == 1 && rt_get(S(n.id, 1)) == 1, "body-not-run-exactly-once");
        RT_CHECK(rt_get(S(n.id, 2)) == 0, "frame-not-destroyed-exactly-once");
        RT_CHECK(rt_get(S(n.id, 3)) == 1, "outcome-never-delivered");
    }
    rt_count("nodes", w.nodes.size());
}
}
RT_CASE_W(C24, mix_small, 2) { program(2, 4, 1); }
RT_CASE_W(C24, mix_tree, 1) { program(3, 10, 1); }
RT_CASE_W(C24, mix_two_roots, 1) { program(2, 10, 2); }
