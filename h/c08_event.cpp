// C08: async_manual_reset_event.
#include "hx.h"
#include "macoro/manual_reset_event.h"
#include "macoro/sync_wait.h"
#include "macoro/when_all.h"
using namespace macoro;

namespace {
enum { STARTED = 20, RESUMED = 21, BEGUN = 22, LATE = 23, PER = 30 };   // PER+i: resumptions of waiter i
struct Once {
    std::unique_ptr<async_manual_reset_event> e; int data = 0; std::atomic<int> left{ 0 }; bool destroy = false, initially = false;
};
void arrived(Once* c, int i) {
    RT_CHECK(rt_add(PER + i, 1) == 1, "waiter-resumed-twice");
    if (!c->initially) {
        RT_CHECK(rt_get(STARTED) > 0, "resumed-before-any-set");
        RT_CHECK(c->data == 7, "writes-before-set-not-visible");
    }
    rt_add(RESUMED, 1);
    if (c->left.fetch_sub(1, std::memory_order_acq_rel) == 1 && c->destroy) c->e.reset();
}
Drv wait20(Once* c, int i) { rt_add(BEGUN, 1); co_await *c->e; arrived(c, i); }
task<void> waitMC_(Once* c, int i) {
    MC_BEGIN(task<void>, c, i);
    rt_add(BEGUN, 1);
    MC_AWAIT(*c->e);
    arrived(c, i);
    MC_END();
}
Drv waitMC(Once* c, int i) { co_await waitMC_(c, i); }
task<void> wait_task(Once* c, int i) { co_await *c->e; arrived(c, i); }
}

// n waiters on several threads, one set (data before it), the last waiter may destroy the event
RT_CASE_W(C08, event_set_once, 3) {
    int n = 1 + (int)rt_rand(4), extra = (int)rt_rand(2), poll = (int)rt_rand(2);
    Once c; c.initially = one_in(8); c.destroy = !c.initially && extra == 0 && poll == 0 && coin();
    c.left = n; c.e = std::make_unique<async_manual_reset_event>(c.initially);
    async_manual_reset_event* e = c.e.get();
    std::vector<int> kind(n), where(n);
    for (int i = 0; i < n; ++i) { kind[i] = (int)rt_rand(3); where[i] = (int)rt_rand(3); }
    rt_desc("waiters=%d destroy=%d initially=%d poll=%d secondset=%d k0=%d w0=%d", n, c.destroy, c.initially, poll, extra, kind[0], where[0]);
    auto go = [&](int i) {
        if (kind[i] == 0) wait20(&c, i);
        else if (kind[i] == 1) waitMC(&c, i);
        else sync_wait(wait_task(&c, i));
    };
    for (int i = 0; i < n; ++i) if (where[i] == 0 && kind[i] != 2) go(i);
    std::vector<std::thread> th;
    for (int i = 0; i < n; ++i) if (where[i] == 1 || kind[i] == 2) th.emplace_back([&, i] { go(i); });
    th.emplace_back([&, e] {
        c.data = 7; rt_add(STARTED, 1); e->set();
        if (extra) { RT_CHECK(e->is_set(), "is_set-false-after-set"); e->set(); }
    });
    if (poll) th.emplace_back([&, e] {
        for (int k = 0; k < 3; ++k) if (e->is_set() && !c.initially) { RT_CHECK(rt_get(STARTED) > 0, "is_set-before-any-set"); RT_CHECK(c.data == 7, "writes-before-set-not-visible"); rt_count("is_set-true", 1); break; }
    });
    for (int i = 0; i < n; ++i) if (where[i] == 2 && kind[i] != 2) go(i);
    for (auto& t : th) t.join();
    RT_CHECK(rt_get(RESUMED) == n, "waiter-never-resumed");
    if (!c.destroy) RT_CHECK(c.e->is_set(), "is_set-false-after-set");
    rt_count("released", n);
}

// one controller sets and resets; waiters loop. A waiter that knows of a reset must not get
// through before the following set has begun; everything suspended before a set is
// resumed by it.
RT_CASE_W(C08, event_set_reset, 3) {
    int n = 1 + (int)rt_rand(3), rounds = 1 + (int)rt_rand(3), per = 1 + (int)rt_rand(3);
    struct X { async_manual_reset_event e; std::atomic<int> phase{ 0 }; std::vector<int> seq; int per; } x;
    x.per = per; x.seq.assign(rounds + 1, 0);
    rt_desc("waiters=%d rounds=%d awaits=%d", n, rounds, per);
    struct L { static Drv go(X* x, int i) {
        for (int k = 0; k < x->per; ++k) {
            int p = x->phase.load(std::memory_order_acquire);   // p sets happened, then a reset completed
            co_await x->e;
            int s = (int)rt_get(STARTED);
            RT_CHECK(s > p, "resumed-although-reset-and-not-set-again");
            RT_CHECK(x->seq[p] == p + 1, "writes-before-set-not-visible");
            rt_add(PER + i, 1); rt_count("awaits", 1);
        }
    } };
    std::vector<std::thread> th;
    for (int i = 0; i < n; ++i) { if (one_in(4)) L::go(&x, i); else th.emplace_back([&x, i] { L::go(&x, i); }); }
    std::thread ctl([&] {
        for (int r = 0; r <= rounds; ++r) {
            x.seq[r] = r + 1;
            rt_add(STARTED, 1);
            x.e.set();
            RT_CHECK(x.e.is_set(), "is_set-false-after-set");
            if (r == rounds) break;
            x.e.reset();
            RT_CHECK(!x.e.is_set(), "is_set-true-after-reset");
            x.phase.store(r + 1, std::memory_order_release);
        }
    });
    ctl.join();
    for (auto& t : th) t.join();
    for (int i = 0; i < n; ++i) RT_CHECK(rt_get(PER + i) == per, "waiter-never-resumed");
}

// any thread sets, resets and awaits; at the end one set releases everything
RT_CASE_W(C08, event_chaos, 2) {
    int n = 2 + (int)rt_rand(3);
    async_manual_reset_event e(coin());
    rt_desc("threads=%d initially=%d", n, e.is_set());
    struct L { static Drv go(async_manual_reset_event* e, int i) { rt_add(BEGUN, 1); co_await *e; RT_CHECK(rt_add(PER + i, 1) == 1, "waiter-resumed-twice"); rt_add(RESUMED, 1); } };
    std::vector<std::thread> th; int id = 0;
    for (int i = 0; i < n; ++i) {
        std::vector<int> ops; int k = 1 + (int)rt_rand(4);
        for (int j = 0; j < k; ++j) ops.push_back((int)rt_rand(4));
        int base = id; id += k;
        th.emplace_back([&e, ops, base] { int w = base; for (int o : ops) { if (o == 0) e.set(); else if (o == 1) e.reset(); else L::go(&e, w++); } });
    }
    for (auto& t : th) t.join();
    bool was = e.is_set();
    if (was) RT_CHECK(rt_get(RESUMED) == rt_get(BEGUN), "waiter-left-behind-by-a-set-event");
    int64_t before = rt_get(RESUMED);
    if (!was) { L::go(&e, 30); RT_CHECK(rt_get(RESUMED) == before, "await-did-not-suspend-on-an-unset-event"); }
    e.set();
    RT_CHECK(rt_get(RESUMED) == rt_get(BEGUN), "waiter-never-resumed");
    L::go(&e, 31); RT_CHECK(rt_get(RESUMED) == rt_get(BEGUN), "await-suspended-on-a-set-event");
    rt_count("chaos", 1);
}

// one thread, random operations against a model; resumed coroutines act on the event themselves
RT_CASE(C08, event_model) {
    struct M { async_manual_reset_event e; bool set; std::vector<int> waiting; int nextid = 0; bool insideset = false; std::string log; M(bool i) : e(i), set(i) {} } m(coin());
    struct L {
        static Drv go(M* m, int id, int act) {
            bool s = m->set;
            if (!s) m->waiting.push_back(id);
            co_await m->e;
            if (s) { RT_CHECK(m->set, "model"); }
            else {
                auto it = std::find(m->waiting.begin(), m->waiting.end(), -id - 1);
                RT_CHECK(it != m->waiting.end(), "resumed-without-a-set");   // released waiters are marked by do_set
                m->waiting.erase(it);
            }
            RT_CHECK(rt_add(PER + id, 1) == 1, "waiter-resumed-twice");
            if (act == 1) { m->e.reset(); m->set = false; }
            else if (act == 2) { m->e.reset(); m->set = false; if (m->nextid < 40) { int i2 = m->nextid++; go(m, i2, 0); RT_CHECK(rt_get(PER + i2) == 0, "await-did-not-suspend-on-an-unset-event"); } }
            else if (act == 3) do_set(m);
            RT_CHECK(m->e.is_set() == m->set, "is_set-disagrees");
        }
        static void do_set(M* m) {
            std::vector<int> rel;
            if (!m->set) for (int& w : m->waiting) if (w >= 0) { rel.push_back(w); w = -w - 1; }
            m->set = true;
            m->e.set();
            for (int w : rel) RT_CHECK(rt_get(PER + w) == 1, "set-returned-before-resuming-a-waiter");
        }
    };
    int n = 3 + (int)rt_rand(10);
    rt_desc("ops=");
    for (int i = 0; i < n; ++i) {
        int o = (int)rt_rand(6), a = (int)rt_rand(4);
        if (o > 2) rt_desc("w%d", a); else rt_desc("%c", "srq"[o]);
        if (o == 0) L::do_set(&m);
        else if (o == 1) { m.e.reset(); m.set = false; }
        else if (o == 2) RT_CHECK(m.e.is_set() == m.set, "is_set-disagrees");
        else if (m.nextid < 40) L::go(&m, m.nextid++, a);
    }
    L::do_set(&m);
    while (!m.waiting.empty()) L::do_set(&m);
    for (int i = 0; i < m.nextid; ++i) RT_CHECK(rt_get(PER + i) == 1, "waiter-never-resumed");
    m.e.reset();
    rt_count("model-histories", 1);
}

// the event inside compositions: when_all of several waiters on one event
RT_CASE(C08, event_when_all) {
    int n = 2 + (int)rt_rand(3); Once c; c.left = n; c.e = std::make_unique<async_manual_reset_event>();
    rt_desc("children=%d", n);
    std::thread t([&] { c.data = 7; rt_add(STARTED, 1); c.e->set(); });
    std::vector<task<void>> v; for (int i = 0; i < n; ++i) v.push_back(wait_task(&c, i));
    auto r = sync_wait(when_all_ready(std::move(v)));
    RT_CHECK((int)r.size() == n && rt_get(RESUMED) == n, "waiter-never-resumed");
    for (auto& x : r) x.result();
    t.join();
    rt_count("when-all", 1);
}
