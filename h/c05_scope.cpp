// C05: async_scope / scoped_task.
#include "hx.h"
#include <sstream>
#include "macoro/async_scope.h"
#include "macoro/sync_wait.h"
using namespace macoro;

namespace {
enum { STARTED = 20, DONE = 21, JOINED = 22, BODYG = 23, AWAITED = 24, TOTAL = 25 };
enum Fate { drop_now, keep, await_in_joiner, await_in_driver, drop_on_thread, move_then_drop };
struct XExc : Exc, std::exception { std::string m; explicit XExc(int i) : Exc(i), m("<exc " + std::to_string(i) + ">") {} const char* what() const noexcept override { return m.c_str(); } };
[[noreturn]] void boom(int i) { if (i % 3) throw XExc(i); throw Exc(i); }
struct Node { int ng; bool thr; int fate; int kind; bool shown; int data; GateRef g, g2; };
struct Cx { std::unique_ptr<async_scope> sc; std::vector<Node> n; };

task<Val> tVal(Node* n, int i) { rt_add(STARTED, 1); Guard b(BODYG); if (n->ng > 0) co_await n->g; if (n->ng > 1) co_await n->g2; n->data = i + 1; rt_add(DONE, 1); rt_set(64 + i, 1); if (n->thr) boom(i); co_return Val(i); }
task<int&> tRef(Node* n, int i) { rt_add(STARTED, 1); Guard b(BODYG); if (n->ng > 0) co_await n->g; if (n->ng > 1) co_await n->g2; n->data = i + 1; rt_add(DONE, 1); rt_set(64 + i, 1); if (n->thr) boom(i); co_return n->data; }
task<void> tVoid(Node* n, int i) { rt_add(STARTED, 1); Guard b(BODYG); if (n->ng > 0) co_await n->g; if (n->ng > 1) co_await n->g2; n->data = i + 1; rt_add(DONE, 1); rt_set(64 + i, 1); if (n->thr) boom(i); }
task<MVal> tMVal(Node* n, int i) {
    MC_BEGIN(task<MVal>, n, i, b = std::optional<Guard>());
    rt_add(STARTED, 1); b.emplace(BODYG);
    if (n->ng > 0) MC_AWAIT(n->g);
    if (n->ng > 1) MC_AWAIT(n->g2);
    n->data = i + 1; rt_add(DONE, 1); rt_set(64 + i, 1);
    if (n->thr) boom(i);
    MC_RETURN(MVal(i));
    MC_END();
}
struct Aw {   // a plain awaitable
    Node* n; int i; Guard g{ BODYG };
    Aw(Node* n, int i) : n(n), i(i) {}
    bool await_ready() { rt_add(STARTED, 1); return n->ng == 0 || n->g.await_ready(); }
    bool await_suspend(std::coroutine_handle<> h) { return n->g.await_suspend(h); }
    bool await_suspend(coroutine_handle<> h) { return n->g.await_suspend(h); }
    Val await_resume() { n->data = i + 1; rt_add(DONE, 1); rt_set(64 + i, 1); if (n->thr) boom(i); return Val(i); }
};

template<class T> void look(T&& v, Node* n, int i) {
    if constexpr (std::is_same_v<std::decay_t<T>, int>) RT_CHECK(&v == &n->data, "result-of-another-task");
    else RT_CHECK(v.get() == i, "result-of-another-task");
}
template<class T> Drv await_driver(scoped_task<T> h, Node* n, int i) {
    bool caught = false;
    try {
        if constexpr (std::is_void_v<T>) co_await std::move(h);
        else { auto&& v = co_await std::move(h); if constexpr (std::is_reference_v<T>) look(v, n, i); }
    }
    catch (Exc& e) { caught = true; RT_CHECK(e.id == i, "exception-of-another-task"); }
    RT_CHECK(caught == n->thr, "task-outcome-wrong");
    RT_CHECK(n->data == i + 1, "writes-of-the-task-not-visible");
    rt_add(AWAITED, 1);
}
template<class T> Drv await_driver_v(scoped_task<T> h, Node* n, int i) {
    bool caught = false;
    try { T v = co_await std::move(h); look(v, n, i); }
    catch (Exc& e) { caught = true; RT_CHECK(e.id == i, "exception-of-another-task"); }
    RT_CHECK(caught == n->thr, "task-outcome-wrong");
    RT_CHECK(n->data == i + 1, "writes-of-the-task-not-visible");
    rt_add(AWAITED, 1);
}
template<class T> task<void> await_here(scoped_task<T> h, Node* n, int i) {
    bool caught = false;
    try {
        if constexpr (std::is_void_v<T>) co_await std::move(h);
        else if constexpr (std::is_reference_v<T>) { auto& v = co_await std::move(h); look(v, n, i); }
        else { T v = co_await std::move(h); look(v, n, i); }
    }
    catch (Exc& e) { caught = true; RT_CHECK(e.id == i, "exception-of-another-task"); }
    RT_CHECK(caught == n->thr, "task-outcome-wrong");
    RT_CHECK(n->data == i + 1, "writes-of-the-task-not-visible");
    rt_add(AWAITED, 1);
}
// a handle without a task says so when it is awaited
template<class T> Drv await_empty(scoped_task<T> h) {
    bool caught = false;
    try { co_await std::move(h); } catch (broken_promise&) { caught = true; }
    RT_CHECK(caught, "empty-scoped-task-awaited-without-broken_promise"); rt_count("empty-awaits", 1);
}
// type-erased kept handle
struct Kept { virtual ~Kept() {} virtual task<void> go() = 0; virtual bool ready() = 0; };
template<class T> struct KeptT : Kept { scoped_task<T> h; Node* n; int i; KeptT(scoped_task<T>&& h, Node* n, int i) : h(std::move(h)), n(n), i(i) {} task<void> go() override { return await_here<T>(std::move(h), n, i); } bool ready() override { return h.is_ready(); } };

template<class T> void dispose(scoped_task<T> h, Node* n, int i, std::vector<std::unique_ptr<Kept>>& kept, std::vector<std::unique_ptr<Kept>>& toAwait, std::vector<std::unique_ptr<Kept>>& toThread) {
    if (one_in(4)) self_move(h);
    if (h.is_ready()) RT_CHECK(rt_get(64 + i) == 1, "scoped-task-ready-before-it-completed");
    if (n->ng == 0) RT_CHECK(h.is_ready(), "completed-scoped-task-not-ready");
    switch (n->fate) {
    case drop_now: break;
    case keep: kept.emplace_back(new KeptT<T>(std::move(h), n, i)); break;
    case await_in_joiner: toAwait.emplace_back(new KeptT<T>(std::move(h), n, i)); break;
    case await_in_driver: if constexpr (std::is_void_v<T> || std::is_reference_v<T>) await_driver<T>(std::move(h), n, i); else await_driver_v<T>(std::move(h), n, i); break;
    case drop_on_thread: toThread.emplace_back(new KeptT<T>(std::move(h), n, i)); break;
    case move_then_drop: {
        scoped_task<T> a(std::move(h)); RT_CHECK(!h.is_ready(), "empty-scoped-task-is-ready"); if (one_in(3)) await_empty<T>(coin() ? std::move(h) : scoped_task<T>());
        if (coin()) { a = scoped_task<T>(); rt_count("dropped-by-assignment", 1); break; }
        scoped_task<T> b; b = std::move(a); scoped_task<T> c(std::move(b)); break; }
    }
}
void collect(async_scope_exception& e, std::vector<int>& seen) {
    RT_CHECK(e.m_exceptions.size() > 0, "join-threw-without-exceptions");
    const std::exception& se = e; std::string w = se.what(); RT_CHECK(w == se.what(), "message-changes");
    if (coin()) { async_scope_exception copy(e); RT_CHECK(w == static_cast<std::exception&>(copy).what(), "message-changes"); }
    for (auto& p : e.m_exceptions) {
        try { std::rethrow_exception(p); } catch (std::exception& x) { RT_CHECK(w.find(x.what()) != w.npos, "message-of-a-task-missing"); rt_count("messages", 1); } catch (...) {}
        try { std::rethrow_exception(p); }
        catch (Exc& x) { RT_CHECK(x.id >= 0 && x.id < (int)seen.size(), "unknown-exception-reported"); ++seen[x.id]; }
    }
}
struct Ex {
    std::vector<std::unique_ptr<Kept>> kept, toAwait, toThread; std::vector<int> seen;
    std::atomic<bool> threadDone{ false };
};
void add_one(Cx& c, Ex& x, int i) {
    Node* n = &c.n[i];
    int before = (int)rt_get(STARTED);
    switch (n->kind) {
    case 0: { auto h = c.sc->add(tVal(n, i)); RT_CHECK(rt_get(STARTED) == before + 1, "task-not-started-by-add"); dispose<Val>(std::move(h), n, i, x.kept, x.toAwait, x.toThread); break; }
    case 1: { auto h = c.sc->add(tRef(n, i)); RT_CHECK(rt_get(STARTED) == before + 1, "task-not-started-by-add"); dispose<int&>(std::move(h), n, i, x.kept, x.toAwait, x.toThread); break; }
    case 2: { auto h = c.sc->add(tVoid(n, i)); RT_CHECK(rt_get(STARTED) == before + 1, "task-not-started-by-add"); dispose<void>(std::move(h), n, i, x.kept, x.toAwait, x.toThread); break; }
    case 3: { auto h = c.sc->add(tMVal(n, i)); RT_CHECK(rt_get(STARTED) == before + 1, "task-not-started-by-add"); dispose<MVal>(std::move(h), n, i, x.kept, x.toAwait, x.toThread); break; }
    case 4: { auto h = c.sc->add(Aw(n, i)); RT_CHECK(rt_get(STARTED) == before + 1, "task-not-started-by-add"); dispose<Val>(std::move(h), n, i, x.kept, x.toAwait, x.toThread); break; }
    }
}
// which exceptions a join has to report: all of handles dropped before it
void check_seen(Cx& c, Ex& x, bool final_) {
    for (int i = 0; i < (int)c.n.size(); ++i) {
        auto& n = c.n[i];
        bool dropped = n.fate == drop_now || n.fate == move_then_drop;
        int want = n.thr && dropped ? 1 : 0;
        if (n.thr && final_ && (n.fate == keep || n.fate == drop_on_thread)) want = 1;
        if (!final_ && n.fate == drop_on_thread && n.thr) { RT_CHECK(x.seen[i] <= 1, "exception-reported-twice"); continue; }
        if (x.seen[i] > want) rt_fail(want ? "exception-reported-twice" : "exception-reported-that-should-not-be", "join of async_scope");
        if (x.seen[i] < want) rt_fail("exception-of-dropped-task-lost", "async_scope join did not report it");
    }
}
task<void> join_once(Cx& c, Ex& x, int form) {
    try { if (form) co_await c.sc->join(); else co_await *c.sc; }
    catch (async_scope_exception& e) { collect(e, x.seen); }
}
Drv joiner(Cx& c, Ex& x, int n, int form, bool twice, bool destroy) {
    for (auto& k : x.toAwait) co_await k->go();
    try { if (form) co_await c.sc->join(); else co_await *c.sc; }
    catch (async_scope_exception& e) { collect(e, x.seen); }
    RT_CHECK(rt_add(JOINED, 1) == 1, "joiner-resumed-twice");
    RT_CHECK(rt_get(DONE) == rt_get(TOTAL) && rt_get(STARTED) == rt_get(TOTAL), "joined-before-all-tasks-completed");
    for (int i = 0; i < n; ++i) RT_CHECK(c.n[i].data == i + 1, "writes-of-the-task-not-visible");
    for (auto& k : x.kept) RT_CHECK(k->ready(), "joined-task-not-ready");
    check_seen(c, x, false);
    if (twice) {
        for (auto& k : x.kept) k.reset();
        while (!x.threadDone.load(std::memory_order_acquire)) std::this_thread::yield();
        co_await join_once(c, x, form);
        check_seen(c, x, true);
    }
    else { while (!x.threadDone.load(std::memory_order_acquire)) std::this_thread::yield(); for (auto& k : x.kept) k.reset(); }
    if (destroy) c.sc.reset();
    rt_add(JOINED, 1);
}
}

RT_CASE_W(C05, scope_ledger, 4) {
    int n = 1 + (int)rt_rand(4); Cx c; Ex x; c.sc = std::make_unique<async_scope>(); x.seen.assign(n, 0);
    Workers w(1 + (int)rt_rand(2)); c.n.resize(n);
    std::string d;
    for (auto& a : c.n) {
        a.ng = (int)rt_rand(3); a.thr = one_in(3); a.kind = (int)rt_rand(5); a.fate = (int)rt_rand(6); a.shown = false; a.data = 0; a.g.g = w.gate(); a.g2.g = w.gate();
        char b[64]; snprintf(b, sizeof b, " (k%d g%d f%d%s)", a.kind, a.ng, a.fate, a.thr ? " throws" : ""); d += b;
    }
    int form = (int)rt_rand(2); bool twice = coin(), destroy = coin(), inthread = one_in(3), early = coin(), joinsync = one_in(4);
    rt_desc("form=%d twice=%d destroy=%d thread=%d early=%d sync=%d workers=%d%s", form, twice, destroy, inthread, early, joinsync, (int)w.q.size(), d.c_str());
    rt_set(TOTAL, n);
    if (early) w.start();
    for (int i = 0; i < n; ++i) add_one(c, x, i);
    std::thread dropper([&] { for (auto& k : x.toThread) k.reset(); x.threadDone.store(true, std::memory_order_release); });
    std::thread jt;
    if (joinsync) {
        if (!early) w.start();
        for (auto& k : x.toAwait) sync_wait(k->go());
        try { sync_wait(*c.sc); } catch (async_scope_exception& e) { collect(e, x.seen); }
        RT_CHECK(rt_get(DONE) == n, "joined-before-all-tasks-completed");
        for (int i = 0; i < n; ++i) RT_CHECK(c.n[i].data == i + 1, "writes-of-the-task-not-visible");
        check_seen(c, x, false);
        dropper.join(); x.kept.clear();
        if (twice) { sync_wait(join_once(c, x, form)); check_seen(c, x, true); }
        rt_set(JOINED, 2);
    }
    else if (inthread) jt = std::thread([&] { joiner(c, x, n, form, twice, destroy); });
    else joiner(c, x, n, form, twice, destroy);
    if (w.th.empty()) w.start();
    w.join(); if (dropper.joinable()) dropper.join(); if (jt.joinable()) jt.join();
    RT_CHECK(rt_get(JOINED) == 2, "joiner-never-resumed");
    int aw = 0; for (auto& a : c.n) aw += a.fate == await_in_driver || a.fate == await_in_joiner;
    RT_CHECK(rt_get(AWAITED) == aw, "awaiter-of-a-handle-never-resumed");
    x.kept.clear(); x.toAwait.clear(); x.toThread.clear(); c.sc.reset();
    RT_CHECK(rt_get(BODYG) == 0, "task-frame-not-destroyed-exactly-once");
    rt_count("scoped-tasks", n); rt_count("joins", 1);
}

// tasks that add more tasks to the scope while they run
namespace {
task<void> spawner(async_scope* sc, Workers* w, std::vector<GateRef>* g, int lo, int hi) {
    Guard b(BODYG); rt_add(STARTED, 1);
    if (lo < (int)g->size() && coin()) co_await (*g)[lo];
    int kids = hi - lo - 1;
    if (kids > 0) {
        int mid = lo + 1 + kids / 2;
        if (mid > lo + 1) sc->add(spawner(sc, w, g, lo + 1, mid));
        auto h = sc->add(spawner(sc, w, g, mid, hi));
        if (coin()) co_await std::move(h);
    }
    rt_add(DONE, 1);
    if (one_in(4)) { rt_add(26, 1); }
}
Drv join_tree(async_scope* sc, int n) { co_await *sc; RT_CHECK(rt_get(STARTED) == n && rt_get(DONE) == n, "joined-before-all-tasks-completed"); RT_CHECK(rt_add(JOINED, 1) == 1, "joiner-resumed-twice"); }
}
RT_CASE_W(C05, scope_spawning, 2) {
    int n = 2 + (int)rt_rand(5); rt_desc("tasks=%d", n);
    async_scope sc; Workers w(1 + (int)rt_rand(2)); std::vector<GateRef> g(n); for (auto& x : g) x.g = w.gate();
    if (coin()) w.start();
    sc.add(spawner(&sc, &w, &g, 0, n));
    join_tree(&sc, n);
    if (w.th.empty()) w.start();
    w.join();
    RT_CHECK(rt_get(JOINED) == 1, "joiner-never-resumed");
    RT_CHECK(rt_get(BODYG) == 0, "task-frame-not-destroyed-exactly-once");
    rt_count("spawn-trees", 1);
}

// the scope and a kept handle are locals of the joining coroutine, which ends at once
namespace {
Drv local_scope(Node* n, int k, int form) {
    {
        async_scope sc;
        if (form == 0) { auto h = sc.add(tVal(n, 0)); if (k > 1) sc.add(tVoid(n + 1, 1)); co_await sc; }
        else if (form == 1) { auto h = sc.add(tVal(n, 0)); scoped_task<void> h2; if (k > 1) h2 = sc.add(tVoid(n + 1, 1)); co_await sc; Val v = co_await std::move(h); RT_CHECK(v.get() == 0, "result-of-another-task"); }
        else { auto lv = tVal(n, 0); auto h = sc.add(std::move(lv)); if (k > 1) sc.add(tVoid(n + 1, 1)); co_await sc.join(); RT_CHECK(h.is_ready(), "joined-task-not-ready"); }
    }
    RT_CHECK(rt_get(DONE) == k, "joined-before-all-tasks-completed");
    RT_CHECK(rt_get(BODYG) == 0, "task-frame-not-destroyed-exactly-once");
    RT_CHECK(rt_add(JOINED, 1) == 1, "joiner-resumed-twice");
}
}
RT_CASE_W(C05, scope_local, 2) {
    int k = 1 + (int)rt_rand(2), form = (int)rt_rand(3); Workers w(1 + (int)rt_rand(2));
    Node n[2]; for (auto& a : n) { a.ng = (int)rt_rand(3); a.thr = false; a.data = 0; a.g.g = w.gate(); a.g2.g = w.gate(); }
    rt_desc("tasks=%d form=%d gates=%d%d", k, form, n[0].ng, n[1].ng);
    if (coin()) w.start();
    local_scope(n, k, form);
    if (w.th.empty()) w.start();
    w.join();
    RT_CHECK(rt_get(JOINED) == 1, "joiner-never-resumed");
    rt_count("local-scopes", 1);
}

// waves: the same scope is joined several times, tasks of each wave finish on other threads
RT_CASE(C05, scope_reuse) {
    int waves = 2 + (int)rt_rand(2), per = 1 + (int)rt_rand(2); Workers w(1 + (int)rt_rand(2));
    std::vector<Node> n(waves * per); for (auto& a : n) { a.ng = (int)rt_rand(3); a.thr = one_in(3); a.data = 0; a.g.g = w.gate(); a.g2.g = w.gate(); }
    rt_desc("waves=%d per=%d", waves, per);
    async_scope sc;
    struct L { static Drv go(async_scope& sc, std::vector<Node>& n, int waves, int per) {
        int k = 0;
        for (int v = 0; v < waves; ++v) {
            std::vector<int> seen(n.size(), 0);
            for (int j = 0; j < per; ++j, ++k) sc.add(tVoid(&n[k], k));
            try { co_await sc; } catch (async_scope_exception& e) { collect(e, seen); }
            RT_CHECK(rt_get(DONE) == k, "joined-before-all-tasks-completed");
            for (int j = 0; j < (int)n.size(); ++j) {
                int want = j >= k - per && j < k && n[j].thr;
                if (seen[j] < want) rt_fail("exception-of-dropped-task-lost", "async_scope join did not report it");
                RT_CHECK(seen[j] == want, "exception-reported-twice");
            }
        }
        RT_CHECK(rt_add(JOINED, 1) == 1, "joiner-resumed-twice");
    } };
    if (coin()) w.start();
    L::go(sc, n, waves, per);
    if (w.th.empty()) w.start();
    w.join();
    RT_CHECK(rt_get(JOINED) == 1, "joiner-never-resumed");
    RT_CHECK(rt_get(BODYG) == 0, "task-frame-not-destroyed-exactly-once");
    rt_count("waves", waves);
}

// what the scope awaits yields its value, and then the destructor of its awaiter throws
namespace {
struct LateAw {
    bool thr, armed; Gate* g; Guard gd;
    LateAw(bool t, Gate* gt, bool a = false) : thr(t), armed(a), g(gt) {}
    LateAw(const LateAw& o) : thr(o.thr), armed(false), g(o.g) {}
    ~LateAw() noexcept(false) { if (armed && thr) throw Exc(7); }
    bool await_ready() { return g->await_ready(); }
    bool await_suspend(std::coroutine_handle<> h) { return g->try_wait(h.address()); }
    Val await_resume() { return Val(9); }
};
struct Late { bool thr; Gate* g; LateAw operator co_await() && { return { thr, g, true }; } };
Drv late(async_scope& sc, Gate* g, bool thr, bool keep) {
    bool caught = false;
    if (keep) {
        auto t = sc.add(Late{ thr, g });
        try { Val v = co_await std::move(t); RT_CHECK(v.get() == 9, "wrong-result"); } catch (Exc& e) { caught = e.id == 7; }
        co_await sc;
    } else {
        (void)sc.add(Late{ thr, g });
        try { co_await sc; } catch (async_scope_exception& e) { caught = e.m_exceptions.size() == 1; }
    }
    RT_CHECK(caught == thr, "wrong-kind-of-outcome"); rt_add(60, 1);
}
}
RT_CASE(C05, scope_throws_after_returning) {
    Workers w(1); bool thr = !one_in(4), keep = coin(); rt_desc("throws=%d kept=%d", thr, keep);
    { async_scope sc; Gate* g = w.gate(); if (coin()) w.start(); late(sc, g, thr, keep); if (w.th.empty()) w.start(); w.join(); }
    RT_CHECK(rt_get(60) == 1, "joiner-never-resumed");
    rt_count("throws-after-returning", 1);
}
