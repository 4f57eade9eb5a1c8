// C06: when_all_scope.
#include "hx.h"
#include <sstream>
#include "macoro/when_all_scope.h"
#include "macoro/sync_wait.h"
using namespace macoro;

namespace {
enum { STARTED = 20, DONE = 21, RESUMED = 22, BODYG = 23, BODYDONE = 24, TOTAL = 25, SCOPEBODY = 26 };
struct Node { int ng; bool thr; int fate; int kind; int data; GateRef g, g2; };
struct Kx { std::vector<scoped_task<Val>> kept; };

task<Val> tVal(Node* n, int i) { rt_add(STARTED, 1); Guard b(BODYG); if (n->ng > 0) co_await n->g; if (n->ng > 1) co_await n->g2; n->data = i + 1; rt_add(DONE, 1); if (n->thr) throw Exc(i); co_return Val(i); }
task<int&> tRef(Node* n, int i) { rt_add(STARTED, 1); Guard b(BODYG); if (n->ng > 0) co_await n->g; if (n->ng > 1) co_await n->g2; n->data = i + 1; rt_add(DONE, 1); if (n->thr) throw Exc(i); co_return n->data; }
task<void> tVoid(Node* n, int i) { rt_add(STARTED, 1); Guard b(BODYG); if (n->ng > 0) co_await n->g; if (n->ng > 1) co_await n->g2; n->data = i + 1; rt_add(DONE, 1); if (n->thr) throw Exc(i); }

template<class F> void guard_await(F&& f, bool thr, int i) {
    bool caught = false;
    try { f(); } catch (Exc& e) { caught = true; RT_CHECK(e.id == i, "exception-of-another-task"); }
    RT_CHECK(caught == thr, "task-outcome-wrong");
}
// one body for all shapes; kept handles live in locals of the body, or outside it
when_all_scope body(std::vector<Node>* ns, int bodyGate, GateRef bg, bool bodyThrows, std::vector<scoped_task<Val>>* outside) {
    rt_add(SCOPEBODY, 1);
    Guard g(BODYG);
    std::vector<std::pair<int, scoped_task<Val>>> mine; std::vector<std::pair<int, scoped_task<int&>>> mineR;
    for (int i = 0; i < (int)ns->size(); ++i) {
        Node* n = &(*ns)[i];
        if (bodyGate == i) co_await bg;
        int before = (int)rt_get(STARTED);
        if (n->kind == 0) {
            scoped_task<Val> h;
            if (coin()) h = co_await scoped(tVal(n, i)); else h = co_await(tVal(n, i) | scoped());
            RT_CHECK(rt_get(STARTED) == before + 1, "scoped-task-not-started-at-once");
            if (n->fate == 0) {}                                 // drop
            else if (n->fate == 1) {                             // await now
                bool caught = false;
                try { Val v = co_await std::move(h); RT_CHECK(v.get() == i, "result-of-another-task"); } catch (Exc& e) { caught = true; RT_CHECK(e.id == i, "exception-of-another-task"); }
                RT_CHECK(caught == n->thr, "task-outcome-wrong"); RT_CHECK(n->data == i + 1, "writes-of-the-task-not-visible");
            }
            else if (n->fate == 2) mine.emplace_back(i, std::move(h));
            else outside->push_back(std::move(h));
        }
        else if (n->kind == 1) {
            scoped_task<int&> h = co_await scoped(tRef(n, i));
            RT_CHECK(rt_get(STARTED) == before + 1, "scoped-task-not-started-at-once");
            if (n->fate == 1) {
                bool caught = false;
                try { int& v = co_await std::move(h); RT_CHECK(&v == &n->data, "result-of-another-task"); } catch (Exc& e) { caught = true; RT_CHECK(e.id == i, "exception-of-another-task"); }
                RT_CHECK(caught == n->thr, "task-outcome-wrong"); RT_CHECK(n->data == i + 1, "writes-of-the-task-not-visible");
            }
            else if (n->fate == 2) mineR.emplace_back(i, std::move(h));
        }
        else {
            auto h = co_await scoped(tVoid(n, i));
            RT_CHECK(rt_get(STARTED) == before + 1, "scoped-task-not-started-at-once");
            if (n->fate == 1) {
                bool caught = false;
                try { co_await std::move(h); } catch (Exc& e) { caught = true; RT_CHECK(e.id == i, "exception-of-another-task"); }
                RT_CHECK(caught == n->thr, "task-outcome-wrong"); RT_CHECK(n->data == i + 1, "writes-of-the-task-not-visible");
            }
        }
    }
    if (bodyGate == (int)ns->size()) co_await bg;
    for (auto& m : mine) if (coin()) {
        Node* n = &(*ns)[m.first]; bool caught = false;
        try { Val v = co_await std::move(m.second); RT_CHECK(v.get() == m.first, "result-of-another-task"); } catch (Exc& e) { caught = true; RT_CHECK(e.id == m.first, "exception-of-another-task"); }
        RT_CHECK(caught == n->thr, "task-outcome-wrong"); RT_CHECK(n->data == m.first + 1, "writes-of-the-task-not-visible");
    }
    rt_add(BODYDONE, 1);
    if (bodyThrows) throw Exc(99);
}
void after(std::vector<Node>& ns) {
    RT_CHECK(rt_add(RESUMED, 1) == 1, "awaiter-resumed-twice");
    RT_CHECK(rt_get(BODYDONE) == 1, "resumed-before-the-body-finished");
    RT_CHECK(rt_get(DONE) == (int)ns.size() && rt_get(STARTED) == (int)ns.size(), "resumed-before-all-scoped-tasks-completed");
    for (int i = 0; i < (int)ns.size(); ++i) RT_CHECK(ns[i].data == i + 1, "writes-of-the-task-not-visible");
}
// exceptions are only compared in the case below
task<void> run_drv_(std::vector<Node>& ns, int bodyGate, GateRef bg, bool thr, int form) {
    std::vector<scoped_task<Val>> outside;
    try {
        if (form == 0) co_await body(&ns, bodyGate, bg, thr, &outside);
        else { auto s = body(&ns, bodyGate, bg, thr, &outside); RT_CHECK(rt_get(SCOPEBODY) == 0, "body-started-before-the-await"); co_await s; }
    }
    catch (async_scope_exception&) {}
    after(ns);
    rt_add(RESUMED, 1);
}
task<void> run_task(std::vector<Node>& ns, int bodyGate, GateRef bg, bool thr, int form) {
    // handles kept outside have to go before the scope does
    try {
        if (form == 0) { std::vector<scoped_task<Val>> outside; auto s = body(&ns, bodyGate, bg, thr, &outside); co_await s; outside.clear(); }
        else { auto s = body(&ns, bodyGate, bg, thr, nullptr); co_await s; }
    }
    catch (async_scope_exception&) {}
    after(ns);
    rt_add(RESUMED, 1);
}
Drv start(task<void> t) { co_await std::move(t); }
void run_drv(std::vector<Node>& ns, int bodyGate, GateRef bg, bool thr, int form) { start(run_drv_(ns, bodyGate, bg, thr, form)); }
}

RT_CASE_W(C06, scope_bodies, 4) {
    int n = (int)rt_rand(5); std::vector<Node> ns(n); Workers w(1 + (int)rt_rand(3)); std::string d;
    bool anyOut = false;
    for (auto& a : ns) {
        a.ng = (int)rt_rand(3); a.thr = one_in(4); a.kind = (int)rt_rand(3); a.fate = (int)rt_rand(3); a.data = 0; a.g.g = w.gate(); a.g2.g = w.gate();
        char b[64]; snprintf(b, sizeof b, " (k%d g%d f%d%s)", a.kind, a.ng, a.fate, a.thr ? " throws" : ""); d += b; (void)anyOut;
    }
    int bg = (int)rt_rand(n + 2); bool thr = one_in(4); int form = (int)rt_rand(2), how = (int)rt_rand(4); GateRef g{ w.gate() };
    rt_desc("tasks=%d bodyGate=%d bodyThrows=%d form=%d how=%d workers=%d%s", n, bg, thr, form, how, (int)w.q.size(), d.c_str());
    if (coin() || how == 3) w.start();
    std::thread t;
    if (how == 0) run_drv(ns, bg, g, thr, form);
    else if (how == 1) start(run_task(ns, bg, g, thr, 1));
    else if (how == 2) t = std::thread([&] { run_drv(ns, bg, g, thr, form); });
    else sync_wait(run_task(ns, bg, g, thr, 1));
    if (w.th.empty()) w.start();
    w.join(); if (t.joinable()) t.join();
    RT_CHECK(rt_get(RESUMED) == 2, "awaiter-never-resumed");
    RT_CHECK(rt_get(BODYG) == 0, "frame-not-destroyed-exactly-once");
    rt_count("scopes", 1); rt_count("scoped-tasks", n);
}

// handles that outlive the body but not the scope object
RT_CASE_W(C06, scope_kept_outside, 2) {
    int n = 1 + (int)rt_rand(3); std::vector<Node> ns(n); Workers w(1 + (int)rt_rand(2));
    for (auto& a : ns) { a.ng = (int)rt_rand(3); a.thr = one_in(4); a.kind = 0; a.fate = 3; a.data = 0; a.g.g = w.gate(); a.g2.g = w.gate(); }
    int bg = (int)rt_rand(n + 2); GateRef g{ w.gate() };
    bool aw = coin();
    rt_desc("tasks=%d bodyGate=%d await-after=%d", n, bg, aw);
    struct L { static task<void> go(std::vector<Node>& ns, int bg, GateRef g, bool aw) {
        std::vector<scoped_task<Val>> out;
        auto s = body(&ns, bg, g, false, &out);
        co_await s;
        after(ns);
        RT_CHECK(out.size() == ns.size(), "handles-lost");
        for (int i = 0; i < (int)out.size(); ++i) {
            RT_CHECK(out[i].is_ready(), "joined-task-not-ready");
            if (aw) {
                bool caught = false;
                try { Val v = co_await std::move(out[i]); RT_CHECK(v.get() == i, "result-of-another-task"); } catch (Exc& e) { caught = true; RT_CHECK(e.id == i, "exception-of-another-task"); }
                RT_CHECK(caught == ns[i].thr, "task-outcome-wrong");
            }
        }
        out.clear();
        rt_add(RESUMED, 1);
    } };
    if (coin()) w.start();
    start(L::go(ns, bg, g, aw));
    if (w.th.empty()) w.start();
    w.join();
    RT_CHECK(rt_get(RESUMED) == 2, "awaiter-never-resumed");
    RT_CHECK(rt_get(BODYG) == 0, "frame-not-destroyed-exactly-once");
    rt_count("scopes-with-kept-handles", 1);
}

// scopes inside scopes, and scopes in scoped tasks
namespace {
when_all_scope nestScope(GateRef* g, int lo, int hi);
task<void> nestTask(GateRef* g, int lo, int hi) {
    Guard b(BODYG); rt_add(STARTED, 1);
    if (coin()) co_await g[lo];
    if (hi - lo > 1) co_await nestScope(g, lo + 1, hi);
    rt_add(DONE, 1);
}
when_all_scope nestScope(GateRef* g, int lo, int hi) {
    Guard b(BODYG);
    int d0 = (int)rt_get(DONE); (void)d0;
    int mid = (lo + hi) / 2;
    if (mid > lo) co_await scoped(nestTask(g, lo, mid));
    if (coin()) { auto h = co_await scoped(nestTask(g, mid, hi)); co_await std::move(h); }
    else { auto h = co_await(nestTask(g, mid, hi) | scoped()); }
}
}
RT_CASE(C06, scope_nested) {
    int n = 1 + (int)rt_rand(6); rt_desc("tasks=%d", n); Workers w(1 + (int)rt_rand(3)); std::vector<GateRef> g(n); for (auto& x : g) x.g = w.gate();
    struct L { static task<void> go(GateRef* g, int n) { co_await nestScope(g, 0, n); RT_CHECK(rt_get(STARTED) == rt_get(DONE) && rt_get(DONE) == n, "resumed-before-all-scoped-tasks-completed"); RT_CHECK(rt_add(RESUMED, 1) == 1, "awaiter-resumed-twice"); } static Drv user(GateRef* g, int n) { co_await nestScope(g, 0, n); RT_CHECK(rt_get(STARTED) == rt_get(DONE) && rt_get(DONE) == n, "resumed-before-all-scoped-tasks-completed"); RT_CHECK(rt_add(RESUMED, 1) == 1, "awaiter-resumed-twice"); } };
    if (coin()) w.start();
    if (coin()) start(L::go(g.data(), n)); else L::user(g.data(), n);     // awaited by a coroutine type of the library or of the user
    if (w.th.empty()) w.start();
    w.join();
    RT_CHECK(rt_get(RESUMED) == 1, "awaiter-never-resumed");
    RT_CHECK(rt_get(BODYG) == 0, "frame-not-destroyed-exactly-once");
    rt_count("nested-scopes", 1);
}

// a scope that is created but never awaited
RT_CASE(C06, scope_never_awaited) {
    std::vector<Node> ns; Gate g; std::vector<scoped_task<Val>> out; bool mv = coin();
    rt_desc("move=%d", mv);
    { auto s = body(&ns, 0, GateRef{ &g }, false, &out); if (mv) { auto s2 = std::move(s); } }
    RT_CHECK(rt_get(SCOPEBODY) == 0, "body-started-before-the-await");
    rt_count("unawaited-scopes", 1);
}

// exceptions of the body and of dropped tasks: documented to be rethrown in an async_scope_exception
RT_CASE(C06, scope_reports_exceptions) {
    Workers w(1); std::vector<Node> ns(1); auto& a = ns[0]; a.ng = (int)rt_rand(2); a.thr = coin(); a.kind = 0; a.fate = 0; a.data = 0; a.g.g = w.gate(); a.g2.g = w.gate();
    bool thr = !a.thr || coin();
    rt_desc("body-throws=%d dropped-task-throws=%d gates=%d", thr, a.thr, a.ng);
    struct L { static task<void> go(std::vector<Node>& ns, bool thr, GateRef g) {
        size_t got = 0;
        try { co_await body(&ns, -1, g, thr, nullptr); } catch (async_scope_exception& e) { got = e.m_exceptions.size(); }
        after(ns);
        rt_add(RESUMED, 1);
        if (got < (size_t)thr + ns[0].thr) rt_fail("exception-of-when_all_scope-lost", "the await of the scope did not report it");
        RT_CHECK(got == (size_t)thr + ns[0].thr, "exception-of-when_all_scope-reported-twice");
    } };
    if (coin()) w.start();
    start(L::go(ns, thr, a.g));
    if (w.th.empty()) w.start();
    w.join();
    RT_CHECK(rt_get(RESUMED) == 2, "awaiter-never-resumed");
    rt_count("exceptions-of-scopes", 1);
}
