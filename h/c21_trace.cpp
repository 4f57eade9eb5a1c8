// C21: every get_trace in a random await tree against the chain of awaits that led to it. Frames of library files are
// not compared; frames of this file are compared line by line, so every await stands on a line of its own.
#include "hx.h"
#include "macoro/when_all.h"
#include "macoro/when_all_scope.h"
#include "macoro/async_scope.h"
#include "macoro/sync_wait.h"
#include "macoro/take_until.h"
#include "macoro/wrap.h"
#include "macoro/trace.h"
#include <cstring>
using namespace macoro;

namespace {
enum { TRACES = 20, NODES = 21 };
enum K { TRACE, GATE, DIRECT, LVALUE, WRAP, WRAPL, ALL_TUPLE, ALL_VECTOR, ALL_LVALUE, UNTIL, SCOPE, ASCOPE, TRY, NK };
struct Fr { const Fr* parent = nullptr; int line = 0; };
struct Step { int k; int a = 0, b = 0; Gate* g = nullptr; };
struct Node { int type; bool thr; std::vector<Step> s; Fr f, scope; Val v{ 1 }; };
std::deque<Node>* N;

void check_trace(const trace& t, int line, const Fr* f) {
    std::vector<unsigned> got; std::vector<unsigned> want{ (unsigned)line };
    for (auto& l : t.stack) if (!strcmp(l.file_name(), __FILE__)) got.push_back(l.line());
    for (; f; f = f->parent) want.push_back((unsigned)f->line);
    rt_add(TRACES, 1);
    if (one_in(8)) {    // the printed form: the same frames, a line each
        std::string all = trace(t).str(), exp;
        for (size_t i = 0; i < t.stack.size(); ++i) exp += std::to_string(i) + " " + t.stack[i].file_name() + ":" + std::to_string(t.stack[i].line()) + "\n";
        RT_CHECK(all == exp, "printed-trace-differs");
        rt_count("printed-traces", 1);
    }
    if (got == want) return;
    char b[300]; int n = snprintf(b, sizeof b, "lines");
    for (auto x : got) if (n < 250) n += snprintf(b + n, sizeof b - (size_t)n, " %u", x);
    n += snprintf(b + n, sizeof b - (size_t)n, " instead of"); for (auto x : want) if (n < 280) n += snprintf(b + n, sizeof b - (size_t)n, " %u", x);
    rt_fail("wrong-trace", b);
}
Fr* at(int i, const Fr* parent, int line) { auto& n = (*N)[(size_t)i]; n.f = { parent, line }; return &n.f; }
#define CH(i) (at(i, f, __LINE__), i)
#define CHS(i) (at(i, sf, __LINE__), i)
#define CHE(i) (at(i, nullptr, __LINE__), i)
task<Val> nVal(int i); task<void> nVoid(int i); task<Val&> nRef(int i); task<Val> nMC(int i);
int typ(int i) { return (*N)[(size_t)i].type; }
task<Val> asVal(int i) { return typ(i) == 3 ? nMC(i) : nVal(i); }     // only for nodes of type 0 and 3
struct Until { bool await_ready() { return true; } void await_suspend(std::coroutine_handle<>) {} void await_suspend(coroutine_handle<>) {} void await_resume() {} void request_stop() {} };
when_all_scope scope_body(int a, int b, const Fr* sf, bool join) {
    scoped_task<void> t = co_await scoped(nVoid(CHS(a)));
    scoped_task<Val> u = co_await (asVal(CHS(b)) | scoped());
    if (join) { try { co_await std::move(u); } catch (const Exc&) {} }
}
std::vector<task<void>> pair(task<void>&& a, task<void>&& b) { std::vector<task<void>> v; v.push_back(std::move(a)); v.push_back(std::move(b)); return v; }
#define RES(MV) result<MV>(Err(std::exception_ptr{}))
task<Val> nVal(int i) {
    Guard g; Node* n = &(*N)[(size_t)i]; const Fr* f = &n->f; rt_add(NODES, 1);
    for (auto& s : n->s) {
        if (s.k == TRACE) {
            auto tr = co_await get_trace{}; check_trace(tr, __LINE__, f);
        }
        if (s.k == GATE) { co_await GateRef{ s.g }; }
        if (s.k == DIRECT) {
            if (typ(s.a) == 0) { co_await nVal(CH(s.a)); }
            if (typ(s.a) == 1) { co_await nVoid(CH(s.a)); }
            if (typ(s.a) == 2) { co_await nRef(CH(s.a)); }
            if (typ(s.a) == 3) { co_await nMC(CH(s.a)); }
        }
        if (s.k == LVALUE) {
            if (typ(s.a) == 0) {
                auto c = nVal(s.a);
                at(s.a, f, __LINE__); co_await c;
            }
            if (typ(s.a) == 1) {
                auto c = nVoid(s.a);
                at(s.a, f, __LINE__); co_await c;
            }
            if (typ(s.a) == 2) {
                auto c = nRef(s.a);
                at(s.a, f, __LINE__); co_await c;
            }
            if (typ(s.a) == 3) {
                auto c = nMC(s.a);
                at(s.a, f, __LINE__); co_await c;
            }
        }
        if (s.k == WRAP) {
            if (typ(s.a) == 0) { co_await wrap(nVal(CH(s.a))); }
            if (typ(s.a) == 1) { co_await wrap(nVoid(CH(s.a))); }
            if (typ(s.a) == 2) { co_await wrap(nRef(CH(s.a))); }
            if (typ(s.a) == 3) { co_await wrap(nMC(CH(s.a))); }
        }
        if (s.k == WRAPL) {
            if (typ(s.a) == 0) { co_await (nVal(CH(s.a)) | wrap()); }
            if (typ(s.a) == 1) { co_await (nVoid(CH(s.a)) | wrap()); }
            if (typ(s.a) == 2) { co_await (nRef(CH(s.a)) | wrap()); }
            if (typ(s.a) == 3) { co_await (nMC(CH(s.a)) | wrap()); }
        }
        if (s.k == UNTIL) {
            if (typ(s.a) == 0) { co_await take_until(nVal(CH(s.a)), Until{}); }
            if (typ(s.a) == 1) { co_await take_until(nVoid(CH(s.a)), Until{}); }
            if (typ(s.a) == 2) { co_await take_until(nRef(CH(s.a)), Until{}); }
            if (typ(s.a) == 3) { co_await take_until(nMC(CH(s.a)), Until{}); }
        }
        if (s.k == ALL_TUPLE) {
            if (typ(s.a) == 0) { co_await when_all_ready(nVal(CH(s.a)), asVal(CH(s.b))); }
            if (typ(s.a) == 1) { co_await when_all_ready(nVoid(CH(s.a)), asVal(CH(s.b))); }
            if (typ(s.a) == 2) { co_await when_all_ready(nRef(CH(s.a)), asVal(CH(s.b))); }
            if (typ(s.a) == 3) { co_await when_all_ready(nMC(CH(s.a)), asVal(CH(s.b))); }
        }
        if (s.k == ALL_VECTOR) {
            co_await when_all_ready(pair(nVoid(CH(s.a)), nVoid(CH(s.b))));
        }
        if (s.k == ALL_LVALUE) {
            auto w = when_all_ready(asVal(s.a), nVoid(s.b));
            at(s.a, f, __LINE__); at(s.b, f, __LINE__); co_await w;
        }
        if (s.k == SCOPE) {
            n->scope = { f, __LINE__ }; co_await scope_body(s.a, s.b, &n->scope, s.g != nullptr);
        }
        if (s.k == ASCOPE) {
            async_scope sc; std::exception_ptr ex;
            sc.add(nVoid(CHE(s.a)));
            { auto t = sc.add(asVal(CHE(s.b))); if (s.g) { try { co_await std::move(t); } catch (const Exc&) {} } }
            try { co_await sc; } catch (const std::exception&) {}
        }
        if (s.k == TRY) {
            if (typ(s.a) == 0) try { co_await nVal(CH(s.a)); } catch (const Exc&) {}
            if (typ(s.a) == 1) try { co_await nVoid(CH(s.a)); } catch (const Exc&) {}
            if (typ(s.a) == 2) try { co_await nRef(CH(s.a)); } catch (const Exc&) {}
            if (typ(s.a) == 3) try { co_await nMC(CH(s.a)); } catch (const Exc&) {}
        }
    }
    if (n->thr) throw Exc(i);
    co_return Val(i);
}
task<void> nVoid(int i) {
    Guard g; Node* n = &(*N)[(size_t)i]; const Fr* f = &n->f; rt_add(NODES, 1);
    for (auto& s : n->s) {
        if (s.k == TRACE) {
            auto tr = co_await get_trace{}; check_trace(tr, __LINE__, f);
        }
        if (s.k == GATE) { co_await GateRef{ s.g }; }
        if (s.k == DIRECT) {
            if (typ(s.a) == 0) { co_await nVal(CH(s.a)); }
            if (typ(s.a) == 1) { co_await nVoid(CH(s.a)); }
            if (typ(s.a) == 2) { co_await nRef(CH(s.a)); }
            if (typ(s.a) == 3) { co_await nMC(CH(s.a)); }
        }
        if (s.k == LVALUE) {
            if (typ(s.a) == 0) {
                auto c = nVal(s.a);
                at(s.a, f, __LINE__); co_await c;
            }
            if (typ(s.a) == 1) {
                auto c = nVoid(s.a);
                at(s.a, f, __LINE__); co_await c;
            }
            if (typ(s.a) == 2) {
                auto c = nRef(s.a);
                at(s.a, f, __LINE__); co_await c;
            }
            if (typ(s.a) == 3) {
                auto c = nMC(s.a);
                at(s.a, f, __LINE__); co_await c;
            }
        }
        if (s.k == WRAP) {
            if (typ(s.a) == 0) { co_await wrap(nVal(CH(s.a))); }
            if (typ(s.a) == 1) { co_await wrap(nVoid(CH(s.a))); }
            if (typ(s.a) == 2) { co_await wrap(nRef(CH(s.a))); }
            if (typ(s.a) == 3) { co_await wrap(nMC(CH(s.a))); }
        }
        if (s.k == WRAPL) {
            if (typ(s.a) == 0) { co_await (nVal(CH(s.a)) | wrap()); }
            if (typ(s.a) == 1) { co_await (nVoid(CH(s.a)) | wrap()); }
            if (typ(s.a) == 2) { co_await (nRef(CH(s.a)) | wrap()); }
            if (typ(s.a) == 3) { co_await (nMC(CH(s.a)) | wrap()); }
        }
        if (s.k == UNTIL) {
            if (typ(s.a) == 0) { co_await take_until(nVal(CH(s.a)), Until{}); }
            if (typ(s.a) == 1) { co_await take_until(nVoid(CH(s.a)), Until{}); }
            if (typ(s.a) == 2) { co_await take_until(nRef(CH(s.a)), Until{}); }
            if (typ(s.a) == 3) { co_await take_until(nMC(CH(s.a)), Until{}); }
        }
        if (s.k == ALL_TUPLE) {
            if (typ(s.a) == 0) { co_await when_all_ready(nVal(CH(s.a)), asVal(CH(s.b))); }
            if (typ(s.a) == 1) { co_await when_all_ready(nVoid(CH(s.a)), asVal(CH(s.b))); }
            if (typ(s.a) == 2) { co_await when_all_ready(nRef(CH(s.a)), asVal(CH(s.b))); }
            if (typ(s.a) == 3) { co_await when_all_ready(nMC(CH(s.a)), asVal(CH(s.b))); }
        }
        if (s.k == ALL_VECTOR) {
            co_await when_all_ready(pair(nVoid(CH(s.a)), nVoid(CH(s.b))));
        }
        if (s.k == ALL_LVALUE) {
            auto w = when_all_ready(asVal(s.a), nVoid(s.b));
            at(s.a, f, __LINE__); at(s.b, f, __LINE__); co_await w;
        }
        if (s.k == SCOPE) {
            n->scope = { f, __LINE__ }; co_await scope_body(s.a, s.b, &n->scope, s.g != nullptr);
        }
        if (s.k == ASCOPE) {
            async_scope sc; std::exception_ptr ex;
            sc.add(nVoid(CHE(s.a)));
            { auto t = sc.add(asVal(CHE(s.b))); if (s.g) { try { co_await std::move(t); } catch (const Exc&) {} } }
            try { co_await sc; } catch (const std::exception&) {}
        }
        if (s.k == TRY) {
            if (typ(s.a) == 0) try { co_await nVal(CH(s.a)); } catch (const Exc&) {}
            if (typ(s.a) == 1) try { co_await nVoid(CH(s.a)); } catch (const Exc&) {}
            if (typ(s.a) == 2) try { co_await nRef(CH(s.a)); } catch (const Exc&) {}
            if (typ(s.a) == 3) try { co_await nMC(CH(s.a)); } catch (const Exc&) {}
        }
    }
    if (n->thr) throw Exc(i);
    co_return;
}
task<Val&> nRef(int i) {
    Guard g; Node* n = &(*N)[(size_t)i]; const Fr* f = &n->f; rt_add(NODES, 1);
    for (auto& s : n->s) {
        if (s.k == TRACE) {
            auto tr = co_await get_trace{}; check_trace(tr, __LINE__, f);
        }
        if (s.k == GATE) { co_await GateRef{ s.g }; }
        if (s.k == DIRECT) {
            if (typ(s.a) == 0) { co_await nVal(CH(s.a)); }
            if (typ(s.a) == 1) { co_await nVoid(CH(s.a)); }
            if (typ(s.a) == 2) { co_await nRef(CH(s.a)); }
            if (typ(s.a) == 3) { co_await nMC(CH(s.a)); }
        }
        if (s.k == LVALUE) {
            if (typ(s.a) == 0) {
                auto c = nVal(s.a);
                at(s.a, f, __LINE__); co_await c;
            }
            if (typ(s.a) == 1) {
                auto c = nVoid(s.a);
                at(s.a, f, __LINE__); co_await c;
            }
            if (typ(s.a) == 2) {
                auto c = nRef(s.a);
                at(s.a, f, __LINE__); co_await c;
            }
            if (typ(s.a) == 3) {
                auto c = nMC(s.a);
                at(s.a, f, __LINE__); co_await c;
            }
        }
        if (s.k == WRAP) {
            if (typ(s.a) == 0) { co_await wrap(nVal(CH(s.a))); }
            if (typ(s.a) == 1) { co_await wrap(nVoid(CH(s.a))); }
            if (typ(s.a) == 2) { co_await wrap(nRef(CH(s.a))); }
            if (typ(s.a) == 3) { co_await wrap(nMC(CH(s.a))); }
        }
        if (s.k == WRAPL) {
            if (typ(s.a) == 0) { co_await (nVal(CH(s.a)) | wrap()); }
            if (typ(s.a) == 1) { co_await (nVoid(CH(s.a)) | wrap()); }
            if (typ(s.a) == 2) { co_await (nRef(CH(s.a)) | wrap()); }
            if (typ(s.a) == 3) { co_await (nMC(CH(s.a)) | wrap()); }
        }
        if (s.k == UNTIL) {
            if (typ(s.a) == 0) { co_await take_until(nVal(CH(s.a)), Until{}); }
            if (typ(s.a) == 1) { co_await take_until(nVoid(CH(s.a)), Until{}); }
            if (typ(s.a) == 2) { co_await take_until(nRef(CH(s.a)), Until{}); }
            if (typ(s.a) == 3) { co_await take_until(nMC(CH(s.a)), Until{}); }
        }
        if (s.k == ALL_TUPLE) {
            if (typ(s.a) == 0) { co_await when_all_ready(nVal(CH(s.a)), asVal(CH(s.b))); }
            if (typ(s.a) == 1) { co_await when_all_ready(nVoid(CH(s.a)), asVal(CH(s.b))); }
            if (typ(s.a) == 2) { co_await when_all_ready(nRef(CH(s.a)), asVal(CH(s.b))); }
            if (typ(s.a) == 3) { co_await when_all_ready(nMC(CH(s.a)), asVal(CH(s.b))); }
        }
        if (s.k == ALL_VECTOR) {
            co_await when_all_ready(pair(nVoid(CH(s.a)), nVoid(CH(s.b))));
        }
        if (s.k == ALL_LVALUE) {
            auto w = when_all_ready(asVal(s.a), nVoid(s.b));
            at(s.a, f, __LINE__); at(s.b, f, __LINE__); co_await w;
        }
        if (s.k == SCOPE) {
            n->scope = { f, __LINE__ }; co_await scope_body(s.a, s.b, &n->scope, s.g != nullptr);
        }
        if (s.k == ASCOPE) {
            async_scope sc; std::exception_ptr ex;
            sc.add(nVoid(CHE(s.a)));
            { auto t = sc.add(asVal(CHE(s.b))); if (s.g) { try { co_await std::move(t); } catch (const Exc&) {} } }
            try { co_await sc; } catch (const std::exception&) {}
        }
        if (s.k == TRY) {
            if (typ(s.a) == 0) try { co_await nVal(CH(s.a)); } catch (const Exc&) {}
            if (typ(s.a) == 1) try { co_await nVoid(CH(s.a)); } catch (const Exc&) {}
            if (typ(s.a) == 2) try { co_await nRef(CH(s.a)); } catch (const Exc&) {}
            if (typ(s.a) == 3) try { co_await nMC(CH(s.a)); } catch (const Exc&) {}
        }
    }
    if (n->thr) throw Exc(i);
    co_return n->v;
}
using WV = decltype(when_all_ready(std::declval<std::vector<task<void>>>()));
task<Val> nMC(int i) {
    MC_BEGIN(task<Val>, i, g = Guard{}, n = &(*N)[(size_t)i], f = (const Fr*)nullptr, s = (Step*)nullptr, si = size_t(0), tr = std::optional<trace>(), tv = task<Val>{}, tn = task<void>{}, tr_ = task<Val&>{}, wv = std::optional<WV>(), rv = RES(Val), rn = RES(void));
    f = &n->f; rt_add(NODES, 1);
    for (; si < n->s.size(); ++si) {
        s = &n->s[si];
        if (s->k == TRACE) {
            MC_AWAIT_SET(tr, get_trace{}); check_trace(*tr, __LINE__, f);
        }
        if (s->k == GATE) { MC_AWAIT(GateRef{ s->g }); }
        if (s->k == DIRECT) {
            if (typ(s->a) == 0) { MC_AWAIT(nVal(CH(s->a))); }
            if (typ(s->a) == 1) { MC_AWAIT(nVoid(CH(s->a))); }
            if (typ(s->a) == 2) { MC_AWAIT(nRef(CH(s->a))); }
            if (typ(s->a) == 3) { MC_AWAIT(nMC(CH(s->a))); }
        }
        if (s->k == LVALUE) {
            if (typ(s->a) == 0) {
                tv = nVal(s->a);
                at(s->a, f, __LINE__); MC_AWAIT(tv); tv = {};
            }
            if (typ(s->a) == 1) {
                tn = nVoid(s->a);
                at(s->a, f, __LINE__); MC_AWAIT(tn); tn = {};
            }
            if (typ(s->a) == 2) {
                tr_ = nRef(s->a);
                at(s->a, f, __LINE__); MC_AWAIT(tr_); tr_ = {};
            }
            if (typ(s->a) == 3) {
                tv = nMC(s->a);
                at(s->a, f, __LINE__); MC_AWAIT(tv); tv = {};
            }
        }
        if (s->k == WRAP) {
            if (typ(s->a) == 0) { MC_AWAIT(wrap(nVal(CH(s->a)))); }
            if (typ(s->a) == 1) { MC_AWAIT(wrap(nVoid(CH(s->a)))); }
            if (typ(s->a) == 2) { MC_AWAIT(wrap(nRef(CH(s->a)))); }
            if (typ(s->a) == 3) { MC_AWAIT(wrap(nMC(CH(s->a)))); }
        }
        if (s->k == WRAPL) {
            if (typ(s->a) == 0) { MC_AWAIT((nVal(CH(s->a)) | wrap())); }
            if (typ(s->a) == 1) { MC_AWAIT((nVoid(CH(s->a)) | wrap())); }
            if (typ(s->a) == 2) { MC_AWAIT((nRef(CH(s->a)) | wrap())); }
            if (typ(s->a) == 3) { MC_AWAIT((nMC(CH(s->a)) | wrap())); }
        }
        if (s->k == UNTIL) {
            if (typ(s->a) == 0) { MC_AWAIT(take_until(nVal(CH(s->a)), Until{})); }
            if (typ(s->a) == 1) { MC_AWAIT(take_until(nVoid(CH(s->a)), Until{})); }
            if (typ(s->a) == 2) { MC_AWAIT(take_until(nRef(CH(s->a)), Until{})); }
            if (typ(s->a) == 3) { MC_AWAIT(take_until(nMC(CH(s->a)), Until{})); }
        }
        if (s->k == ALL_TUPLE) {
            if (typ(s->a) == 0) { MC_AWAIT(when_all_ready(nVal(CH(s->a)), asVal(CH(s->b)))); }
            if (typ(s->a) == 1) { MC_AWAIT(when_all_ready(nVoid(CH(s->a)), asVal(CH(s->b)))); }
            if (typ(s->a) == 2) { MC_AWAIT(when_all_ready(nRef(CH(s->a)), asVal(CH(s->b)))); }
            if (typ(s->a) == 3) { MC_AWAIT(when_all_ready(nMC(CH(s->a)), asVal(CH(s->b)))); }
        }
        if (s->k == ALL_VECTOR) {
            MC_AWAIT(when_all_ready(pair(nVoid(CH(s->a)), nVoid(CH(s->b)))));
        }
        if (s->k == ALL_LVALUE) {
            wv.emplace(when_all_ready(pair(nVoid(s->a), nVoid(s->b))));
            at(s->a, f, __LINE__); at(s->b, f, __LINE__); MC_AWAIT(*wv); wv.reset();
        }
        if (s->k == TRY) {
            if (typ(s->a) == 0) { MC_AWAIT_TRY(rv, nVal(CH(s->a))); }
            if (typ(s->a) == 1) { MC_AWAIT_TRY(rn, nVoid(CH(s->a))); }
            if (typ(s->a) == 2) { MC_AWAIT_TRY(rv, nRef(CH(s->a))); }
            if (typ(s->a) == 3) { MC_AWAIT_TRY(rv, nMC(CH(s->a))); }
        }
    }
    if (n->thr) throw Exc(i);
    MC_RETURN(Val(i));
    MC_END();
}
Drv drive(int i) {
    try {
        if (typ(i) == 0) co_await nVal((at(i, nullptr, __LINE__), i));
        if (typ(i) == 1) co_await nVoid((at(i, nullptr, __LINE__), i));
        if (typ(i) == 2) co_await nRef((at(i, nullptr, __LINE__), i));
        if (typ(i) == 3) co_await nMC((at(i, nullptr, __LINE__), i));
    } catch (const Exc&) {}
}
void drive_sync(int i, bool blocking) {
    try {
        if (typ(i) == 0) sync_wait(nVal((at(i, nullptr, __LINE__), i)));
        if (typ(i) == 1) { if (blocking) { auto b = make_blocking(nVoid((at(i, nullptr, __LINE__), i))); b.get(); } else sync_wait(nVoid((at(i, nullptr, __LINE__), i))); }
        if (typ(i) == 2) sync_wait(nRef((at(i, nullptr, __LINE__), i)));
        if (typ(i) == 3) sync_wait(nMC((at(i, nullptr, __LINE__), i)));
    } catch (const Exc&) {}
}

// needs: 1 void child, 2 value child (type 0 or 3), 3 any
struct Gen {
    std::deque<Node>& n; Workers* w; int budget, traces = 0, total = 0;
    int node(int depth, int need) {
        int i = (int)n.size(); n.emplace_back(); --budget;
        int type = need == 1 ? 1 : need == 2 ? (coin() ? 0 : 3) : (int)rt_rand(4); bool thr = one_in(5);
        std::vector<Step> st; int k = 1 + (int)rt_rand(4);
        for (; k > 0; --k) {
            Step s{ (int)rt_rand(NK) };
            if (depth == 0 || budget < 2) s.k = s.k % 2 ? TRACE : GATE;
            if (s.k == GATE && !w) s.k = TRACE;
            if (type == 3 && (s.k == SCOPE || s.k == ASCOPE)) s.k = DIRECT;
            switch (s.k) {
            case TRACE: break;
            case GATE: s.g = w->gate(); break;
            case DIRECT: case LVALUE: case WRAP: case WRAPL: case UNTIL: case TRY: s.a = node(depth - 1, 3); break;
            case ALL_TUPLE: s.a = node(depth - 1, 3); s.b = node(depth - 1, 2); break;
            case ALL_VECTOR: s.a = node(depth - 1, 1); s.b = node(depth - 1, 1); break;
            case ALL_LVALUE: s.a = node(depth - 1, type == 3 ? 1 : 2); s.b = node(depth - 1, 1); break;
            case SCOPE: case ASCOPE: s.a = node(depth - 1, 1); s.b = node(depth - 1, 2); if (w && coin()) s.g = w->gate(); break;
            }
            st.push_back(s); if (coin()) st.push_back({ TRACE });
        }
        st.push_back({ TRACE });
        n[(size_t)i].type = type; n[(size_t)i].thr = thr; n[(size_t)i].s = std::move(st);
        return i;
    }
};
void run(bool threads, int depth, int budget) {
    std::deque<Node> nodes; N = &nodes; Workers w(1 + (int)rt_rand(3));
    Gen gen{ nodes, threads ? &w : nullptr, budget }; int root = gen.node(depth, 3);
    int how = (int)rt_rand(3); bool early = coin() || how != 0;
    rt_desc("nodes=%d how=%d early=%d root=%d", (int)nodes.size(), how, early, typ(root));
    if (early) w.start();
    if (how == 0) drive(root); else drive_sync(root, how == 2);
    if (!early) w.start();
    w.join();
    RT_CHECK(rt_get(TRACES) > 0, "nothing-traced"); rt_count("traces", rt_get(TRACES)); rt_count("awaited-nodes", rt_get(NODES));
}
// a long chain, alternating kinds of await, one trace at each level before and after the child
void chain(int len) {
    std::deque<Node> nodes; N = &nodes; static const int ks[] = { DIRECT, LVALUE, WRAP, UNTIL, ALL_TUPLE, TRY };
    for (int i = 0; i < len; ++i) {
        nodes.emplace_back(); Node& n = nodes.back(); n.type = (int)rt_rand(4); n.thr = false;
        if (i + 1 < len) { int k = ks[rt_rand(6)]; if (k == ALL_TUPLE && 2 * len > 200) k = DIRECT; n.s.push_back({ k, i + 1, k == ALL_TUPLE ? len + i : 0 }); }
        if (i % 8 == 0 || i + 1 == len) n.s.push_back({ TRACE });
    }
    for (int i = 0; i < len; ++i) { nodes.emplace_back(); nodes.back().type = 0; nodes.back().thr = false; nodes.back().s.push_back({ TRACE }); }
    rt_desc("chain=%d", len); if (coin()) drive(0); else drive_sync(0, false);
    rt_count("traces", rt_get(TRACES)); rt_count("awaited-nodes", rt_get(NODES));
}
}
RT_CASE_W(C21, trace_tree_threads, 3) { run(true, 1 + (int)rt_rand(5), 4 + (int)rt_rand(20)); }
RT_CASE(C21, trace_tree) { run(false, 1 + (int)rt_rand(6), 4 + (int)rt_rand(40)); }
RT_CASE(C21, trace_chain) { chain(2 + (int)rt_rand(80)); }
