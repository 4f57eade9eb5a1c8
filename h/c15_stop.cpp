// C15: stop_source, stop_token, stop_callback (macoro's own in config own, std's in config std).
#include "hx.h"
#include "macoro/stop.h"
#ifndef MACORO_HAS_STD_STOP_TOKEN
#include "macoro/detail/operation_cancelled.h"
#endif
using namespace macoro;

namespace {
enum { RUN = 64, REG = 128, DYING = 192, DEAD = 256, RTID = 320, INCTOR = 384, REQ_BEGIN = 20, REQ_END = 21, REQUESTS = 22 };

// a callback with everything about it observed
struct Cb {
    int id; bool slow; int* payload; int* written; std::optional<stop_callback> reg;
    Cb(int i, bool s, int* p) : id(i), slow(s), payload(p), written(new int(0)) {}
    ~Cb() { if (reg) remove(); delete written; }
    void ran() {
        RT_CHECK(rt_add(RUN + id, 1) == 1, "callback-ran-twice");
        RT_CHECK(!rt_get(DEAD + id), "callback-ran-after-its-removal");
        RT_CHECK(rt_get(REQ_BEGIN), "callback-ran-without-a-request");
        rt_set(RTID + id, rt_tid() + 1);
        if (payload) RT_CHECK(*payload == 7, "callback-does-not-see-what-was-done-before-the-request");
        if (slow) { rt_yield(); rt_yield(); }
        *written = id + 1;
        RT_CHECK(!rt_get(DEAD + id), "callback-was-still-running-when-its-destructor-returned");
        rt_count("callbacks-run", 1);
    }
    void install(const stop_token& t) {
        bool before = rt_get(REQ_END) != 0;
        rt_set(INCTOR + id, rt_tid() + 1);
        reg.emplace(t, [this] { ran(); });
        rt_set(INCTOR + id, 0);
        if (before) { RT_CHECK(rt_get(RUN + id) == 1, "callback-registered-after-the-request-did-not-run-in-its-constructor");
                      RT_CHECK(rt_get(RTID + id) == rt_tid() + 1, "callback-ran-on-another-thread"); rt_count("run-in-constructor", 1); }
        rt_set(REG + id, (int64_t)rt_step() + 1);
    }
    void remove() {
        rt_set(DYING + id, (int64_t)rt_step() + 1);
        bool must = rt_get(REQ_END) != 0;
        reg.reset();
        rt_set(DEAD + id, 1);
        if (must) RT_CHECK(rt_get(RUN + id) == 1, "callback-registered-when-stop-was-requested-never-ran");
        if (rt_get(RUN + id)) RT_CHECK(*written == id + 1, "destructor-returned-before-the-callback-was-done");
        else rt_count("removed-before-request", 1);
    }
};
// request_stop, observed. Only valid for one state per execution.
void request(stop_source& s) {
    bool first = rt_add(REQUESTS, 1) == 1;
    rt_set(REQ_BEGIN, 1);
    int64_t start = (int64_t)rt_step() + 1;
    s.request_stop();
    RT_CHECK(s.stop_requested(), "stop-not-requested-after-request_stop");
    // the only request so far: every callback registered before it and not being removed has run by now
    if (first && rt_get(REQUESTS) == 1) {
        for (int i = 0; i < 60; ++i) if (rt_get(REG + i) && rt_get(REG + i) < start && !rt_get(DYING + i))
            RT_CHECK(rt_get(RUN + i) == 1, "request_stop-returned-before-a-registered-callback-ran");
        rt_set(REQ_END, 1);
    }
}
}

// registration and removal on several threads race with one or two requests
RT_CASE_W(C15, stop_race, 5) {
    int N = 1 + (int)rt_rand(3), R = 1 + (int)one_in(4), id = 0; bool ask = !one_in(8), multi = R > 1;
    rt_desc("registrars=%d requesters=%d ask=%d", N, R, ask);
    int payload = 0;
    {
        auto src = std::make_unique<stop_source>();
        std::vector<std::thread> th; std::vector<int> plan;
        stop_token mt = src->get_token();
        RT_CHECK(mt.stop_possible() && !mt.stop_requested(), "fresh-state-is-wrong");
        for (int t = 0; t < N; ++t) {
            int k = 1 + (int)rt_rand(3), base = id; id += k; unsigned bits = (unsigned)rt_rand(1 << 12);
            th.emplace_back([&payload, tok = src->get_token(), k, base, bits, multi]() mutable {
                std::vector<std::unique_ptr<Cb>> v; bool seen = false;
                for (int i = 0; i < k; ++i) {
                    auto c = std::make_unique<Cb>(base + i, bits >> (4 * i) & 1, multi ? nullptr : &payload);
                    c->install(tok);
                    bool now = tok.stop_requested();
                    RT_CHECK(now || !seen, "stop_requested-went-back"); seen = now;
                    if (now) RT_CHECK(rt_get(REQ_BEGIN), "stop_requested-without-a-request");
                    if (!(bits >> (4 * i + 1) & 1)) c->remove(), c.reset();
                    else v.push_back(std::move(c));
                    if (bits >> (4 * i + 2) & 1 && !v.empty()) { v.erase(v.begin() + (bits >> 5) % v.size()); }
                }
                if (bits & 1 << 11) tok = stop_token{};
                v.clear();
            });
        }
        if (ask) for (int r = 0; r < R; ++r) th.emplace_back([&payload, s = *src, multi]() mutable { if (!multi) payload = 7; request(s); });
        if (coin()) src.reset();
        for (auto& t : th) t.join();
        RT_CHECK(mt.stop_requested() == ask, "stop_requested-wrong-at-the-end");
        bool left = src != nullptr;
        RT_CHECK(mt.stop_possible() == (ask || left), "stop_possible-wrong-at-the-end");
    }
}

// a callback that removes itself or another callback, registers another, requests again or drops the last references
RT_CASE_W(C15, stop_in_callback, 3) {
    int what = (int)rt_rand(6), N = 2 + (int)rt_rand(3); bool thread = coin(), other = coin();
    rt_desc("what=%d callbacks=%d thread=%d other=%d", what, N, thread, other);
    struct P { std::optional<stop_source> src; stop_token tok; std::vector<std::unique_ptr<Cb>> cb; std::optional<stop_callback> self, late; bool done = false, later = false; } p;
    p.src.emplace(); p.tok = p.src->get_token();
    int at = (int)rt_rand(N + 1), victim = (int)rt_rand(N);
    auto action = [&p, what, victim] {
        RT_CHECK(!p.done, "callback-ran-twice"); p.done = true;
        if (what == 0) p.self.reset();
        else if (what == 1) { if (!p.cb[victim]->reg) return; p.cb[victim]->remove(); }
        else if (what == 2) p.late.emplace(p.tok, [&p] { p.later = true; });
        else if (what == 3) { auto s = *p.src; s.request_stop(); }
        else if (what == 4) p.tok = stop_token{};
        else { RT_CHECK(p.tok.stop_requested(), "stop-not-requested-inside-a-callback"); }
        if (what == 2) RT_CHECK(p.later, "callback-registered-after-the-request-did-not-run-in-its-constructor");
    };
    for (int i = 0; i <= N; ++i) {
        if (i == at) p.self.emplace(p.tok, action);
        if (i < N) { p.cb.push_back(std::make_unique<Cb>(i, one_in(3), nullptr)); p.cb.back()->install(p.tok); }
    }
    std::thread rm; int v2 = (int)rt_rand(N);
    if (other && v2 != victim) { auto c = p.cb[v2].get(); rm = std::thread([c] { c->remove(); }); }
    stop_source own = *p.src;
    if (thread) { std::thread t([&] { request(own); }); t.join(); } else request(own);
    if (rm.joinable()) rm.join();
    RT_CHECK(p.done, "callback-registered-when-stop-was-requested-never-ran");
    for (int i = 0; i < N; ++i) if (p.cb[i]->reg) RT_CHECK(rt_get(RUN + i) == 1, "callback-registered-when-stop-was-requested-never-ran");
}

// the destructor of a callback that is done waits for nothing else
RT_CASE(C15, stop_removal_waits_for_its_callback_only) {
    int N = 1 + (int)rt_rand(3), at = (int)rt_rand(N + 1); rt_desc("callbacks=%d at=%d", N, at);
    stop_source s; std::vector<std::unique_ptr<Cb>> cb; std::optional<stop_callback> waits; std::atomic<bool> removed{ false };
    rt_no_stale();
    bool ran = false;
    for (int i = 0; i <= N; ++i) {
        if (i == at) waits.emplace(s.get_token(), [&] { ran = true; while (!removed.load()) std::this_thread::yield(); });
        if (i < N) { cb.push_back(std::make_unique<Cb>(i, coin(), nullptr)); cb.back()->install(s.get_token()); }
    }
    int v = (int)rt_rand(N);
    std::thread t([&] { cb[v]->remove(); removed.store(true); });
    request(s);
    t.join();
    RT_CHECK(ran, "callback-registered-when-stop-was-requested-never-ran");
}

// many registrations: lists grow, slots are freed and used again
RT_CASE(C15, stop_many) {
    int N = 20 + (int)rt_rand(60), T = 1 + (int)rt_rand(2); rt_desc("callbacks=%d threads=%d", N, T);
    stop_source s; std::vector<int> runs((size_t)N * T, 0); std::vector<std::thread> th; std::vector<std::vector<std::pair<int, std::unique_ptr<stop_callback>>>> live(T);
    struct W { static void go(int N, int off, stop_token t, std::vector<int>* runs, std::vector<std::pair<int, std::unique_ptr<stop_callback>>>* v, uint64_t r) {
        for (int i = 0; i < N; ++i) {
            int* p = &(*runs)[(size_t)(off + i)];
            v->emplace_back(off + i, std::make_unique<stop_callback>(t, [p] { ++*p; }));
            r = r * 6364136223846793005ull + 1442695040888963407ull;
            unsigned x = (unsigned)(r >> 33);
            if (x % 3 == 0 || (i > 30 && x % 2)) v->erase(v->begin() + (x / 3) % v->size());
        } } };
    for (int t = 1; t < T; ++t) { uint64_t r = rt_rand(1u << 30); th.emplace_back([&, t, r] { W::go(N, t * N, s.get_token(), &runs, &live[t], r); }); }
    W::go(N, 0, s.get_token(), &runs, &live[0], rt_rand(1u << 30));
    bool early = coin() && T > 1;
    for (auto& t : th) if (!early) t.join();
    if (!early) {
        s.request_stop();
        std::vector<char> alive((size_t)N * T, 0);
        for (auto& v : live) for (auto& c : v) alive[(size_t)c.first] = 1;
        for (int i = 0; i < N * T; ++i) RT_CHECK(runs[(size_t)i] == alive[(size_t)i], alive[(size_t)i] ? "callback-registered-when-stop-was-requested-never-ran" : "callback-ran-after-its-removal");
        rt_count("many-run", (uint64_t)N);
    } else {
        s.request_stop();
        for (auto& c : live[0]) RT_CHECK(runs[(size_t)c.first] == 1, "callback-registered-when-stop-was-requested-never-ran");
        for (auto& t : th) t.join();
        for (auto& c : live[1]) RT_CHECK(runs[(size_t)c.first] == 1, "callback-registered-when-stop-was-requested-never-ran");
        for (int i = 0; i < N * T; ++i) RT_CHECK(runs[(size_t)i] <= 1, "callback-ran-twice");
    }
}

// random operations on sources and tokens against a model
RT_CASE_W(C15, stop_model, 2) {
    struct St { int sources = 0; bool req = false; };
    std::deque<St> st; const int S = 4, T = 4, C = 3;
    std::optional<stop_source> s[S]; int ss[S]; std::optional<stop_token> t[T]; int ts[T]; std::unique_ptr<stop_callback> c[C]; int cs[C], cr[C];
    for (auto& x : ss) x = -1;
    for (auto& x : ts) x = -1;
    for (int i = 0; i < C; ++i) { cs[i] = -1; cr[i] = 0; }
    auto drop = [&](int k) { if (ss[k] >= 0) --st[(size_t)ss[k]].sources; ss[k] = -1; };
    int n = 8 + (int)rt_rand(30); rt_desc("ops=%d", n);
    for (int k = 0; k < n; ++k) {
        int op = (int)rt_rand(15), a = (int)rt_rand(S), b = (int)rt_rand(S); rt_log("op", op, a * 10 + b);
        switch (op) {
        case 0: drop(a); s[a].emplace(); st.push_back({ 1, false }); ss[a] = (int)st.size() - 1; break;
        case 1: if (s[b] && a != b) { drop(a); s[a].emplace(*s[b]); ss[a] = ss[b]; if (ss[a] >= 0) ++st[(size_t)ss[a]].sources; } break;
        case 2: if (s[b] && a != b) { drop(a); s[a].emplace(std::move(*s[b])); ss[a] = ss[b]; ss[b] = -1; } break;
        case 3: if (s[a] && s[b]) { int n2 = ss[b]; if (n2 >= 0) ++st[(size_t)n2].sources; drop(a); ss[a] = n2; *s[a] = *s[b]; } break;
        case 4: if (s[a] && s[b] && a != b) {
#ifdef MACORO_HAS_STD_STOP_TOKEN
                if (ss[a] >= 0) break;      // libstdc++ 13 forgets to give up the old state's source count
#endif
                drop(a); ss[a] = ss[b]; ss[b] = -1; *s[a] = std::move(*s[b]); } break;
        case 5: drop(a); s[a].reset(); break;
        case 6: if (s[b]) { t[a].emplace(s[b]->get_token()); ts[a] = ss[b]; } break;
        case 7: if (t[b] && a != b) { t[a].emplace(*t[b]); ts[a] = ts[b]; } break;
        case 8: if (t[b] && a != b) { t[a].emplace(std::move(*t[b])); ts[a] = ts[b]; ts[b] = -1; } break;
        case 9: if (t[a] && t[b]) { *t[a] = *t[b]; ts[a] = ts[b]; } break;
        case 10: if (t[a] && t[b] && a != b) { *t[a] = std::move(*t[b]); ts[a] = ts[b]; ts[b] = -1; } break;
        case 11: if (t[a] && t[b]) { t[a]->swap(*t[b]); std::swap(ts[a], ts[b]); } break;
        case 14:
#ifndef MACORO_HAS_STD_STOP_TOKEN
            if (s[a]) { if (coin()) self_move(*s[a]); else { auto& u = *s[a]; u = *s[a]; } }
            if (t[b]) { if (coin()) self_move(*t[b]); else { auto& u = *t[b]; u = *t[b]; } }
#endif
            break;
        case 12: if (s[a]) { s[a]->request_stop(); if (ss[a] >= 0) { st[(size_t)ss[a]].req = true; for (int i = 0; i < C; ++i) if (c[i] && cs[i] == ss[a]) RT_CHECK(cr[i] == 1, "callback-registered-when-stop-was-requested-never-ran"); } } break;
        case 13: { int x = a % C; c[x].reset(); cr[x] = 0; cs[x] = -1; if (t[b]) { cs[x] = ts[b]; c[x] = std::make_unique<stop_callback>(coin() ? *t[b] : stop_token(*t[b]), [&cr, x] { ++cr[x]; });
                   RT_CHECK(cr[x] == (cs[x] >= 0 && st[(size_t)cs[x]].req), "callback-registered-after-the-request-did-not-run-in-its-constructor"); } break; }
        }
        for (int i = 0; i < S; ++i) if (s[i]) {
            RT_CHECK(s[i]->stop_possible() == (ss[i] >= 0), "source-stop_possible-wrong");
            RT_CHECK(s[i]->stop_requested() == (ss[i] >= 0 && st[(size_t)ss[i]].req), "source-stop_requested-wrong");
        }
        for (int i = 0; i < T; ++i) if (t[i]) {
            bool pos = ts[i] >= 0 && (st[(size_t)ts[i]].req || st[(size_t)ts[i]].sources > 0), rq = ts[i] >= 0 && st[(size_t)ts[i]].req;
            RT_CHECK(t[i]->stop_possible() == pos, "token-stop_possible-wrong");
            RT_CHECK(t[i]->stop_requested() == rq, "token-stop_requested-wrong");
#ifndef MACORO_HAS_STD_STOP_TOKEN
            bool threw = false; try { t[i]->throw_if_stop_requested(); } catch (operation_cancelled&) { threw = true; }
            RT_CHECK(threw == rq, "throw_if_stop_requested-wrong");
#endif
        }
        for (int i = 0; i < C; ++i) if (c[i] && cs[i] >= 0) RT_CHECK(cr[i] == st[(size_t)cs[i]].req, "callback-count-wrong");
    }
    rt_count("model-ops", (uint64_t)n);
}

// the references to one state are dropped on several threads
RT_CASE(C15, stop_lifetime_race) {
    int N = 2 + (int)rt_rand(2); rt_desc("threads=%d", N);
    std::vector<std::thread> th;
    {
        stop_source s; stop_token t = s.get_token(); int req = (int)rt_rand(N + 1);
        for (int i = 0; i < N; ++i) {
            int how = (int)rt_rand(4); bool r = i == req;
            if (coin()) th.emplace_back([s2 = s, how, r]() mutable {
                if (how == 1) { stop_source c(s2); s2 = std::move(c); } if (how == 2) { stop_token x = s2.get_token(), y = x; x = std::move(y); } if (r) s2.request_stop(); if (how == 3) { stop_callback c(s2.get_token(), [] {}); }
                RT_CHECK(s2.stop_possible(), "source-stop_possible-wrong"); });
            else th.emplace_back([t2 = t, how]() mutable {
                if (how == 1) { stop_token c(t2); t2 = c; t2 = std::move(c); } if (how == 2) { stop_callback c(std::move(t2), [] {}); } if (how == 3) { stop_callback c(t2, [] {}); stop_callback d(t2, [] {}); }
                bool a = t2.stop_possible(), b = t2.stop_possible(); if (!a && how != 2) RT_CHECK(!b, "stop_possible-came-back"); });
        }
    }
    for (auto& t : th) t.join();
}
