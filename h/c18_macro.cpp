// C18: MC_ coroutines against the same body written as a C++20 coroutine. A random script is run three times
// (every coroutine C++20; a random mixture; every coroutine MC_) with the same resumption order, and the logs of
// promise, awaiter, body and handle events must be equal.
#include "hx.h"
#include "macoro/result.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
#include <memory>
using namespace macoro;

namespace {
enum { PCTOR, PDTOR, GRO, IREADY, ISUSP, IRES, FREADY, FSUSP, RETV, UNH, YV, ATR, ACTOR, ADTOR, AREADY, ASUSP, ARES, CONV, CCTOR, CCDTOR, BODY, VALUE, COAW, CORES, CODTOR, DRV, DONE, DEXC, INL, RVOID };
const char* ev_name[] = { "promise()", "~promise()", "get_return_object", "initial ready", "initial suspend", "initial resume", "final ready", "final suspend", "return_value", "unhandled_exception", "yield_value", "await_transform", "awaiter()", "~awaiter()", "await_ready", "await_suspend", "await_resume", "operator co_await", "awaitable()", "~awaitable()", "body", "value", "await child", "child result", "~Co", "driver resumes", "done", "exception to resumer", "inline resume", "return_void" };
struct Ev { int k; int64_t a, b; bool operator==(const Ev&) const = default; };
enum Kind { EMIT, AWAIT, SET, FN, TRY, CALL, RETURN, RETURN_AWAIT, YIELD, YIELD_SET, YIELD_AWAIT, AWAIT_AWAIT, THROW, SPAWN, LOOP, RETURN_YIELD, CALLR };
enum Thr { NONE, T_CTOR, T_READY, T_SUSP, T_RES, T_CONV, T_RETV };
struct Op { int k, site, val; bool ready; int thr, susp, child; };
struct Ctx {
    std::vector<std::vector<Op>> sc; std::vector<char> rethrow; bool iready;
    std::vector<char> mc; bool std_resume;
    std::vector<Ev> log; std::vector<coroutine_handle<>> pend; std::vector<std::pair<int, coroutine_handle<>>> det;
    std::deque<std::shared_ptr<void>> keep; int ids, next;
};
Ctx* C; bool verbose = getenv("C18_VERBOSE") != nullptr;
void lg(int k, int64_t a = 0, int64_t b = 0) { C->log.push_back({ k, a, b }); if (verbose) fprintf(stderr, "%s %ld %ld\n", ev_name[k], a, b); }
std::coroutine_handle<> as(coroutine_handle<> h, std::coroutine_handle<>) { return h.std_cast(); }
coroutine_handle<> as(coroutine_handle<> h, coroutine_handle<>) { return h; }
template<class H> using Void = std::conditional_t<std::is_same_v<typename coroutine_handle_traits<H>::template coroutine_handle<void>, coroutine_handle<void>>, coroutine_handle<>, std::coroutine_handle<>>;
template<class H> Void<H> as_void(H h) { return static_cast<Void<H>>(h); }

struct AwBase {
    const Op* o; int who;
    AwBase(const Op& o_, int w) : o(&o_), who(w) { lg(ACTOR, who, o->val); if (o->thr == T_CTOR) throw Exc(o->val); }
    AwBase(const AwBase&) = delete;
    ~AwBase() { lg(ADTOR, who, o->val); who = -77; }
    bool await_ready() { lg(AREADY, who, o->val); if (o->thr == T_READY) throw Exc(o->val); return o->ready; }
    // 0 void, 1 bool, 2 handle
    template<int S, class H> auto susp(H h) {
        lg(ASUSP, who, o->val); if (o->thr == T_SUSP) throw Exc(o->val);
        int mode = o->susp; coroutine_handle<> m(h);
        if constexpr (S == 1) { if (mode == 1) return false; }
        if constexpr (S == 2) {
            if (mode == 1) return h;
            if (mode == 2 && C->pend.size()) { auto n = C->pend.front(); C->pend.erase(C->pend.begin()); C->pend.push_back(m); return as(n, h); }
        }
        if (mode == 3) {                                        // resumed before await_suspend returns
            lg(INL, who);
            try { m.resume(); } catch (const Exc& e) { lg(DEXC, e.id); }
        } else C->pend.push_back(m);
        if constexpr (S == 1) return true;
        if constexpr (S == 2) return as(noop_coroutine(), h);
    }
    int await_resume() { lg(ARES, who, o->val); if (o->thr == T_RES) throw Exc(o->val); return o->val * 3; }
};
// HM: 0 takes std::coroutine_handle<>, 1 takes macoro::coroutine_handle<>, 2 a template, 3 both
template<int S, int HM> struct Aw;
template<int S> struct Aw<S, 0> : AwBase { using AwBase::AwBase; auto await_suspend(std::coroutine_handle<> h) { return susp<S>(h); } };
template<int S> struct Aw<S, 1> : AwBase { using AwBase::AwBase; auto await_suspend(coroutine_handle<> h) { return susp<S>(h); } };
template<int S> struct Aw<S, 2> : AwBase { using AwBase::AwBase; template<class H> auto await_suspend(H h) { return susp<S>(as_void(h)); } };
template<int S> struct Aw<S, 3> : AwBase { using AwBase::AwBase; auto await_suspend(std::coroutine_handle<> h) { return susp<S>(h); } auto await_suspend(coroutine_handle<> h) { return susp<S>(h); } };

struct Able {
    const Op* o; int who;
    Able(const Op& o_, int w) : o(&o_), who(w) { lg(CCTOR, who, o->val); }
    Able(const Able&) = delete;
    ~Able() { lg(CCDTOR, who, o->val); who = -78; }
    const Op& conv(int w) { lg(CONV, who, w); if (o->thr == T_CONV) throw Exc(o->val); return *o; }
};
template<int S, int HM> struct Memb : Able { using Able::Able; Aw<S, HM> operator co_await() && { return Aw<S, HM>(conv(1), who); } };
template<int S, int HM> struct MembL : Able { using Able::Able; std::unique_ptr<Aw<S, HM>> a; Aw<S, HM>& operator co_await() & { a.reset(new Aw<S, HM>(conv(2), who)); return *a; } Aw<S, HM> operator co_await() && { return Aw<S, HM>(conv(3), who); } };
template<int S, int HM> struct Free : Able { using Able::Able; };
template<int S, int HM> Aw<S, HM> operator co_await(Free<S, HM>&& f) { return Aw<S, HM>(f.conv(4), f.who); }
template<int S, int HM> Aw<S, HM> operator co_await(const Free<S, HM>& f) { return Aw<S, HM>(const_cast<Free<S, HM>&>(f).conv(5), f.who); }
template<class T> T& lv(const Op& o, int w) { auto p = std::make_shared<T>(o, w); C->keep.push_back(p); return *p; }
template<class T> T&& xv(const Op& o, int w) { return std::move(lv<T>(o, w)); }
// await_resume gives another awaiter, the operation, a value or a reference
template<int HM> struct Give : Aw<1, HM> { using Aw<1, HM>::Aw; Aw<0, HM> await_resume() { AwBase::await_resume(); return Aw<0, HM>(*this->o, this->who + 100); } };
template<int HM> struct GiveOp : Aw<0, HM> { using Aw<0, HM>::Aw; const Op* await_resume() { AwBase::await_resume(); return this->o; } };
template<int HM> struct GiveVal : Aw<2, HM> { using Aw<2, HM>::Aw; Val await_resume() { return Val(AwBase::await_resume()); } };
template<int HM> struct GiveRef : Aw<1, HM> { using Aw<1, HM>::Aw; Val v{ 9 }; Val& await_resume() { v = Val(AwBase::await_resume()); return v; } };
template<int HM> struct GiveVoid : Aw<1, HM> { using Aw<1, HM>::Aw; void await_resume() { AwBase::await_resume(); } };

template<class P> struct FinalAw {
    bool detach;
    bool await_ready() noexcept { lg(FREADY); return detach; }
    template<class H> Void<H> await_suspend(H h) noexcept { lg(FSUSP, h.promise().id); return as(h.promise().cont ? h.promise().cont : coroutine_handle<>(noop_coroutine()), Void<H>{}); }
    void await_resume() noexcept {}
};
struct InitAw {
    bool ready;
    bool await_ready() { lg(IREADY, ready); return ready; }
    template<class H> void await_suspend(H) { lg(ISUSP); }
    void await_resume() { lg(IRES); }
};
template<class P, class R> struct PromiseBase {
    int id, idx; coroutine_handle<> cont; int val = -1; std::exception_ptr ex;
    PromiseBase() : id(C->ids++), idx(C->next) { lg(PCTOR, id, idx); }
    PromiseBase(const PromiseBase&) = delete;
    ~PromiseBase() {
        lg(PDTOR, id, idx); id = -79;
        if (R::detached) for (size_t i = 0; i < C->det.size(); ++i) if (C->det[i].first == reg) { C->det.erase(C->det.begin() + (long)i); break; }
    }
    int reg = -1;
    R make(coroutine_handle<P> h) { lg(GRO, id); if (R::detached) { reg = id; C->det.push_back({ id, h }); } return R{ h }; }
    R get_return_object() { return make(coroutine_handle<P>(std::coroutine_handle<P>::from_promise(static_cast<P&>(*this)))); }
    R macoro_get_return_object() { return make(coroutine_handle<P>::from_promise(static_cast<P&>(*this), coroutine_handle_type::macoro)); }
    InitAw initial_suspend() { return { R::detached || C->iready }; }
    FinalAw<P> final_suspend() noexcept { return { R::detached }; }
    void return_value(int v) { lg(RETV, id, v); val = v; }
    void return_value(const Op* o) { lg(RETV, id, o->val); if (o->thr == T_RETV) throw Exc(o->val); val = o->val; }
    void unhandled_exception() {
        try { throw; } catch (const Exc& e) { lg(UNH, id, e.id); }
        if (C->rethrow[(size_t)idx]) throw;
        ex = std::current_exception();
    }
    Aw<1, 2> yield_value(const Op* o) { lg(YV, id, o->val); return Aw<1, 2>(*o, 200 + id); }
};
template<class R> struct CoAw {
    coroutine_handle<typename R::promise_type> h;
    bool await_ready() { lg(COAW, h.promise().id, h.done()); return h.done(); }
    template<class H> Void<H> await_suspend(H c) { h.promise().cont = coroutine_handle<>(as_void(c)); return as(C->iready ? coroutine_handle<>(noop_coroutine()) : coroutine_handle<>(h), Void<H>{}); }
    int await_resume() { lg(CORES, h.promise().id, h.done()); if (h.promise().ex) std::rethrow_exception(h.promise().ex); return h.promise().val; }
};
template<int AT> struct Co {
    static constexpr bool detached = false;
    struct promise_type;
    coroutine_handle<promise_type> h;
    explicit Co(coroutine_handle<promise_type> h_) : h(h_) {}
    Co(Co&& o) noexcept : h(std::exchange(o.h, nullptr)) {}
    ~Co() { if (h) { lg(CODTOR, h.promise().id, h.done()); if (C->std_resume) h.std_cast().destroy(); else h.destroy(); } }
    CoAw<Co> operator co_await() && { return { h }; }
};
template<> struct Co<0>::promise_type : PromiseBase<Co<0>::promise_type, Co<0>> {};
template<> struct Co<1>::promise_type : PromiseBase<Co<1>::promise_type, Co<1>> { template<class A> A&& await_transform(A&& a) { lg(ATR, id); return static_cast<A&&>(a); } };
struct Det {
    static constexpr bool detached = true;
    struct promise_type : PromiseBase<promise_type, Det> {};
    explicit Det(coroutine_handle<promise_type>) {}
};

Co<0> call(int idx); Co<1> call1(int idx); void spawn(int idx);
void take(int v) { lg(VALUE, v); }
void takev(Val&& v) { lg(VALUE, v.get(), 1); Val w(std::move(v)); }
void taker(Val& v) { lg(VALUE, v.get(), 2); v = Val(1); }
struct Taker { void operator()(int v) const { lg(VALUE, v, 4); } };
int64_t exc_id(std::exception_ptr e) { try { std::rethrow_exception(e); } catch (const Exc& x) { return x.id; } }
void logr(result<int>& r) { if (r.has_error()) lg(VALUE, exc_id(r.error()), 3); else lg(VALUE, r.value(), 5); }

// sites used with an int result; HMx: the handle kinds, all std in the C++20 body
#define SITES(X, O, I, H1, H2, H3) \
    X(0, (Aw<0, 0>(O, I))) X(1, (Aw<1, 0>(O, I))) X(2, (Aw<2, 0>(O, I))) \
    X(3, (Aw<0, H1>(O, I))) X(4, (Aw<1, H1>(O, I))) X(5, (Aw<2, H1>(O, I))) \
    X(6, (Aw<0, H2>(O, I))) X(7, (Aw<1, H2>(O, I))) X(8, (Aw<2, H2>(O, I))) X(9, (Aw<2, H3>(O, I))) \
    X(10, (Memb<1, H1>(O, I))) X(11, (Free<2, H2>(O, I))) X(12, (lv<Aw<1, H1>>(O, I))) X(13, (lv<MembL<0, H2>>(O, I))) \
    X(14, (xv<Aw<2, H1>>(O, I))) X(15, (xv<MembL<1, 0>>(O, I))) X(16, (lv<Free<2, H1>>(O, I))) X(17, (std::move(lv<Aw<0, 0>>(O, I))))
enum { NSITES = 18 };
#define FEW(X, O, I, H1, H2) X(0, (Aw<0, 0>(O, I))) X(1, (Aw<1, H1>(O, I))) X(2, (Memb<2, H2>(O, I))) X(3, (lv<Aw<2, H1>>(O, I)))
enum { NFEW = 4 };

template<class R> R body20(int idx) {
    Guard g; Val acc(idx); std::vector<int> cnt(C->sc[(size_t)idx].size()); int pc = 0; int r = 0; result<int> res = Err(std::exception_ptr{});
    for (;;) {
        const Op* o = &C->sc[(size_t)idx][(size_t)pc++]; lg(BODY, idx, pc); 
        switch (o->k) {
        case EMIT: lg(VALUE, acc.get()); break;
#define X(N, E) if (o->site == N) { co_await E; }
        case AWAIT: FEW(X, *o, idx, 0, 2) if (o->site == 4) { co_await GiveVoid<0>(*o, idx); } break;
#undef X
#define X(N, E) if (o->site == N) { r = co_await E; }
        case SET: SITES(X, *o, idx, 0, 2, 0) break;
#undef X
#define X(N, E) if (o->site == N) { take(co_await E); }
        case FN: FEW(X, *o, idx, 2, 0) if (o->site == 4) { takev(co_await GiveVal<0>(*o, idx)); } if (o->site == 5) { taker(co_await GiveRef<0>(*o, idx)); } if (o->site == 6) { Taker{}(co_await Aw<1, 0>(*o, idx)); } break;
#undef X
#define X(N, E) if (o->site == N) { try { res = Ok(co_await E); } catch (...) { res = Err(std::current_exception()); } logr(res); }
        case TRY: FEW(X, *o, idx, 0, 2) break;
#undef X
        case CALL: r = co_await call(o->child); break;
        case CALLR: try { res = Ok(co_await call1(o->child)); } catch (...) { res = Err(std::current_exception()); } logr(res); break;
        case RETURN: co_return o;
#define X(N, E) if (o->site == N) { co_return co_await E; }
        case RETURN_AWAIT: FEW(X, *o, idx, 0, 2) if (o->site == 4) { co_return co_await call(o->child); } break;
#undef X
        case YIELD: co_yield o; break;
        case YIELD_SET: { int y = co_yield o; r = y; } break;
        case YIELD_AWAIT: co_yield co_await GiveOp<0>(*o, idx); break;
        case AWAIT_AWAIT: co_await co_await Give<0>(*o, idx); break;
        case RETURN_YIELD: co_return co_yield o;
        case THROW: throw Exc(o->val);
        case SPAWN: spawn(o->child); break;
        case LOOP: if (cnt[(size_t)pc - 1]++ < o->val % 3) pc = o->site; break;
        }
        acc = Val(acc.get() * 7 + r); lg(VALUE, acc.get(), 6);
    }
}
template<class R> R bodyMC(int idx) {
    MC_BEGIN(R, idx, g = Guard{}, acc = Val(idx), cnt = std::vector<int>(C->sc[(size_t)idx].size()), pc = 0, r = 0, res = result<int>(Err(std::exception_ptr{})), o = (const Op*)nullptr);
    for (;;) {
        o = &C->sc[(size_t)idx][(size_t)pc++]; lg(BODY, idx, pc);
        if (o->k == EMIT) lg(VALUE, acc.get());
        else if (o->k == AWAIT) {
#define X(N, E) if (o->site == N) { MC_AWAIT(E); }
            FEW(X, *o, idx, 1, 2) if (o->site == 4) { MC_AWAIT(GiveVoid<3>(*o, idx)); }
#undef X
        } else if (o->k == SET) {
#define X(N, E) if (o->site == N) { MC_AWAIT_SET(r, E); }
            SITES(X, *o, idx, 1, 2, 3)
#undef X
        } else if (o->k == FN) {
#define X(N, E) if (o->site == N) { MC_AWAIT_FN(take, E); }
            FEW(X, *o, idx, 2, 1) if (o->site == 4) { MC_AWAIT_FN(takev, GiveVal<1>(*o, idx)); } if (o->site == 5) { MC_AWAIT_FN(taker, GiveRef<3>(*o, idx)); } if (o->site == 6) { MC_AWAIT_FN(Taker{}, (Aw<1, 2>(*o, idx))); }
#undef X
        } else if (o->k == TRY) {
#define X(N, E) if (o->site == N) { MC_AWAIT_TRY(res, E); logr(res); }
            FEW(X, *o, idx, 1, 2)
#undef X
        } else if (o->k == CALL) MC_AWAIT_SET(r, call(o->child));
        else if (o->k == CALLR) { MC_AWAIT_TRY(res, call1(o->child)); logr(res); }
        else if (o->k == RETURN) MC_RETURN(o);
        else if (o->k == RETURN_AWAIT) {
#define X(N, E) if (o->site == N) { MC_RETURN_AWAIT(E); }
            FEW(X, *o, idx, 1, 2) if (o->site == 4) { MC_RETURN_AWAIT(call(o->child)); }
#undef X
        } else if (o->k == YIELD) { MC_YIELD(o); }
        else if (o->k == YIELD_SET) { MC_YIELD_SET(r, o); }
        else if (o->k == YIELD_AWAIT) { MC_YIELD_AWAIT(GiveOp<1>(*o, idx)); }
        else if (o->k == AWAIT_AWAIT) { MC_AWAIT_AWAIT(Give<2>(*o, idx)); }
        else if (o->k == RETURN_YIELD) { MC_RETURN_YIELD(o); }
        else if (o->k == THROW) throw Exc(o->val);
        else if (o->k == SPAWN) spawn(o->child);
        else if (o->k == LOOP) { if (cnt[(size_t)pc - 1]++ < o->val % 3) pc = o->site; }
        acc = Val(acc.get() * 7 + r); lg(VALUE, acc.get(), 6);
    }
    MC_END();
}
Co<0> call(int idx) { C->next = idx; return C->mc[(size_t)idx] ? bodyMC<Co<0>>(idx) : body20<Co<0>>(idx); }
Co<1> call1(int idx) { C->next = idx; return C->mc[(size_t)idx] ? bodyMC<Co<1>>(idx) : body20<Co<1>>(idx); }
void spawn(int idx) { C->next = idx; if (C->mc[(size_t)idx]) bodyMC<Det>(idx); else body20<Det>(idx); }

Op gen_op(int idx, int n, bool alone, int pc) {
    Op o{}; o.val = 1 + (int)rt_rand(99); o.ready = one_in(3); o.susp = (int)rt_rand(4); if (o.susp == 2 && alone) o.susp = 0;
    static const int tk[] = { EMIT, AWAIT, AWAIT, SET, SET, SET, SET, SET, FN, FN, TRY, CALL, CALL, CALLR, YIELD, YIELD_SET, YIELD_AWAIT, AWAIT_AWAIT, SPAWN, LOOP, THROW, RETURN, RETURN_AWAIT, RETURN_YIELD };
    o.k = tk[rt_rand(sizeof tk / sizeof *tk)];
    if (o.k >= THROW && o.k == THROW && !one_in(3)) o.k = SET;
    if ((o.k == CALL || o.k == CALLR || o.k == SPAWN) && idx + 1 >= n) o.k = SET;
    o.child = idx + 1 < n ? idx + 1 + (int)rt_rand((uint64_t)(n - idx - 1)) : -1;
    o.site = (int)rt_rand(o.k == SET ? NSITES : o.k == FN ? 7 : o.k == AWAIT ? 5 : o.k == RETURN_AWAIT ? (o.child > 0 ? 5 : 4) : NFEW);
    if (o.k == LOOP) o.site = (int)rt_rand((uint64_t)pc + 1);
    if (one_in(6)) o.thr = (int)rt_rand(7);
    return o;
}
std::vector<Ev> run_one(Ctx& c, int root_at, const std::vector<uint64_t>& plan, size_t steps) {
    C = &c; c.log.clear(); c.ids = 0; c.next = 0;
    auto drive = [&](auto make) {
        {
            auto root = make();
            bool started = c.iready;
            for (size_t i = 0; i < steps; ++i) {
                coroutine_handle<> h;
                if (!started) { h = root.h; started = true; }
                else if (c.pend.size()) { size_t k = plan[i] % c.pend.size(); h = c.pend[k]; c.pend.erase(c.pend.begin() + (long)k); }
                else break;
                lg(DRV, (int64_t)i);
                try { if (c.std_resume) h.std_cast().resume(); else h.resume(); } catch (const Exc& e) { lg(DEXC, e.id); }
                lg(DONE, root.h.done());
            }
        }
        while (c.det.size()) { auto h = c.det.front().second; c.det.erase(c.det.begin()); h.destroy(); }
    };
    if (root_at) drive([] { return call1(0); }); else drive([] { return call(0); });
    c.pend.clear(); while (c.keep.size()) c.keep.pop_front();
    return std::move(c.log);
}
void dump(const char* w, const std::vector<Ev>& l, size_t at) {
    std::string s = std::string(w) + ":";
    for (size_t i = at > 6 ? at - 6 : 0; i < l.size() && i < at + 4; ++i) s += std::string(i == at ? " >>> " : " | ") + ev_name[l[i].k] + " " + std::to_string(l[i].a) + " " + std::to_string(l[i].b);
    rt_desc("%s\n", s.c_str());
}
}

static void differential(bool alone) {
    Ctx c; int n = alone ? 1 : 1 + (int)rt_rand(4); c.sc.resize((size_t)n); c.rethrow.assign((size_t)n, 0); c.iready = one_in(4);
    if (alone) { c.rethrow[0] = 1; c.iready = false; }
    for (int i = 0; i < n; ++i) {
        int len = (int)rt_rand(6);
        for (int j = 0; j < len; ++j) c.sc[(size_t)i].push_back(gen_op(i, n, alone, j));
        Op e = gen_op(i, n, alone, len); e.k = (alone && coin()) || one_in(4) ? THROW : RETURN; if (e.thr != T_RETV) e.thr = 0;
        c.sc[(size_t)i].push_back(e);
    }
    int root_at = (int)rt_rand(2); size_t steps = rt_rand(4) ? 14 : rt_rand(8); std::vector<uint64_t> plan; for (size_t i = 0; i < 14; ++i) plan.push_back(rt_rand(1 << 20));
    std::vector<char> mix((size_t)n); for (auto& m : mix) m = (char)rt_rand(2);
    std::string d; for (auto& s : c.sc) { d += "["; for (auto& o : s) d += std::to_string(o.k) + "." + std::to_string(o.site) + (o.ready ? "r" : "") + (o.thr ? "t" + std::to_string(o.thr) : "") + "s" + std::to_string(o.susp) + (o.k == CALL || o.k == SPAWN || o.k == CALLR ? ">" + std::to_string(o.child) : "") + " "; d += "]"; }
    rt_desc("%s root=%d steps=%zu iready=%d ", d.c_str(), root_at, steps, c.iready);
    c.std_resume = false; c.mc.assign((size_t)n, 0);
    auto ref = run_one(c, root_at, plan, steps);
    rt_count("events", ref.size()); rt_log("ref", (int64_t)ref.size(), 0); for (auto& e : ref) rt_log("e", e.k * 1000 + e.a, e.b);
    for (int v = 0; v < 2; ++v) {
        if (v == 0) { c.mc = mix; c.std_resume = coin() && !alone; } else { c.mc.assign((size_t)n, 1); c.std_resume = false; }
        auto got = run_one(c, root_at, plan, steps);
        if (got == ref) continue;
        size_t i = 0; while (i < got.size() && i < ref.size() && got[i] == ref[i]) ++i;
        rt_desc("\nvariant %s%s\n", v ? "all MC" : "mixed", c.std_resume ? " (resumed through std handles)" : "");
        dump("C++20", ref, i); dump("macro", got, i);
        rt_fail("differs-from-the-c++20-coroutine", i < got.size() ? ev_name[got[i].k] : "events are missing");
    }
}
RT_CASE_W(C18, macro_differential, 3) { differential(false); }
RT_CASE(C18, macro_differential_rethrow) { differential(true); }

// ------------------------------------------------------------- void bodies
namespace {
template<int VOIDFN> struct VCo {
    struct promise_type {
        VCo get_return_object() { return { coroutine_handle<promise_type>(std::coroutine_handle<promise_type>::from_promise(*this)) }; }
        VCo macoro_get_return_object() { return { coroutine_handle<promise_type>::from_promise(*this, coroutine_handle_type::macoro) }; }
        suspend_always initial_suspend() noexcept { return {}; } suspend_always final_suspend() noexcept { lg(FREADY); return {}; }
        void return_void() { lg(RVOID); if (fail) throw Exc(77); }
        void unhandled_exception() { try { throw; } catch (const Exc& e) { lg(UNH, e.id); } }
        bool fail = false;
    };
    coroutine_handle<promise_type> h;
};
using V = VCo<0>;
struct Cap {                                                // a capture whose copies and moves may throw
    static inline int left = 0; Guard g;
    Cap() {} Cap(const Cap&) { if (left && --left == 0) throw Exc(5); } Cap(Cap&&) { if (left && --left == 0) throw Exc(6); }
};
V v20(int how, Op o, Cap) {
    lg(BODY, how);
    if (how == 0) co_return;
    if (how == 1) { for (int i = 0; i < 2; ++i) co_await Aw<0, 0>(o, i); }
    if (how == 2) { co_await Aw<1, 0>(o, 5); co_return; }
    if (how == 3) throw Exc(3);
    if (how == 4) { MACORO_TRY { int v = co_await Aw<2, 0>(o, 6); lg(VALUE, v); } MACORO_CATCH(e) { lg(VALUE, exc_id(e), 8); co_await Aw<0, 0>(o, 7); } }
}
V vmc_(int how, Op o, Cap c) {
    MC_BEGIN(V, how, o, c = std::move(c), i = 0, r = result<int>(Err(std::exception_ptr{})));
    lg(BODY, how);
    if (how == 0) MC_RETURN_VOID();
    if (how == 1) { for (i = 0; i < 2; ++i) MC_AWAIT((Aw<0, 1>(o, i))); }
    if (how == 2) { MC_AWAIT((Aw<1, 2>(o, 5))); MC_RETURN_VOID(); }
    if (how == 3) throw Exc(3);
    if (how == 4) { MC_AWAIT_TRY(r, (Aw<2, 1>(o, 6))); if (r.has_error()) { lg(VALUE, exc_id(r.error()), 8); MC_AWAIT((Aw<0, 2>(o, 7))); } else lg(VALUE, r.value()); }
    MC_END();
}
}
RT_CASE(C18, macro_void_bodies) {
    Ctx c; C = &c; int how = (int)rt_rand(5); bool fail = one_in(4); Op o{}; o.val = 4; o.ready = one_in(3); o.susp = (int)rt_rand(4); o.thr = coin() ? (int)rt_rand(5) : 0; if (how == 4 && o.thr == T_RES && coin()) o.thr = 0;
    int stop_at = one_in(4) ? (int)rt_rand(3) : 9, caps = one_in(3) ? 1 + (int)rt_rand(5) : 0; rt_desc("how=%d fail=%d thr=%d susp=%d stop=%d caps=%d", how, fail, o.thr, o.susp, stop_at, caps);
    auto run = [&](auto fn) {
        c.log.clear(); c.pend.clear(); bool began = false; Cap::left = caps;
        try {
            V v = fn(how, o, Cap{}); began = true; Cap::left = 0; v.h.promise().fail = fail;
            for (int i = 0; i < 3 && i < stop_at && !v.h.done(); ++i) {
                coroutine_handle<> h = v.h; if (i) { if (c.pend.empty()) break; h = c.pend.back(); c.pend.pop_back(); }
                lg(DRV, i); h.resume(); lg(DONE, v.h.done());
            }
            v.h.destroy();
        } catch (const Exc& e) { RT_CHECK(!began && caps, "unexpected-exception"); }
        Cap::left = 0; if (!began) c.log.clear();
        return std::move(c.log);
    };
    auto a = run(v20), b = run(vmc_); rt_count("events", a.size());
    if (a.size() && b.size() && !(a == b)) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; dump("\nC++20", a, i); dump("macro", b, i); rt_fail("differs-from-the-c++20-coroutine", "void body"); }
}

// ------------------------------------------------------------- over-aligned parts
// (macro coroutines only: g++ does not align the frames of C++20 coroutines to more than operator new does)
namespace {
template<size_t A> struct alignas(A) Al {                   // at an address of its alignment, and intact
    int v; const Al* me; Guard g;
    explicit Al(int v_ = 0) : v(v_), me(this) { at(); } Al(const Al& o) : v(o.v), me(this) { o.ok(); at(); }
    Al& operator=(const Al& o) { ok(); o.ok(); v = o.v; return *this; } ~Al() { ok(); me = nullptr; }
    void at() const { RT_CHECK((size_t)(const void*)this % A == 0, "misaligned-part-of-a-coroutine"); }
    void ok() const { at(); RT_CHECK(me == this, "wrong-object"); }
};
template<size_t A> struct OCo {
    struct alignas(A) promise_type {
        Al<A> in{ 1 }; int got = -1;
        OCo get_return_object() { return { coroutine_handle<promise_type>(std::coroutine_handle<promise_type>::from_promise(*this)) }; }
        OCo macoro_get_return_object() { return { coroutine_handle<promise_type>::from_promise(*this, coroutine_handle_type::macoro) }; }
        suspend_always initial_suspend() noexcept { return {}; } suspend_always final_suspend() noexcept { return {}; }
        void return_value(int v) { in.ok(); got = v; }
        void unhandled_exception() { in.ok(); try { throw; } catch (const Exc& e) { got = 1000 + e.id; } }
    };
    coroutine_handle<promise_type> h;
};
int osusp, othr;
template<size_t A, size_t R = A> struct OAw : Al<A> {
    using Al<A>::Al;
    bool await_ready() { this->ok(); return osusp == 0; }
    bool await_suspend(coroutine_handle<>) { this->ok(); return osusp == 1; }
    Al<R> await_resume() { this->ok(); if (othr == this->v) throw Exc(this->v); return Al<R>(this->v + 1); }
};
template<size_t A, size_t B> struct OAble : Al<A> { using Al<A>::Al; OAw<B> operator co_await() && { this->ok(); return OAw<B>(this->v + 10); } };
struct ONest : OAw<64> { using OAw<64>::OAw; OAw<128> await_resume() { ok(); return OAw<128>(v + 100); } };
template<size_t A> OCo<A> omc(int n, Al<64> a, Al<16> b) {
    MC_BEGIN(OCo<A>, n, a, i = 0, b, s = 0, r = Al<128>(0), t = result<Al<32>>(Ok(Al<32>(3))));
    for (i = 0; i < n; ++i) {
        a.ok(); b.ok(); r.ok();
        MC_AWAIT((OAw<32>(i)));
        MC_AWAIT_SET(r, (OAw<64, 128>(i + 20))); s += r.v; r.ok();
        MC_AWAIT((OAble<16, 128>(i + 40)));
        MC_AWAIT_TRY(t, (OAw<128, 32>(i + 60)));
        if (t.has_value()) { t.value().ok(); s += t.value().v; } else s += 500;
        MC_AWAIT_AWAIT((ONest(i + 80)));
        a.ok(); b.ok();
    }
    MC_RETURN(s + a.v + b.v);
    MC_END();
}
}
namespace {
template<size_t A> void overaligned() {
    int n = (int)rt_rand(4), stop = one_in(3) ? (int)rt_rand(6) : 99; osusp = (int)rt_rand(3); othr = -1;
    if (n && one_in(3)) { static const int base[] = { 0, 20, 50, 60, 80, 180 }; othr = base[rt_rand(6)] + (int)rt_rand((uint64_t)n); }
    rt_desc("promise=%d n=%d suspends=%d throws=%d stop=%d", (int)A, n, osusp, othr, stop);
    { char* blk[6]; int k = (int)rt_rand(6); for (int i = 0; i < k; ++i) blk[i] = new char[1 + rt_rand(200)]; auto c = omc<A>(n, Al<64>(7), Al<16>(9)); for (int i = 0; i < k; ++i) delete[] blk[i];
        auto& p = c.h.promise(); p.in.ok(); RT_CHECK((size_t)&p % A == 0, "misaligned-promise");
        int i = 0; for (; i < stop && !c.h.done(); ++i) { c.h.resume(); p.in.ok(); }
        if (c.h.done()) {
            int e = 16, x = -1; for (int j = 0; j < n && x < 0; ++j) {
                if (othr == j || othr == j + 20) { x = 1000 + othr; break; } e += j + 21;
                if (othr == j + 50) { x = 1000 + othr; break; }
                e += othr == j + 60 ? 500 : j + 61;
                if (othr == j + 180) x = 1000 + othr;
            }
            RT_CHECK(p.got == (x < 0 ? e : x), "wrong-result");
            RT_CHECK(osusp == 1 || i == 1, "suspended-when-ready"); rt_count("finished", 1);
        }
        c.h.destroy(); }
    othr = -1; rt_count("resumes", n);
}
}
RT_CASE(C18, macro_overaligned) { switch (rt_rand(3)) { case 0: overaligned<8>(); break; case 1: overaligned<32>(); break; default: overaligned<128>(); } }

// ------------------------------------------------------------- exceptions of the initial suspend
// before the initial await_resume they leave the call that creates the coroutine, from then on they are the coroutine's own
// (only macro coroutines: g++ destroys the frame twice if the return object owns it)
namespace {
int iphase; bool iready;
struct IAw {
    int at; Guard g;
    bool await_ready() { if (iphase == 1) throw Exc(1); return iready; }
    void await_suspend(coroutine_handle<>) { if (iphase == 2) throw Exc(2); }
    void await_resume() { if (iphase == 3) throw Exc(3); }
};
struct ICo {
    struct promise_type {
        Guard g; int end = 0; static inline int unhandled = 0;
        ICo macoro_get_return_object() { return ICo(coroutine_handle<promise_type>::from_promise(*this, coroutine_handle_type::macoro)); }
        IAw initial_suspend() { if (iphase == 0) throw Exc(0); return IAw{ 1, Guard() }; }
        suspend_always final_suspend() noexcept { return {}; }
        void return_value(int v) { end = v; } void unhandled_exception() { ++unhandled; try { throw; } catch (Exc& e) { end = 100 + (int)e.id; } }
    };
    coroutine_handle<promise_type> h;
    explicit ICo(coroutine_handle<promise_type> h_) : h(h_) {} ICo(ICo&& o) : h(std::exchange(o.h, nullptr)) {} ~ICo() { if (h) h.destroy(); }
};
ICo imc(int x) { MC_BEGIN(ICo, x, v = Val(x)); RT_CHECK(v.get() == x, "wrong-local"); if (iphase == 4) throw Exc(4); MC_RETURN(x); MC_END(); }
}
RT_CASE(C18, macro_initial_exceptions) {
    iphase = (int)rt_rand(6); iready = coin(); rt_desc("phase=%d ready=%d", iphase, iready);
    ICo::promise_type::unhandled = 0; bool thrown = false, leaves = iphase < 2 || (iphase == 2 && !iready);
    bool own = iphase == 3 || iphase == 4;
    try {
        ICo c = imc(7); auto& p = c.h.promise(); RT_CHECK(!leaves, "exception-of-the-initial-suspend-lost");
        if (!iready) { RT_CHECK(!c.h.done() && p.end == 0 && !p.unhandled, "ran-before-it-was-resumed"); c.h.resume(); }
        RT_CHECK(c.h.done(), "not-at-its-final-suspend-point"); RT_CHECK(p.end == (own ? 100 + iphase : 7), "wrong-result"); RT_CHECK(p.unhandled == own, "wrong-unhandled-exception");
    } catch (Exc& e) { thrown = true; RT_CHECK(leaves && e.id == iphase, "unexpected-exception"); RT_CHECK(!ICo::promise_type::unhandled, "unhandled-exception-before-the-initial-resume"); }
    RT_CHECK(thrown == leaves, "exception-of-the-initial-suspend-lost"); rt_count("left", thrown);
}

// ------------------------------------------------------------- the operand of an await is the object named, never a copy
namespace {
struct IdBase {
    mutable int awaits = 0; int copies = 0; bool rd = coin(), never = coin(); const void* self = this;
    IdBase() = default; IdBase(const IdBase& o) : awaits(o.awaits), copies(o.copies + 1), rd(o.rd), never(o.never) {}
    IdBase(IdBase&& o) : awaits(o.awaits), copies(o.copies + 1), rd(o.rd), never(o.never) {}
};
struct IdAw : IdBase {
    bool await_ready() const { ++awaits; return rd; }
    bool await_suspend(std::coroutine_handle<> h) const { return await_suspend(coroutine_handle<>(h)); }
    bool await_suspend(coroutine_handle<>) const { return false; }
    const IdBase* await_resume() const { RT_CHECK(self == this, "awaited-object-was-copied-bitwise"); return this; }
};
struct IdPtr { const IdBase* b; bool await_ready() const { ++b->awaits; return b->rd; } void await_suspend(coroutine_handle<> h) { h.resume(); } const IdBase* await_resume() const { return b; } };
struct IdMemb : IdBase { IdPtr operator co_await() const { return { this }; } };
struct IdFree : IdBase {};
IdPtr operator co_await(const IdFree& f) { return { &f }; }
template<class T> struct IdPack { T m; T* p = &m; T& ref() { return m; } const T& cref() const { return m; } };
const IdBase* id_seen;
void id_see(const IdBase* b) { id_seen = b; }
void id_check(const IdBase* got, const IdBase* want, int awaits) {
    RT_CHECK(got == want, "awaited-a-copy-of-the-operand"); RT_CHECK(want->awaits == awaits, "operand-awaited-a-wrong-number-of-times"); RT_CHECK(want->copies == 0, "operand-copied");
}
// a temporary may not be copied either: it is told by its count of copies
void id_temp(const IdBase* b) { RT_CHECK(b->copies == 0, "temporary-copied"); RT_CHECK(b->awaits == 1, "operand-awaited-a-wrong-number-of-times"); }
template<class T> task<const void*> id_mc(IdPack<T>& k, T& r, int steps) {
    MC_BEGIN(task<const void*>, &k, &r, steps, i = 0, o = 0, n = 0, m = 0, own = std::make_unique<T>(), q = (const IdBase*)nullptr, res = result<const IdBase*>(Ok((const IdBase*)nullptr)));
    for (i = 0; i < steps; ++i) {
        o = (int)rt_rand(14);
        if (o == 0) { MC_AWAIT_SET(q, r); id_check(q, &r, ++n); }
        else if (o == 1) { MC_AWAIT_SET(q, k.m); id_check(q, &k.m, ++m); }
        else if (o == 2) { MC_AWAIT_SET(q, k.p[0]); id_check(q, &k.m, ++m); }
        else if (o == 3) { MC_AWAIT_SET(q, k.ref()); id_check(q, &k.m, ++m); }
        else if (o == 4) { MC_AWAIT_SET(q, std::as_const(k).cref()); id_check(q, &k.m, ++m); }
        else if (o == 5) { MC_AWAIT_SET(q, std::move(r)); id_check(q, &r, ++n); }
        else if (o == 6) { MC_AWAIT_SET(q, std::as_const(k).m); id_check(q, &k.m, ++m); }
        else if (o == 7) { MC_AWAIT(r); id_check(&r, &r, ++n); }
        else if (o == 8) { MC_AWAIT_FN(id_see, k.m); id_check(id_seen, &k.m, ++m); }
        else if (o == 9) { MC_AWAIT_TRY(res, r); id_check(res.value(), &r, ++n); }
        else if (o == 10) { MC_AWAIT_TRY(res, k.m); id_check(res.value(), &k.m, ++m); }
        else if (o == 11) { MC_AWAIT_FN(id_temp, T()); }
        else if (o == 12) { MC_AWAIT_SET(q, static_cast<T&&>(k.m)); id_check(q, &k.m, ++m); }
        else { own = std::make_unique<T>(); MC_AWAIT_SET(q, *own); id_check(q, own.get(), 1); }
    }
    MC_RETURN_AWAIT(r);
    MC_END();
}
template<class T> void id_run() {
    int n = 1 + (int)rt_rand(10); IdPack<T> k; T r;
    RT_CHECK(sync_wait(id_mc<T>(k, r, n)) == static_cast<const IdBase*>(&r), "awaited-a-copy-of-the-operand"); RT_CHECK(r.copies == 0, "operand-copied");
    rt_count("awaits", (uint64_t)n + 1);
}
}
RT_CASE(C18, macro_operands) { switch (rt_rand(3)) { case 0: id_run<IdAw>(); break; case 1: id_run<IdMemb>(); break; default: id_run<IdFree>(); } }
