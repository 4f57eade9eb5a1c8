// Self-test of the controlled runtime: each bad_* case must be reported with
// the expected kind, each ok_* case must stay silent (check.py, SELFTEST).
#include "../rt.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <memory>
#include <vector>
#include <stdexcept>
#include <cassert>
#include <semaphore>
#include <string>
#include <stop_token>
#include <chrono>

RT_CASE(T, ok_mutex) {
    int x = 0; std::mutex m;
    auto f = [&] { for (int i = 0; i < 5; ++i) { std::lock_guard<std::mutex> l(m); ++x; } };
    std::thread a(f), b(f); a.join(); b.join();
    RT_CHECK(x == 10, "count");
}
RT_CASE(T, bad_race) {
    int x = 0;
    auto f = [&] { ++x; };
    std::thread a(f), b(f); a.join(); b.join();
}
RT_CASE(T, ok_mp) {
    int x = 0; std::atomic<int> f{0};
    std::thread a([&] { x = 1; f.store(1, std::memory_order_release); });
    std::thread b([&] { if (f.load(std::memory_order_acquire)) RT_CHECK(x == 1, "mp"); });
    a.join(); b.join();
}
RT_CASE(T, bad_mp_relaxed) {
    int x = 0; std::atomic<int> f{0};
    std::thread a([&] { x = 1; f.store(1, std::memory_order_relaxed); });
    std::thread b([&] { if (f.load(std::memory_order_acquire)) x = 2; });
    a.join(); b.join();
}
RT_CASE(T, ok_sb_sc) {
    std::atomic<int> x{0}, y{0}; int r1 = 0, r2 = 0;
    std::thread a([&] { x.store(1); r1 = y.load(); });
    std::thread b([&] { y.store(1); r2 = x.load(); });
    a.join(); b.join();
    RT_CHECK(r1 || r2, "sb");
}
RT_CASE(T, bad_sb_relacq) {
    std::atomic<int> x{0}, y{0}; int r1 = 0, r2 = 0;
    std::thread a([&] { x.store(1, std::memory_order_release); r1 = y.load(std::memory_order_acquire); });
    std::thread b([&] { y.store(1, std::memory_order_release); r2 = x.load(std::memory_order_acquire); });
    a.join(); b.join();
    RT_CHECK(r1 || r2, "sb");
}
RT_CASE(T, bad_uaf) {
    int* p = new int(3); std::atomic<int> f{0};
    std::thread a([&] { f.store(1, std::memory_order_release); volatile int v = *p; (void)v; });
    while (!f.load(std::memory_order_acquire)) std::this_thread::yield();
    delete p; a.join();
}
RT_CASE(T, bad_leak) { int* p = new int[3]; __asm__ volatile("" : "+r"(p)); }
RT_CASE(T, bad_lost_wakeup) {
    std::mutex m; std::condition_variable cv; std::atomic<bool> rdy{false};
    std::thread a([&] { rdy = true; cv.notify_one(); });
    { std::unique_lock<std::mutex> l(m); while (!rdy) cv.wait(l); }
    a.join();
}
RT_CASE(T, ok_cv) {
    std::mutex m; std::condition_variable cv; bool rdy = false;
    std::thread a([&] { std::lock_guard<std::mutex> l(m); rdy = true; cv.notify_one(); });
    { std::unique_lock<std::mutex> l(m); while (!rdy) cv.wait(l); }
    a.join();
}
RT_CASE(T, ok_timed) {
    std::mutex m; std::condition_variable cv;
    auto t0 = std::chrono::steady_clock::now();
    std::unique_lock<std::mutex> l(m);
    while (cv.wait_until(l, t0 + std::chrono::hours(1)) != std::cv_status::timeout) {}
    RT_CHECK(std::chrono::steady_clock::now() - t0 >= std::chrono::hours(1), "early");
}
RT_CASE(T, ok_exceptions) {
    auto f = [] {
        for (int i = 0; i < 3; ++i) {
            std::exception_ptr p;
            try { throw std::runtime_error("x"); } catch (...) { p = std::current_exception(); }
            try { std::rethrow_exception(p); } catch (std::runtime_error& e) { RT_CHECK(std::string(e.what()) == "x", "what"); }
        }
    };
    std::thread a(f), b(f), c(f); a.join(); b.join(); c.join();
}
RT_CASE(T, ok_exc_handover) {
    std::exception_ptr p; std::atomic<int> s{0};
    std::thread a([&] { try { throw 42; } catch (...) { p = std::current_exception(); } s.store(1, std::memory_order_release); });
    while (!s.load(std::memory_order_acquire)) std::this_thread::yield();
    try { std::rethrow_exception(p); } catch (int& i) { RT_CHECK(i == 42, "v"); i = 3; }
    p = nullptr; a.join();
}
RT_CASE(T, bad_dead_stack) {
    std::atomic<int*> p{nullptr};
    std::thread a([&] { int x = 3; p.store(&x); rt_yield(); });
    int* q; while (!(q = p.load())) std::this_thread::yield();
    a.join();
    *(volatile int*)q = 1;
}
RT_CASE(T, ok_stop) {
    std::stop_source s; int n = 0; std::atomic<int> done{0};
    std::thread a([&, t = s.get_token()] { std::stop_callback cb(t, [&] { ++n; }); while (!t.stop_requested()) std::this_thread::yield(); });
    std::thread b([&] { s.request_stop(); });
    a.join(); b.join();
}
RT_CASE(T, ok_shared_ptr) {
    auto p = std::make_shared<std::string>("hello hello hello hello hello hello");
    std::thread a([p] { RT_CHECK(p->size() > 3, "x"); }), b([p] { RT_CHECK(p->size() > 3, "x"); });
    p.reset(); a.join(); b.join();
}
RT_CASE(T, bad_assert) { std::atomic<int> x{0}; std::thread a([&] { x = 1; }); int v = x; rt_yield(); assert(v == x); a.join(); (void)v; }
RT_CASE(T, bad_livelock) { std::atomic<int> x{0}; while (!x) std::this_thread::yield(); }
RT_CASE(T, bad_double_free) { int* p = new int; delete p; __asm__ volatile("" : "+r"(p)); delete p; }
RT_CASE(T, bad_oob) { int* p = new int[2]; __asm__ volatile("" : "+r"(p)); p[2] = 1; delete[] p; }
RT_CASE(T, ok_release_seq) {
    int x = 0; std::atomic<int> f{0};
    std::thread a([&] { x = 1; f.store(1, std::memory_order_release); });
    std::thread b([&] { f.fetch_add(2, std::memory_order_relaxed); });
    std::thread c([&] { if (f.load(std::memory_order_acquire) & 1) RT_CHECK(x == 1, "x"); });
    a.join(); b.join(); c.join();
}
RT_CASE(T, ok_static) {
    auto f = [] { static std::mutex m; static int n = 0; std::lock_guard<std::mutex> l(m); ++n; };
    std::thread a(f), b(f); a.join(); b.join();
}
// only seen under valgrind: valgrind -q --soname-synonyms=somalloc=nouserintercepts ./toy --case vg_heap
RT_CASE(T, vg_heap) { int* p = new int[2]; __asm__ volatile("" : "+r"(p)); if (p[1] == 3) rt_count("x", 1); delete[] p; }
RT_CASE(T, vg_stack) { struct L { static __attribute__((noinline)) void f() { int a[4]; int* p = a; __asm__ volatile("" : "+r"(p)); if (p[1] == 3) rt_count("x", 1); } }; std::thread t([] { L::f(); }); t.join(); }
RT_CASE(T, bad_own_stack) { struct L { static __attribute__((noinline)) int* f() { int a[4] = { 1, 2, 3, 4 }; int* p = a; __asm__ volatile("" : "+r"(p)); p[1] = 2; return p; } }; int* p = L::f(); __asm__ volatile("" : "+r"(p)); if (p[1] == 3) rt_count("x", 1); }
RT_CASE(T, bad_uaf_seq) { int* p = new int[2]; __asm__ volatile("" : "+r"(p)); delete[] p; __asm__ volatile("" : "+r"(p)); p[1] = 1; }
RT_CASE(T, bad_shift) { volatile int n = 40; volatile int x = 1; x = x << n; }
RT_CASE(T, bad_index) { std::vector<int> v(2); volatile int n = 2; v[n] = 1; }
// injected faults: the k-th allocation or thread fails, and only that one (or all later ones too)
RT_CASE(T, ok_faults) {
    int k = (int)rt_rand(4); bool keep = rt_rand(2); int failed = 0, ok = 0;
    rt_fail_alloc(k, keep);
    for (int i = 0; i < 6; ++i) {
        void* p = nullptr; bool threw = false;
        if (i & 1) { p = malloc(8); threw = !p; } else try { p = ::operator new(8); } catch (std::bad_alloc&) { threw = true; }
        RT_CHECK(threw == (i == k || (keep && i > k)), "wrong-allocation-failed");
        if (threw) ++failed; else { ++ok; if (i & 1) free(p); else ::operator delete(p); }
    }
    RT_CHECK(rt_alloc_failed() && failed == (keep ? 6 - k : 1) && ok == 6 - failed, "wrong-number-of-failures");
    rt_fail_alloc(-1, 0); delete new int;
    rt_fail_alloc(100, 0); std::thread other([] { delete new int; }); other.join(); RT_CHECK(!rt_alloc_failed(), "failed-in-vain"); rt_fail_alloc(-1, 0);
    rt_fail_thread(1); std::thread a([] {}); bool threw = false;
    try { std::thread b([] {}); b.join(); } catch (std::system_error&) { threw = true; }
    rt_fail_thread(-1); a.join(); RT_CHECK(threw, "thread-created");
}
RT_CASE(T, bad_fault_leak) { int* p = new int(1); rt_fail_alloc(0, 0); try { int* q = new int(2); __asm__ volatile("" : "+r"(q)); delete q; delete p; } catch (std::bad_alloc&) { __asm__ volatile("" : "+r"(p)); } rt_fail_alloc(-1, 0); }
