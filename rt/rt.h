// Interface between the controlled runtime (schedrt.cpp, not instrumented) and
// the harnesses (compiled with -fsanitize=thread, so that every memory access
// and atomic operation of harness and library code calls into the runtime).
#pragma once
#include <cstdint>
#include <cstddef>

extern "C" {
    // random choice belonging to the workload (not to the schedule)
    uint64_t rt_rand(uint64_t n);          // uniform in [0, n)
    // virtual time, in ns
    uint64_t rt_now();
    // report a violation of the property; does not return
    void rt_fail(const char* key, const char* msg) __attribute__((noreturn));
    // count an observed event (shows up in the evidence)
    void rt_count(const char* what, uint64_t n);
    // append to the (unsynchronised, totally ordered) observation log of this execution
    void rt_log(const char* what, int64_t a, int64_t b);
    // describe the workload of this execution (printed with violations and samples)
    void rt_desc(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    // an explicit scheduling point
    void rt_yield();
    // current logical thread
    int rt_tid();
    // logical step counter: a total order over everything in this execution
    uint64_t rt_step();
    // 1 if the runtime is exploring concurrent schedules, 0 in a plain build
    int rt_controlled();
    // A variable that only the monitor reads and writes: no race detection, no
    // happens-before. Slots are reset to 0 for every execution.
    int64_t rt_get(int slot);
    void rt_set(int slot, int64_t v);
    int64_t rt_add(int slot, int64_t v);   // returns the new value
    // allow leaks (bytes) in this execution: used only for listed findings
    void rt_ignore_leaks(int on);
    // live heap allocations made during this execution
    uint64_t rt_live_allocs();
    // the whole execution: disable weak-memory stale reads (used by cases with their own spin loops)
    void rt_no_stale();
    // block the calling logical thread until pred slot becomes >= v (monitor-level wait, no happens-before)
    void rt_wait_slot(int slot, int64_t v);
    // returns when no other logical thread can run (all others are blocked or finished)
    void rt_quiesce();
    // virtual time only advances when every thread is blocked (no random jumps to the next deadline)
    void rt_no_time_jumps();
    // the calling thread's n-th allocation from now (0: the next one) throws std::bad_alloc; with keep, all
    // later ones too; n < 0: none from now on
    void rt_fail_alloc(int64_t n, int keep);
    int rt_alloc_failed();                 // since the last rt_fail_alloc(n >= 0)
    void rt_fail_thread(int64_t n);        // the n-th thread that the calling thread creates cannot be created
    // sleep virtual time
    void rt_sleep(uint64_t ns);
}

#define RT_STR2(x) #x
#define RT_STR(x) RT_STR2(x)
#define RT_CHECK(cond, key) do { if (!(cond)) rt_fail(key, #cond); } while (0)

typedef void (*rt_case_fn)();
struct rt_case_reg {
    rt_case_reg(const char* prop, const char* name, rt_case_fn fn, int weight = 1);
};
#define RT_CASE(prop, name) \
    static void rtcase_##name(); \
    static rt_case_reg rtreg_##name(#prop, #name, rtcase_##name); \
    static void rtcase_##name()
#define RT_CASE_W(prop, name, w) \
    static void rtcase_##name(); \
    static rt_case_reg rtreg_##name(#prop, #name, rtcase_##name, w); \
    static void rtcase_##name()
