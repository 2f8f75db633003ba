// Deterministic simulator core.  One run == one list of choices (all drawn through choose()).
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {
    // ---- the only source of nondeterminism -------------------------------------------------
    uint64_t choose(uint64_t n, const char* tag = "");          // [0,n); 0 is "simplest"
    inline bool chance(uint64_t num, uint64_t den, const char* tag = "") { return choose(den, tag) >= den - num; }
    inline int range(int lo, int hi, const char* tag = "") { return lo + (int) choose((uint64_t) (hi - lo + 1), tag); }

    // ---- history ---------------------------------------------------------------------------
    void ev(const char* tag, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0, uint64_t d = 0);  // event into the hashed history
    void evs(const char* tag, const std::string& s);
    void count(const char* name, uint64_t n = 1);               // probe / fault counters (merged over runs)
    void sched(uint64_t x);                                     // mixes into the interleaving signature
    void nontrivial();                                          // marks the run as having met a real scheduling/fault decision
    bool verbose();
    void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // text for replay output only (never hashed)
    [[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void finish_run();

    // ---- memory ----------------------------------------------------------------------------
    // Oracle / harness code: plain malloc, no fault, no yield.
    struct Pause { Pause(); ~Pause(); Pause(const Pause&) = delete; };
    struct Unpause { int saved; Unpause(); ~Unpause(); };
    void choose_environment();                                  // draws heap layout, garbage pattern, hash seed, schedule mode
    void set_sched_mode(int mode);
    void arm_alloc_failure(uint64_t kth);                       // kth armed allocation from now throws bad_alloc (1-based); 0 = off
    bool alloc_failure_fired();
    uint64_t armed_allocs();                                    // allocations since last arm call
    int64_t live_blocks();                                      // live blocks owned by code under test
    void check_heap();                                          // verifies redzones of all live blocks
    void set_alloc_yield(bool on);
    void describe_live(int max);                                // note() sizes of live blocks

    // ---- fibers: caller threads decided by the simulator ------------------------------------
    void run_fibers(std::vector<std::function<void()>> tasks, int switch_den);   // switch at every yield point with prob 1/switch_den
    void yield_point(const char* tag);
    void large_instance();     // from here on, running out of steps or memory ends the run without a verdict
    int current_fiber();                                        // -1 when not in a fiber

    // ---- clock ------------------------------------------------------------------------------
    void clock_set(int64_t ns);
    void clock_advance(int64_t ns);
    void clock_jump(int64_t ns);          // affects wall clock only
    int64_t clock_mono();
    void clock_auto(bool on);             // every read advances the clock by a random amount

    // ---- cooperative rescheduling (called through the guarded hooks) -------------------------
    std::size_t pick(std::size_t n, const char* tag);            // 0 == natural order
    void interrupt_hook(std::function<void()> f);                // called at every scheduling point
    uint64_t steps();

    struct Property { const char* id; void (*run)(); void (*warmup)(); };
}
extern const sim::Property SIM_PROPERTY;    // defined by each property's harness
#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) ::sim::fail(cls, __VA_ARGS__); } while (0)
