// Measured durations are the time that really passed while the stopwatch ran: under stalls, wall-clock jumps in both directions, and any history of
// starts, stops, copies and readings; never negative, never counting pauses, and never losing earlier laps.
#include "model.h"
#include <utils/stopwatch.h>
#include <cmath>
#include <memory>
struct Ref { bool running; int64_t acc, since; int slack; };      // slack: clock readings that fall inside the measured time
static int64_t elapsed(const Ref& r) { return r.acc + (r.running ? sim::clock_mono() - r.since : 0); }
static void run() {
    sim::choose_environment(); sim::clock_set(1000000000ll * (1 + (int64_t) sim::choose(4, "boot") * 1000000));
    bool autotick = sim::chance(1, 3, "ticks"); sim::clock_auto(autotick);
    const int64_t tick = autotick ? 1000000 : 0;      // a reading takes less than this
    std::vector<std::unique_ptr<stopwatch>> w; std::vector<Ref> ref; { sim::Pause p; w.reserve(8); ref.reserve(8); }
    auto make = [&] { bool on = sim::chance(2, 3, "running"); int64_t t = sim::clock_mono(); w.push_back(sim::chance(1, 4, "default") && on ? std::make_unique<stopwatch>() : std::make_unique<stopwatch>(on)); ref.push_back({on, 0, t, 2}); };
    make();
    int ops = 2 + (int) sim::choose(24, "ops"); int64_t covered = 0;
    for (int i = 0; i < ops; i++) {
        size_t k = sim::choose(w.size(), "which"); auto& s = *w[k]; auto& r = ref[k];
        switch (sim::choose(11, "op")) {
            case 0: case 1: case 2: { static const int64_t step[] = {1, 1000, 1000000, 37000000, 1000000000, 3600000000000ll, 86400000000000ll}; int64_t d = step[sim::choose(7, "step")] * (1 + (int64_t) sim::choose(9, "times")); if (d >= 3600000000000ll) { sim::count("fault.stall"); sim::nontrivial(); } sim::clock_advance(d); covered += d; sim::note("%lld ns pass", (long long) d); break; }
            case 3: { int64_t d = (sim::chance(1, 2, "back") ? -1 : 1) * (1 + (int64_t) sim::choose(100, "jump")) * 60000000000ll; sim::clock_jump(d); sim::count(d < 0 ? "fault.clock_jump_back" : "fault.clock_jump_forward"); sim::nontrivial(); sim::note("wall clock jumps by %lld ns", (long long) d); break; }
            case 4: case 5: { int64_t t = sim::clock_mono(); s.start(); if (!r.running) { r.running = true; r.since = t; r.slack++; } else sim::count("probe.start_twice"); sim::note("start %zu", k); break; }
            case 6: case 7: { s.stop(); if (r.running) { r.acc += sim::clock_mono() - r.since; r.running = false; r.slack++; } else sim::count("probe.stop_twice"); sim::note("stop %zu", k); break; }
            case 8: if (w.size() < 6) { make(); sim::note("new stopwatch %zu", w.size() - 1); } break;
            case 9: if (w.size() < 6) { w.push_back(std::make_unique<stopwatch>(s)); ref.push_back(Ref(r)); sim::count("probe.copied"); sim::note("copy of %zu", k); } else { size_t j = sim::choose(w.size(), "to"); *w[j] = s; ref[j] = Ref(r); sim::count("probe.copied"); } break;
            default: sim::count("probe.reads"); break;
        }
        for (size_t j = 0; j < w.size(); j++) {
            SIM_CHECK(w[j]->running() == ref[j].running, "running", "stopwatch %zu says it %s", j, w[j]->running() ? "runs" : "stands");
            int64_t lo = elapsed(ref[j]) - ref[j].slack * tick; double d = w[j]->duration(); int64_t hi = elapsed(ref[j]) + ref[j].slack * tick;
            double eps = 2e-9 + std::fabs((double) hi) * 1e-9 * 1e-12;
            SIM_CHECK(d >= 0, "negative", "stopwatch %zu measured %.9f s", j, d);
            SIM_CHECK(d >= lo * 1e-9 - eps && d <= hi * 1e-9 + eps, ref[j].running ? "wrong-while-running" : "wrong", "stopwatch %zu measured %.9f s, but it ran for %.9f s", j, d, elapsed(ref[j]) * 1e-9);
            if (sim::verbose()) sim::note("  %zu: %.9f s", j, d);
            sim::ev("duration", j, (uint64_t) (d * 1e9));
            if (!ref[j].running && ref[j].acc > 0 && ref[j].slack > 3) sim::count("probe.laps");
        }
    }
    sim::count("time.simulated_ns", (uint64_t) covered);
}
extern const sim::Property SIM_PROPERTY{"P17", run, nullptr};
