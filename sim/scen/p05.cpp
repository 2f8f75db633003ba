// Interrupted searches: failing allocations, throwing or stopping callbacks and abandoned saturations leave everything sound and usable.
#include "rules.h"
#include <pdaaal/internal/PdaSaturation.h>
using namespace bridge;
using L = int;
using model::Inst; using model::Config;
struct Stop : std::exception {};

static std::vector<uint32_t> enc(const auto& pda, const Config& c) { std::vector<uint32_t> st; for (int l : c.stack) st.push_back((uint32_t) pda.exists_label(lab<L>(l)).second); return st; }
// Configurations of the reference pre*(B): membership through the saturated edges.
struct Ref {
    const Inst& I; model::Aut pre; std::vector<Config> probes, post_probes; std::map<Config, bool> post;
    explicit Ref(const Inst& i) : I(i) {
        sim::Pause p;
        pre = I.B; for (auto& [e, v] : model::pre_star(model::unweighted(I), I.B, model::MIN, false)) pre.edges.push_back(e);
        for (int s = 0; s < I.ns; s++) { probes.push_back({s, {}}); for (int a = 0; a < I.nl; a++) { probes.push_back({s, {a}}); for (int b = 0; b < I.nl; b++) probes.push_back({s, {a, b}}); } }
        for (int k = 0; k < 4; k++) { auto c = model::gen_config(I.ns, I.nl, true); probes.push_back(c); if (!c.stack.empty()) post_probes.push_back(c); }
    }
    bool in_post(const Config& c) { sim::Pause p; auto it = post.find(c); if (it != post.end()) return it->second; Inst J = I; J.B = {}; J.B.n = I.ns; J.B.acc.assign(I.ns, 0); model::add_chain(J.B, c, false); return post[c] = model::reachable(J); }
};
// what: 0 sound only, 1 exact
template<typename A, typename P> static void check_pre(Ref& R, const A& aut, const P& pda, bool exact, const char* when) {
    for (auto& c : R.probes) {
        std::vector<uint32_t> st; { sim::Pause p; st = enc(pda, c); }
        bool r = aut.accepts(c.state, st), want = R.pre.accepts(c), orig = R.I.B.accepts(c);
        SIM_CHECK(!r || want, "pre-unsound", "%s: the automaton accepts %s, which cannot reach the target", when, model::show(c).c_str());
        SIM_CHECK(r || !orig, "pre-lost", "%s: the automaton no longer accepts %s", when, model::show(c).c_str());
        if (exact) SIM_CHECK(r || !want, "pre-incomplete", "%s: the automaton does not accept %s, which can reach the target", when, model::show(c).c_str());
    }
}
template<typename A, typename P> static void check_post(Ref& R, const A& aut, const P& pda, bool exact, const char* when) {
    for (auto& c : R.post_probes) {
        std::vector<uint32_t> st; { sim::Pause p; st = enc(pda, c); }
        bool r = aut.accepts(c.state, st), want = R.in_post(c), orig = R.I.A.accepts(c);
        SIM_CHECK(!r || want, "post-unsound", "%s: the automaton accepts %s, which is not reachable", when, model::show(c).c_str());
        SIM_CHECK(r || !orig, "post-lost", "%s: the automaton no longer accepts %s", when, model::show(c).c_str());
        if (exact) SIM_CHECK(r || !want, "post-incomplete", "%s: the automaton does not accept %s, which is reachable", when, model::show(c).c_str());
    }
}
static void check_trace(const Inst& I, const std::vector<Config>& t, const char* name) {
    sim::Pause p; note_trace(name, t); model::Vec tot; auto e = model::check_trace(I, t, model::MIN, tot);
    SIM_CHECK(e.empty(), "trace-after-fault", "%s: %s", name, e.c_str());
}
// One complete session: build everything, search, take the trace.
template<typename W> static void session(const Inst& I, bool expect, int engine, bool via_hash) {
    auto pda = make_pda<L, W>(I, via_hash);
    auto verdict = [&](bool r) { SIM_CHECK(r == expect, "verdict-after-fault", "engine %d says %d, expected %d", engine, r, expect); };
    auto judge = [&](auto&& trace) { auto t = conv<L>(trace); check_trace(I, t, "session"); };
    if constexpr (W::is_weight) if (engine >= 4) {
        if (engine == 4) { SolverInstance<L, W> i(PDA<L, W>(pda), make_aut<L>(pda, I.A), make_aut<L>(pda, I.B)); bool r = Solver::post_star_accepts<Trace_Type::Shortest>(*i); verdict(r); if (r) judge(Solver::get_trace<Trace_Type::Shortest>(*i).first); }
        else if (engine == 5) { SolverInstance<L, W> i(PDA<L, W>(pda), make_aut<L>(pda, I.A), make_aut<L>(pda, I.B)); bool r = Solver::pre_star_accepts<Trace_Type::Shortest>(*i); verdict(r); if (r) judge(Solver::get_trace<Trace_Type::Shortest>(*i).first); }
        else if (engine == 11) { SolverInstance<L, W> i(PDA<L, W>(pda), make_aut<L>(pda, I.A), make_aut<L>(pda, I.B)); bool r = Solver::dual_search_accepts<Trace_Type::Shortest>(*i); verdict(r); if (r) judge(Solver::get_trace_dual_search<Trace_Type::Shortest>(*i).first); }
        else {
            SolverInstance<L, W, size_t, true, TraceInfoType::Pair> i(PDA<L, W>(pda), make_aut<L, TraceInfoType::Pair>(pda, I.A), make_aut<L, TraceInfoType::Pair>(pda, I.B));
            constexpr auto FP = Trace_Type::ShortestFixedPoint, LO = Trace_Type::Longest;
            if (engine <= 7) { bool r = engine == 6 ? Solver::pre_star_fixed_point_accepts<FP>(*i) : Solver::post_star_fixed_point_accepts<FP>(*i); verdict(r); if (r) judge(Solver::get_trace<FP>(*i).first); }
            else if (engine <= 9) { bool r = engine == 8 ? Solver::pre_star_fixed_point_accepts<LO>(*i) : Solver::post_star_fixed_point_accepts<LO>(*i); verdict(r); if (r) { auto [t, w] = Solver::get_trace<LO>(*i); if (w != internal::solver_weight<W, LO>::bottom()) judge(t); } }
            else { SolverInstance<L, W, size_t, true, TraceInfoType::Pair> j(PDA<L, W>(pda), make_aut<L, TraceInfoType::Pair>(pda, I.A), make_aut<L, TraceInfoType::Pair>(pda, I.B)); auto [r, pre] = Solver::interleaving_fixed_point_accepts<FP>(*i, *j); verdict(r); if (r) judge(Solver::get_trace<FP>(pre ? *j : *i).first); }
        }
        return;
    }
    SolverInstance<L, W> i(PDA<L, W>(pda), make_aut<L>(pda, I.A), make_aut<L>(pda, I.B));
    bool r = engine % 4 == 0 ? Solver::post_star_accepts<Trace_Type::Any>(*i) : engine % 4 == 1 ? Solver::pre_star_accepts<Trace_Type::Any>(*i) : engine % 4 == 2 ? Solver::dual_search_accepts<Trace_Type::Any>(*i) : Solver::pre_star_accepts_no_ET(*i);
    verdict(r);
    if (r) { if (engine % 4 == 2) judge(Solver::get_trace_dual_search<Trace_Type::Any>(*i)); else { judge(Solver::get_trace<Trace_Type::Any>(*i)); check_rules<L>(I, pda, "session", Solver::get_rule_trace_and_paths<Trace_Type::Any>(*i), true); } }
}
// Runs f with the kth allocation failing; true if f was cut short.
template<typename F> static bool faulty(uint64_t k, F&& f) {
    bool threw = false, other = false;
    sim::arm_alloc_failure(k);
    try { f(); } catch (const std::bad_alloc&) { threw = true; } catch (...) { other = true; }
    bool fired = sim::alloc_failure_fired(); sim::arm_alloc_failure(0);
    SIM_CHECK(!other, "wrong-exception", "a failing allocation surfaced as another exception");
    SIM_CHECK(!threw || fired, "spurious-bad-alloc", "bad_alloc although no allocation failed");
    if (fired) { sim::count("fault.alloc"); sim::nontrivial(); }
    sim::check_heap();
    return threw;
}
template<typename F> static uint64_t allocations_of(F&& f) { sim::arm_alloc_failure(1ull << 60); f(); auto n = sim::armed_allocs(); sim::arm_alloc_failure(0); return n; }

template<typename W> static void whole_session(const Inst& I, bool expect) {
    int engine = (int) sim::choose(W::is_weight ? 12 : 4, "engine"); bool h = sim::chance(1, 2, "via-hash");
    auto base = sim::live_blocks();
    auto n = allocations_of([&] { session<W>(I, expect, engine, h); });
    SIM_CHECK(sim::live_blocks() == base, "leak-session", "%lld blocks left after a session", (long long) (sim::live_blocks() - base));
    int rounds = 1 + (int) sim::choose(3, "rounds");
    for (int r = 0; r < rounds; r++) {
        faulty(1 + sim::choose(n, "kth"), [&] { session<W>(I, expect, engine, h); });
        if (sim::live_blocks() != base) sim::describe_live(8);
        SIM_CHECK(sim::live_blocks() == base, "leak-after-fault", "%lld blocks left after a failed session", (long long) (sim::live_blocks() - base));
    }
    session<W>(I, expect, engine, h);
}
template<typename W> static void surviving(const Inst& I, bool expect) {
    Ref R(I);
    auto pda = make_pda<L, W>(I, sim::chance(1, 2, "via-hash"));
    bool pre = sim::chance(1, 2, "pre");
    if (pre) {
        auto aut = make_aut<L>(pda, I.B);
        int rounds = 1 + (int) sim::choose(3, "rounds");
        for (int r = 0; r < rounds; r++) {
            bool cut = faulty(1 + sim::choose(120, "kth"), [&] { Solver::pre_star<Trace_Type::Any, W>(aut); });
            check_pre(R, aut, pda, !cut, "after a failed search");
        }
        Solver::pre_star<Trace_Type::Any, W>(aut); check_pre(R, aut, pda, true, "after repeating the search");
        for (auto& c : R.probes) if (R.pre.accepts(c)) {   // the traces of the repaired automaton are real
            auto st = enc(pda, c); auto t = Solver::get_trace<Trace_Type::Any>(pda, aut, c.state, st);
            sim::Pause p; Inst J = I; J.A = {}; J.A.n = I.ns; J.A.acc.assign(I.ns, 0); model::add_chain(J.A, c, false); check_trace(J, conv<L>(t), "member");
        }
    } else {
        auto aut = make_aut<L>(pda, I.A);
        bool cut = faulty(1 + sim::choose(150, "kth"), [&] { Solver::post_star<Trace_Type::Any, W>(aut); });
        check_post(R, aut, pda, !cut, "after a failed search");
        auto again = make_aut<L>(pda, I.A); Solver::post_star<Trace_Type::Any, W>(again); check_post(R, again, pda, true, "after a fresh search");
    }
    // Extraction from a finished instance can fail and be repeated.
    SolverInstance<L, W> i(PDA<L, W>(pda), make_aut<L>(pda, I.A), make_aut<L>(pda, I.B));
    bool r = pre ? Solver::pre_star_accepts<Trace_Type::Any>(*i) : Solver::post_star_accepts<Trace_Type::Any>(*i);
    SIM_CHECK(r == expect, "verdict-after-fault", "says %d, expected %d", r, expect);
    if (r) {
        for (int k = 0; k < 2; k++) faulty(1 + sim::choose(60, "kth"), [&] { auto t = Solver::get_trace<Trace_Type::Any>(*i); check_trace(I, conv<L>(t), "extract"); });
        faulty(1 + sim::choose(60, "kth"), [&] { check_rules<L>(I, pda, "extract", Solver::get_rule_trace_and_paths<Trace_Type::Any>(*i), true); });
        auto t = Solver::get_trace<Trace_Type::Any>(*i); check_trace(I, conv<L>(t), "extract-again");
        check_rules<L>(I, pda, "extract-again", Solver::get_rule_trace_and_paths<Trace_Type::Any>(*i), true);
    }
}
template<typename A> static std::set<std::tuple<size_t, uint32_t, size_t>> edges_of(const A& aut) {
    std::set<std::tuple<size_t, uint32_t, size_t>> s; for (auto& f : aut.states()) for (auto& [to, ls] : f->_edges) for (auto& [l, t] : ls) s.emplace(f->_id, l, to); return s;
}
template<typename W> static void callbacks(const Inst& I) {
    Ref R(I);
    auto pda = make_pda<L, W>(I, sim::chance(1, 2, "via-hash"));
    int dir = (int) sim::choose(W::is_weight ? 4 : 2, "dir"); bool pre = dir % 2 == 0, shortest = dir >= 2;
    auto aut = make_aut<L>(pda, pre ? I.B : I.A);
    std::set<std::tuple<size_t, uint32_t, size_t>> before, seen; { sim::Pause p; before = edges_of(aut); }
    int action = (int) sim::choose(4, "action"); uint64_t nth = action == 0 ? 0 : 1 + sim::choose(action == 3 ? 6 : 30, "nth"), calls = 0, after = 0; bool fired = false, threw = false, res = false;
    auto on_edge = [&](size_t from, uint32_t label, size_t to) {
        sim::Pause p; calls++; if (fired) after++;
        SIM_CHECK(aut.get_edge(from, label, to) != nullptr, "callback-edge", "callback called with (%zu,%u,%zu), which is not an edge of the automaton", from, label, to);
        if (!shortest) SIM_CHECK(seen.emplace(from, label, to).second && !before.count({from, label, to}), "callback-repeat", "edge (%zu,%u,%zu) is reported twice or was there before", from, label, to);
        else seen.emplace(from, label, to);
        if (nth && calls == nth) { fired = true; sim::count(action == 1 ? "fault.callback_throw" : "fault.callback_stop"); sim::nontrivial(); if (action == 1) throw Stop(); return true; }
        return false;
    };
    try {
        if (pre) { auto fn = [&](size_t f, uint32_t l, size_t t, internal::edge_annotation_t<W>, const auto&) { return on_edge(f, l, t); };
            if constexpr (W::is_weight) { if (shortest) res = Solver::pre_star<Trace_Type::Shortest, W, true>(aut, fn); else res = Solver::pre_star<Trace_Type::Any, W, true>(aut, fn); }
            else res = Solver::pre_star<Trace_Type::Any, W, true>(aut, fn);
        } else if (!shortest) { internal::PostStarSaturation<W, true> s(aut, [&](size_t f, uint32_t l, size_t t, internal::edge_annotation_t<W>) { return on_edge(f, l, t); }); res = s.run(); }
        else if constexpr (W::is_weight) { internal::PostStarShortestSaturation<W, true, true> s(aut, [&](size_t f, uint32_t l, size_t t, internal::edge_annotation_t<W>, const auto&) { return on_edge(f, l, t); }); res = s.run(); }
    } catch (const Stop&) { threw = true; }
    sim::check_heap();
    sim::ev("callback", dir, calls, res, threw);
    SIM_CHECK(threw == (fired && action == 1), "callback-exception", "the exception of the callback was %s", threw ? "invented" : "swallowed");
    if (!threw) SIM_CHECK(res == fired, "callback-result", "the callback %s, but the search returned %d", fired ? "asked to stop" : "never asked to stop", res);
    if (!shortest) SIM_CHECK(after == 0, "callback-after-stop", "the callback was called %llu times after it had asked to stop", (unsigned long long) after);
    if (pre) check_pre(R, aut, pda, !fired, "after a stopped search"); else check_post(R, aut, pda, !fired, "after a stopped search");
    if (!fired) { sim::Pause p; for (auto& e : edges_of(aut)) SIM_CHECK(before.count(e) || seen.count(e), "callback-missed", "edge (%zu,%u,%zu) was added without telling the callback", std::get<0>(e), std::get<1>(e), std::get<2>(e)); }
    if (pre) { Solver::pre_star<Trace_Type::Any, W>(aut); check_pre(R, aut, pda, true, "after completing the search"); }
}
// Saturations that are stepped by the caller, abandoned, and taken up again.
template<typename W> static void stepped(const Inst& I) {
    Ref R(I);
    auto pda = make_pda<L, W>(I, sim::chance(1, 2, "via-hash"));
    auto b = make_aut<L>(pda, I.B); using A = decltype(b); auto a = std::make_unique<A>(make_aut<L>(pda, I.A));
    using Pre = internal::PreStarSaturation<W, false>; using Post = internal::PostStarSaturation<W, false>;
    internal::early_termination_fn2<W> never = [](size_t, uint32_t, size_t, internal::edge_annotation_t<W>, const auto&) { return false; };
    auto post = std::make_unique<Post>(*a); auto pre = std::make_unique<Pre>(b, never);
    int restarts = (int) sim::choose(4, "restarts"), slices = 0;
    while (true) {
        if (!pre->workset_empty() && (post->workset_empty() || sim::chance(1, 2, "who"))) pre->step();
        else if (!post->workset_empty()) post->step();
        else break;
        sim::sched(++slices);
        if (restarts && sim::chance(1, 12, "restart")) { restarts--; pre.reset(); sim::check_heap(); check_pre(R, b, pda, false, "after an abandoned search"); sim::count("fault.abandoned"); sim::nontrivial(); pre = std::make_unique<Pre>(b, never); }
        if (sim::chance(1, 40, "post-abandon")) { post.reset(); sim::check_heap(); check_post(R, *a, pda, false, "after an abandoned search"); sim::count("fault.abandoned"); a = std::make_unique<A>(make_aut<L>(pda, I.A)); post = std::make_unique<Post>(*a); }
    }
    check_pre(R, b, pda, true, "after stepping to the end"); check_post(R, *a, pda, true, "after stepping to the end");
}
template<typename W> static void go(const Inst& I, bool expect) {
    switch (sim::choose(4, "mode")) { case 0: whole_session<W>(I, expect); break; case 1: surviving<W>(I, expect); break; case 2: callbacks<W>(I); break; default: stepped<W>(I); }
}
static void run() {
    sim::choose_environment();
    model::GenOpts o; o.scale = 30; o.max_states = 4; o.max_labels = 3; int wk = (int) sim::choose(3, "weight-kind"); o.wmode = wk == 2 ? 1 : 0;
    auto I = model::gen(o);
    bool expect = model::reachable(I);
    sim::count(expect ? "probe.reachable" : "probe.unreachable");
    if (wk <= 1) go<weight<void>>(I, expect); else go<weight<uint32_t>>(I, expect);
}
extern const sim::Property SIM_PROPERTY{"P05", run, nullptr};
