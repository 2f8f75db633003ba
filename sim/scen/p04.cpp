// Longest-trace and negative-weight searches return the optimum over all runs, or report divergence exactly when the optimum is unbounded.
#include "build.h"
using namespace bridge;
using L = int;

template<typename W, Trace_Type TT> static void engines(const model::Inst& I, bool via_hash) {
    constexpr auto mode = TT == Trace_Type::Longest ? model::MAX : model::MIN;
    using SW = internal::solver_weight<W, TT>;
    auto a = model::solve(I, mode, true);
    sim::count(!a.reach ? "probe.unreachable" : a.v.inf ? "probe.infinite" : "probe.finite");
    auto pda = make_pda<L, W>(I, via_hash);
    using Inst = SolverInstance<L, W, size_t, true, TraceInfoType::Pair>;
    auto fresh = [&]() { return Inst(PDA<L, W>(pda), make_aut<L, TraceInfoType::Pair>(pda, I.A), make_aut<L, TraceInfoType::Pair>(pda, I.B)); };
    auto check = [&](const char* name, bool r, auto&& get) {
        std::string n = std::string(TT == Trace_Type::Longest ? "longest-" : "fixed-") + name;
        sim::ev(name, r, a.reach);
        SIM_CHECK(r == a.reach, ("verdict-" + n).c_str(), "%s says %s, but the target is %s", name, r ? "reachable" : "unreachable", a.reach ? "reachable" : "unreachable");
        auto [t, w] = get();
        sim::Pause p;
        if (!r) { SIM_CHECK(t.empty() && w == SW::max(), ("answer-without-run-" + n).c_str(), "%s: unreachable, but a trace of %zu configurations weighing %s was returned", name, t.size(), model::str(vec_of(w)).c_str()); return; }
        auto tr = conv<L>(t); note_trace(name, tr);
        bool inf = w == SW::bottom() && (W::is_signed || TT == Trace_Type::Longest);
        if (sim::verbose()) sim::note("%s: weight %s%s, optimum %s%s", name, inf ? "infinite " : "", model::str(vec_of(w)).c_str(), a.v.inf ? "infinite " : "", model::str(a.v.w).c_str());
        sim::ev(name, tr.size(), inf);
        SIM_CHECK(inf == a.v.inf, ("infinite-" + n).c_str(), "%s: optimum reported as %s, is %s", name, inf ? "infinite" : model::str(vec_of(w)).c_str(), a.v.inf ? "infinite" : model::str(a.v.w).c_str());
        if (inf) return;
        SIM_CHECK(model::cmp(vec_of(w), a.v.w) == 0, ("weight-" + n).c_str(), "%s: reported weight %s, optimum is %s", name, model::str(vec_of(w)).c_str(), model::str(a.v.w).c_str());
        model::Vec tot; auto e = model::check_trace(I, tr, mode, tot);
        SIM_CHECK(e.empty(), ("trace-" + n).c_str(), "%s: %s", name, e.c_str());
        SIM_CHECK(model::cmp(tot, a.v.w) == 0, ("trace-weight-" + n).c_str(), "%s: returned trace weighs %s, optimum is %s", name, model::str(tot).c_str(), model::str(a.v.w).c_str());
        if (tr.size() > 6) sim::count("probe.long_traces");
    };
    int which = (int) sim::choose(3, "engine");
    if (which == 0) { auto i = fresh(); bool r = Solver::pre_star_fixed_point_accepts<TT>(*i); check("pre", r, [&] { return Solver::get_trace<TT>(*i); }); }
    else if (which == 1) { auto i = fresh(); bool r = Solver::post_star_fixed_point_accepts<TT>(*i); check("post", r, [&] { return Solver::get_trace<TT>(*i); }); }
    else {
        auto i = fresh(); auto j = fresh();
        auto [r, pre] = Solver::interleaving_fixed_point_accepts<TT>(*i, *j);
        bool used_pre = pre; sim::count(pre ? "probe.interleaved_pre_won" : "probe.interleaved_post_won");
        check("interleaved", r, [&] { return Solver::get_trace<TT>(used_pre ? *j : *i); });
    }
}
static void run() {
    sim::choose_environment();
    model::GenOpts o; o.scale = 24; o.dims = 9; o.max_walk = 8; o.max_rules = 8; o.max_states = 4; o.max_labels = 3;
    int k = (int) sim::choose(9, "kind");
    o.wmode = k < 3 ? 1 : 2; o.wide_weights = k == 2 || k >= 7;
    auto I = model::gen(o);
    bool h = sim::chance(1, 2, "via-hash");
    if (k == 0) engines<weight<uint32_t>, Trace_Type::Longest>(I, h);
    else if (k == 1) engines<weight<uint32_t>, Trace_Type::ShortestFixedPoint>(I, h);
    else if (k == 2) engines<weight<uint64_t>, Trace_Type::Longest>(I, h);
    else if (k <= 4) engines<weight<int32_t>, Trace_Type::Longest>(I, h);
    else if (k <= 6) engines<weight<int32_t>, Trace_Type::ShortestFixedPoint>(I, h);
    else if (k == 8) { if (sim::chance(1, 2, "longest")) engines<weight<int64_t>, Trace_Type::Longest>(I, h); else engines<weight<int64_t>, Trace_Type::ShortestFixedPoint>(I, h); }
    else { if (sim::chance(1, 2, "longest")) engines<weight<double>, Trace_Type::Longest>(I, h); else engines<weight<double>, Trace_Type::ShortestFixedPoint>(I, h); }
}
extern const sim::Property SIM_PROPERTY{"P04", run, nullptr};
