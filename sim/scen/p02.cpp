// Every positive answer comes with a witness that is a real run from an initial to a final configuration.
#include "rules.h"
using namespace bridge;
using L = int;
using W0 = weight<void>;
using WU = weight<uint32_t>;

static void check(const model::Inst& I, const char* name, const std::vector<model::Config>& t, bool expect) {      // expect: the search said yes
    sim::Pause p;
    note_trace(name, t);
    sim::ev(name, t.size(), expect);
    if (!expect) { SIM_CHECK(t.empty(), (std::string("trace-without-answer-") + name).c_str(), "%s: target unreachable but a trace of %zu configurations was returned", name, t.size()); return; }
    model::Vec tot; auto e = model::check_trace(I, t, model::MIN, tot);
    SIM_CHECK(e.empty(), (std::string("trace-") + name).c_str(), "%s: %s", name, e.c_str());
    sim::count("probe.trace_steps", t.size() - 1);
    if (t.size() > 8) sim::count("probe.long_traces");
}
template<typename W> static void traces(const model::Inst& I, bool expect, bool via_hash) {
    auto pda = make_pda<L, W>(I, via_hash);
    auto fresh = [&]() { return SolverInstance<L, W>(PDA<L, W>(pda), make_aut<L>(pda, I.A), make_aut<L>(pda, I.B)); };
    bool neg = false; for (auto& r : I.rules) neg |= model::cmp(r.w, {}) < 0;
    int which = (int) sim::choose(W::is_weight ? 8 : 6, "engine");
    if (which == 0) {
        auto i = fresh(); bool r = Solver::post_star_accepts<Trace_Type::Any>(*i);
        check(I, "post", conv<L>(Solver::get_trace<Trace_Type::Any>(*i)), r); check_rules<L>(I, pda, "post", Solver::get_rule_trace_and_paths<Trace_Type::Any>(*i), r);
    } else if (which == 1) {
        auto i = fresh(); bool r = Solver::pre_star_accepts<Trace_Type::Any>(*i);
        check(I, "pre", conv<L>(Solver::get_trace<Trace_Type::Any>(*i)), r); check_rules<L>(I, pda, "pre", Solver::get_rule_trace_and_paths<Trace_Type::Any>(*i), r);
    } else if (which == 2) {
        auto i = fresh(); bool r = Solver::dual_search_accepts<Trace_Type::Any>(*i);
        check(I, "dual", conv<L>(Solver::get_trace_dual_search(*i)), r); check_rules<L>(I, pda, "dual", Solver::get_rule_trace_and_paths<Trace_Type::Any, true>(*i), r);
    } else if (which == 3) {
        auto i = fresh(); bool r = Solver::post_star_accepts_no_ET(*i);
        check(I, "post-noet", conv<L>(Solver::get_trace<Trace_Type::Any>(*i)), r); check_rules<L>(I, pda, "post-noet", Solver::get_rule_trace_and_paths<Trace_Type::Any>(*i), r);
    } else if (which == 4) {
        auto i = fresh(); bool r = Solver::pre_star_accepts_no_ET(*i);
        check(I, "pre-noet", conv<L>(Solver::get_trace<Trace_Type::Any>(*i)), r); check_rules<L>(I, pda, "pre-noet", Solver::get_rule_trace_and_paths<Trace_Type::Any>(*i), r);
    } else if (which == 6) {
        if constexpr (W::is_weight) if (!neg) {
            auto i = fresh(); int d = (int) sim::choose(4, "direction");
            if (d == 2) { bool r = Solver::dual_search_accepts<Trace_Type::Shortest>(*i); check(I, "dual-shortest", conv<L>(Solver::get_trace_dual_search<Trace_Type::Shortest>(*i).first), r); check_rules<L>(I, pda, "dual-shortest", Solver::get_rule_trace_and_paths<Trace_Type::Shortest, true>(*i).first, r); }
            else { bool r = d == 0 ? Solver::post_star_accepts<Trace_Type::Shortest>(*i) : d == 1 ? Solver::pre_star_accepts<Trace_Type::Shortest>(*i) : Solver::post_star_accepts_no_ET<Trace_Type::Shortest>(*i); check(I, "shortest", conv<L>(Solver::get_trace<Trace_Type::Shortest>(*i).first), r); check_rules<L>(I, pda, "shortest", Solver::get_rule_trace_and_paths<Trace_Type::Shortest>(*i).first, r); }
            sim::count("probe.shortest");
        }
    } else if (which == 7) {
        if constexpr (W::is_weight && !W::is_vector) {
            auto fixed = [&]<Trace_Type T>(const char* name) {
                auto mk = [&] { return SolverInstance<L, W, size_t, true, TraceInfoType::Pair>(PDA<L, W>(pda), make_aut<L, TraceInfoType::Pair>(pda, I.A), make_aut<L, TraceInfoType::Pair>(pda, I.B)); };
                auto i = mk(), j = mk(); int d = (int) sim::choose(3, "direction"); bool r, second = false;
                if (d == 0) r = Solver::post_star_fixed_point_accepts<T>(*i); else if (d == 1) r = Solver::pre_star_fixed_point_accepts<T>(*i); else std::tie(r, second) = Solver::interleaving_fixed_point_accepts<T>(*i, *j);
                auto [t, w] = Solver::get_trace<T>(second ? *j : *i);
                bool inf = r && w == internal::solver_weight<W, T>::bottom() && (W::is_signed || T == Trace_Type::Longest);       // no single run has the optimum
                if (!inf) check(I, name, conv<L>(t), r);
                sim::count("probe.fixed_point");
            };
            if (sim::chance(1, 2, "longest")) fixed.template operator()<Trace_Type::Longest>("longest"); else fixed.template operator()<Trace_Type::ShortestFixedPoint>("fixed-point");
        }
    } else {
        // single configuration queries on a saturated automaton
        model::Config c; bool want; model::Inst J;
        { sim::Pause p; c = model::gen_config(I.ns, I.nl, true); J = I; J.A = {}; J.A.n = I.ns; J.A.acc.assign(I.ns, 0); model::add_chain(J.A, c, false); want = model::reachable(J); }
        std::vector<L> st; for (int l : c.stack) st.push_back(lab<L>(l));
        auto b = make_aut<L>(pda, I.B);
        if (Solver::pre_star_accepts<Trace_Type::Any, W>(b, c.state, pda.encode_pre(st)) == want && want) check(J, "pre-config", conv<L>(Solver::get_trace(pda, b, c.state, st)), true);
        if (!c.stack.empty()) {
            { sim::Pause p; J = I; J.B = {}; J.B.n = I.ns; J.B.acc.assign(I.ns, 0); model::add_chain(J.B, c, false); want = model::reachable(J); }
            auto a = make_aut<L>(pda, I.A);
            Solver::post_star<Trace_Type::Any, W>(a);
            if (a.accepts(c.state, pda.encode_pre(st)) && want) check(J, "post-config", conv<L>(Solver::get_trace(pda, a, c.state, st)), true);
        }
    }
}
static void run() {
    sim::choose_environment();
    model::GenOpts o; o.wmode = 0; o.max_walk = 14; o.scale = 24;
    int wk = (int) sim::choose(5, "weight-kind"); if (wk >= 2) o.wmode = wk - 1;   // none, none, unsigned, signed, vector
    auto I = model::gen(o);
    bool expect = model::reachable(I);
    sim::count(expect ? "probe.reachable" : "probe.unreachable");
    bool h = sim::chance(1, 2, "via-hash");
    if (wk <= 1) traces<W0>(I, expect, h); else if (wk == 2) traces<WU>(I, expect, h); else if (wk == 3) traces<weight<int32_t>>(I, expect, h); else traces<weight<std::vector<uint32_t>>>(I, expect, h);
}
extern const sim::Property SIM_PROPERTY{"P02", run, nullptr};
