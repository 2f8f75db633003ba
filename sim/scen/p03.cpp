// Shortest-trace searches return the minimum over all runs, and a run that attains it, for every processing order.
#include "rules.h"
using namespace bridge;
using L = int;

template<typename W> static void check(const model::Inst& I, const char* name, const model::Answer& a, bool r, const std::vector<model::Config>& t, const typename W::type& w) {
    sim::Pause p;
    std::string n = name;
    note_trace(name, t);
    auto v = vec_of(w);
    if (sim::verbose()) sim::note("%s: weight %s, optimum %s", name, model::str(v).c_str(), model::str(a.v.w).c_str());
    sim::ev(name, t.size(), v.empty() ? 0 : v[0]);
    model::Vec tot; auto e = model::check_trace(I, t, model::MIN, tot);
    SIM_CHECK(e.empty(), ("shortest-trace-" + n).c_str(), "%s: %s", name, e.c_str());
    SIM_CHECK(model::cmp(v, a.v.w) == 0, ("shortest-weight-" + n).c_str(), "%s: reported weight %s, minimum over all runs is %s", name, model::str(v).c_str(), model::str(a.v.w).c_str());
    SIM_CHECK(model::cmp(tot, a.v.w) == 0, ("shortest-trace-weight-" + n).c_str(), "%s: returned trace weighs %s, minimum over all runs is %s", name, model::str(tot).c_str(), model::str(a.v.w).c_str());
    if (t.size() > 6) sim::count("probe.long_traces");
}
template<typename P, typename R> static void rules(const model::Inst& I, const P& pda, const char* name, const model::Answer& a, const R& res) {
    auto tot = check_rules<L>(I, pda, name, res.first, true);
    SIM_CHECK(model::cmp(vec_of(res.second), a.v.w) == 0, (std::string("shortest-ruletrace-weight-") + name).c_str(), "%s: rule trace reported with weight %s, minimum is %s", name, model::str(vec_of(res.second)).c_str(), model::str(a.v.w).c_str());
    SIM_CHECK(model::cmp(tot, a.v.w) == 0, (std::string("shortest-ruletrace-total-") + name).c_str(), "%s: rules of the trace weigh %s, minimum is %s", name, model::str(tot).c_str(), model::str(a.v.w).c_str());
}
template<typename W> static void engines(const model::Inst& I, bool via_hash) {
    auto a = model::solve(I, model::MIN);
    sim::count(a.reach ? "probe.reachable" : "probe.unreachable");
    auto pda = make_pda<L, W>(I, via_hash);
    auto fresh = [&]() { return SolverInstance<L, W>(PDA<L, W>(pda), make_aut<L>(pda, I.A), make_aut<L>(pda, I.B)); };
    auto verdict = [&](const char* name, bool r) {
        sim::ev(name, r, a.reach);
        SIM_CHECK(r == a.reach, (std::string("shortest-verdict-") + name).c_str(), "%s says %s, but the target is %s", name, r ? "reachable" : "unreachable", a.reach ? "reachable" : "unreachable");
    };
    int which = (int) sim::choose(5, "engine");
    if (which == 0) {
        auto i = fresh(); bool r = Solver::post_star_accepts<Trace_Type::Shortest>(*i); verdict("post", r);
        if (r) { auto [t, w] = Solver::get_trace<Trace_Type::Shortest>(*i); check<W>(I, "post", a, r, conv<L>(t), w); rules(I, pda, "post", a, Solver::get_rule_trace_and_paths<Trace_Type::Shortest>(*i)); }
    } else if (which == 1) {
        auto i = fresh(); bool r = Solver::pre_star_accepts<Trace_Type::Shortest>(*i); verdict("pre", r);
        if (r) { auto [t, w] = Solver::get_trace<Trace_Type::Shortest>(*i); check<W>(I, "pre", a, r, conv<L>(t), w); rules(I, pda, "pre", a, Solver::get_rule_trace_and_paths<Trace_Type::Shortest>(*i)); }
    } else if (which == 2) {
        auto i = fresh(); bool r = Solver::dual_search_accepts<Trace_Type::Shortest>(*i); verdict("dual", r);
        if (r) { auto [t, w] = Solver::get_trace_dual_search<Trace_Type::Shortest>(*i); check<W>(I, "dual", a, r, conv<L>(t), w); rules(I, pda, "dual", a, Solver::get_rule_trace_and_paths<Trace_Type::Shortest, true>(*i)); }
    } else if (which == 4) {
        auto i = fresh(); bool r = Solver::post_star_accepts_no_ET<Trace_Type::Shortest>(*i); verdict("post-noet", r);
        if (r) { auto [t, w] = Solver::get_trace<Trace_Type::Shortest>(*i); check<W>(I, "post-noet", a, r, conv<L>(t), w); rules(I, pda, "post-noet", a, Solver::get_rule_trace_and_paths<Trace_Type::Shortest>(*i)); }
    } else {
        // one configuration against a saturated automaton
        model::Config c; model::Inst J; model::Answer b; bool pre = sim::chance(1, 2, "pre-config");
        { sim::Pause p; c = model::gen_config(I.ns, I.nl, pre); if (c.stack.empty() && !pre) c.stack.push_back(0); J = I; auto& X = pre ? J.A : J.B; X = {}; X.n = I.ns; X.acc.assign(I.ns, 0); model::add_chain(X, c, false); b = model::solve(J, model::MIN); }
        std::vector<L> st; for (int l : c.stack) st.push_back(lab<L>(l));
        auto aut = make_aut<L>(pda, pre ? I.B : I.A);
        bool r;
        if (pre) r = Solver::pre_star_accepts<Trace_Type::Shortest, W>(aut, c.state, pda.encode_pre(st));
        else { Solver::post_star<Trace_Type::Shortest, W>(aut); r = aut.accepts(c.state, pda.encode_pre(st)); }
        SIM_CHECK(r == b.reach, pre ? "shortest-member-pre" : "shortest-member-post", "membership of %s: got %d expected %d", model::show(c).c_str(), r, b.reach);
        if (r) { auto [t, w] = Solver::get_trace<Trace_Type::Shortest>(pda, aut, c.state, st); check<W>(J, pre ? "pre-config" : "post-config", b, r, conv<L>(t), w); }
    }
}
static void run() {
    sim::choose_environment();
    model::GenOpts o; o.scale = 24; o.max_walk = 12;
    int wk = (int) sim::choose(10, "weight-kind");
    o.wmode = wk <= 5 ? 1 : wk <= 7 ? 3 : 4; o.wide_weights = wk == 4 || wk == 5;
    auto I = model::gen(o);
    bool h = sim::chance(1, 2, "via-hash");
    if (wk <= 2) engines<weight<uint32_t>>(I, h); else if (wk == 3) engines<weight<int32_t>>(I, h); else if (wk == 4) engines<weight<double>>(I, h); else if (wk == 5) engines<weight<uint64_t>>(I, h);
    else if (wk == 6) engines<weight<std::vector<uint32_t>>>(I, h); else if (wk == 7) engines<weight<std::array<uint32_t, 3>>>(I, h); else if (wk == 8) engines<weight<std::vector<int32_t>>>(I, h); else engines<weight<std::array<int32_t, 3>>>(I, h);
}
extern const sim::Property SIM_PROPERTY{"P03", run, nullptr};
