// Verdicts of every engine equal the reference for every processing order / hash order / heap layout.
#include "build.h"
using namespace bridge;
using L = int;
using W0 = weight<void>;
using WU = weight<uint32_t>;

template<typename W> static void verdicts(const model::Inst& I, bool expect, bool via_hash) {
    auto pda = make_pda<L, W>(I, via_hash);
    SIM_CHECK(pda.states().size() == (size_t) I.ns, "pda-states", "pda has %zu states, expected %d", pda.states().size(), I.ns);
    auto engine = [&](const char* name, auto&& f) {
        SolverInstance<L, W> inst(PDA<L, W>(pda), make_aut<L>(pda, I.A), make_aut<L>(pda, I.B));
        bool r = f(*inst);
        sim::ev(name, r, expect);
        SIM_CHECK(r == expect, (std::string("verdict-") + name).c_str(), "%s says %s, but the target is %s", name, r ? "reachable" : "unreachable", expect ? "reachable" : "unreachable");
    };
    int which = (int) sim::choose(4, "engine-set");
    if constexpr (W::is_weight) if (which == 3) {      // searches that need weights
        bool neg = false; for (auto& r : I.rules) neg |= model::cmp(r.w, {}) < 0;
        if (!neg) {
            engine("post-shortest", [](auto& i) { return Solver::post_star_accepts<Trace_Type::Shortest>(i); });
            engine("post-shortest-noet", [](auto& i) { return Solver::post_star_accepts_no_ET<Trace_Type::Shortest>(i); });
            engine("pre-shortest", [](auto& i) { return Solver::pre_star_accepts<Trace_Type::Shortest>(i); });
            engine("dual-shortest", [](auto& i) { return Solver::dual_search_accepts<Trace_Type::Shortest>(i); });
        }
        if constexpr (!W::is_vector) {
            auto fixed = [&](const char* name, auto&& f) {
                auto mk = [&] { return SolverInstance<L, W, size_t, true, TraceInfoType::Pair>(PDA<L, W>(pda), make_aut<L, TraceInfoType::Pair>(pda, I.A), make_aut<L, TraceInfoType::Pair>(pda, I.B)); };
                auto i = mk(), j = mk(); bool r = f(*i, *j); sim::ev(name, r, expect);
                SIM_CHECK(r == expect, (std::string("verdict-") + name).c_str(), "%s says %s, but the target is %s", name, r ? "reachable" : "unreachable", expect ? "reachable" : "unreachable");
            };
            switch (sim::choose(6, "fixed-point")) {
                case 0: fixed("pre-longest", [](auto& i, auto&) { return Solver::pre_star_fixed_point_accepts<Trace_Type::Longest>(i); }); break;
                case 1: fixed("post-longest", [](auto& i, auto&) { return Solver::post_star_fixed_point_accepts<Trace_Type::Longest>(i); }); break;
                case 2: fixed("pre-fixed", [](auto& i, auto&) { return Solver::pre_star_fixed_point_accepts<Trace_Type::ShortestFixedPoint>(i); }); break;
                case 3: fixed("post-fixed", [](auto& i, auto&) { return Solver::post_star_fixed_point_accepts<Trace_Type::ShortestFixedPoint>(i); }); break;
                case 4: fixed("interleaved-longest", [](auto& i, auto& j) { return Solver::interleaving_fixed_point_accepts<Trace_Type::Longest>(i, j).first; }); break;
                default: fixed("interleaved-fixed", [](auto& i, auto& j) { return Solver::interleaving_fixed_point_accepts<Trace_Type::ShortestFixedPoint>(i, j).first; }); break;
            }
            sim::count("probe.fixed_point");
        }
        return;
    }
    if (which != 1) {
        engine("post", [](auto& i) { return Solver::post_star_accepts<Trace_Type::None>(i); });
        engine("post-any", [](auto& i) { return Solver::post_star_accepts<Trace_Type::Any>(i); });
        engine("post-noet", [](auto& i) { return Solver::post_star_accepts_no_ET(i); });
    }
    if (which != 2) {
        engine("pre", [](auto& i) { return Solver::pre_star_accepts<Trace_Type::None>(i); });
        engine("pre-noet", [](auto& i) { return Solver::pre_star_accepts_no_ET(i); });
        engine("dual", [](auto& i) { return Solver::dual_search_accepts<Trace_Type::Any>(i); });
    }
    // Membership of single configurations in pre*(B) and post*(A).
    model::Config c;
    {
        sim::Pause p;
        c = model::gen_config(I.ns, I.nl, true);
    }
    bool want_pre, want_post;
    {
        sim::Pause p;
        model::Inst J = I; J.A = {}; J.A.n = I.ns; J.A.acc.assign(I.ns, 0); model::add_chain(J.A, c, false);
        want_pre = model::reachable(J);
        J = I; J.B = {}; J.B.n = I.ns; J.B.acc.assign(I.ns, 0); model::add_chain(J.B, c, false);
        want_post = model::reachable(J);
    }
    std::vector<uint32_t> st; for (int l : c.stack) st.push_back((uint32_t) pda.exists_label(lab<L>(l)).second);
    {
        auto b = make_aut<L>(pda, I.B);
        bool r = Solver::pre_star_accepts<Trace_Type::Any, W>(b, c.state, st);
        sim::ev("member-pre", r, want_pre);
        SIM_CHECK(r == want_pre, "member-pre", "pre* membership of %s: got %d expected %d", model::show(c).c_str(), r, want_pre);
    }
    {
        auto b = make_aut<L>(pda, I.B);
        Solver::pre_star<Trace_Type::Any, W>(b);
        bool r = b.accepts(c.state, st);
        SIM_CHECK(r == want_pre, "saturated-pre", "saturated pre* on %s: got %d expected %d", model::show(c).c_str(), r, want_pre);
    }
    if (!st.empty()) {     // accepts() does not follow the epsilon edges post* creates for an emptied stack
        auto a = make_aut<L>(pda, I.A);
        Solver::post_star<Trace_Type::Any, W>(a);
        bool r = a.accepts(c.state, st);
        SIM_CHECK(r == want_post, "saturated-post", "saturated post* on %s: got %d expected %d", model::show(c).c_str(), r, want_post);
    }
}
static void run() {
    sim::choose_environment();
    model::GenOpts o; o.wmode = 0; o.scale = 24;
    int wk = (int) sim::choose(5, "weight-kind"); if (wk >= 2) o.wmode = wk - 1;   // none, none, unsigned, signed, vector
    auto I = model::gen(o);
    bool expect = model::reachable(I);
    sim::count(expect ? "probe.reachable" : "probe.unreachable");
    bool h = sim::chance(1, 2, "via-hash");
    if (wk <= 1) verdicts<W0>(I, expect, h); else if (wk == 2) verdicts<WU>(I, expect, h); else if (wk == 3) verdicts<weight<int32_t>>(I, expect, h); else verdicts<weight<std::vector<uint32_t>>>(I, expect, h);
}
extern const sim::Property SIM_PROPERTY{"P01", run, nullptr};
