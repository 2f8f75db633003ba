// Several clients work at the same time on one shared pushdown system (and shared finished answers), scheduled by the simulator; everyone gets the answer they get alone.
#include "rules.h"
#include "regex.h"
#include <pdaaal/internal/Reducer.h>
#include <pdaaal/parsing/NfaParser.h>
#include <memory>
#include <sstream>
using namespace bridge;
using L = int;
using model::Inst; using model::Config;
static int rl(const std::string& s) { return s.size() == 1 ? s[0] - 'a' : s[0] == 'l' ? atoi(s.c_str() + 1) : 99; }

static NFA<L> build(const rx::Node& n) {
    using N = NFA<L>;
    switch (n.k) {
        case rx::EPS: return N(true);
        case rx::LIT: { std::unordered_set<L> s; for (int l : n.set) s.insert(lab<L>(l)); return N(std::move(s), n.neg); }
        case rx::CAT: { N a = build(*n.c[0]); for (size_t i = 1; i < n.c.size(); i++) { N b = build(*n.c[i]); a.concat(std::move(b)); } return a; }
        case rx::ALT: { N a = build(*n.c[0]); for (size_t i = 1; i < n.c.size(); i++) { N b = build(*n.c[i]); a.or_extend(std::move(b)); } return a; }
        case rx::STAR: { N a = build(*n.c[0]); a.star_extend(); return a; }
        case rx::PLUS: { N a = build(*n.c[0]); a.plus_extend(); return a; }
        default: { N a = build(*n.c[0]); a.question_extend(); return a; }
    }
}
template<typename W> struct World {
    Inst I; bool expect = false; model::Answer best;
    PDA<L, W> pda;
    std::unique_ptr<SolverInstance<L, W>> done;           // a finished search, read by several clients
    std::string json; rx::P rex; std::string text; NFA<L> nfa{true};
    std::vector<std::pair<Config, bool>> members;         // (configuration, in pre*)
    using aut_t = decltype(make_aut<L>(std::declval<const PDA<L, W>&>(), std::declval<const model::Aut&>()));
    std::unique_ptr<aut_t> saturated;
    explicit World(const Inst& i) : I(i), pda(make_pda<L, W>(i, false)) {}
};
static void trace_ok(const Inst& I, const std::vector<Config>& t, const char* who) {
    sim::Pause p; model::Vec tot; auto e = model::check_trace(I, t, model::MIN, tot);
    SIM_CHECK(e.empty(), (std::string("trace-") + who).c_str(), "%s: %s", who, e.c_str());
}
template<typename W> static void job(const World<W>& w, int kind, bool json) {       // json: the JSON library itself does not survive failing allocations, so it is left out when they are injected
    using product_t = typename SolverInstance<L, W>::product_t;
    auto verdict = [&](bool r, const char* who) { SIM_CHECK(r == w.expect, (std::string("verdict-") + who).c_str(), "%s says %d, alone it says %d", who, r, w.expect); };
    switch (kind) {
        case 0: case 1: case 2: {
            product_t i(w.pda, make_aut<L>(w.pda, w.I.A), make_aut<L>(w.pda, w.I.B));
            bool r = kind == 0 ? Solver::post_star_accepts<Trace_Type::Any>(i) : kind == 1 ? Solver::pre_star_accepts<Trace_Type::Any>(i) : Solver::dual_search_accepts<Trace_Type::Any>(i);
            verdict(r, kind == 0 ? "post" : kind == 1 ? "pre" : "dual");
            if (r && kind < 2) { auto t = Solver::get_trace<Trace_Type::Any>(i); trace_ok(w.I, conv<L>(t), kind ? "pre" : "post"); check_rules<L>(w.I, w.pda, "client", Solver::get_rule_trace_and_paths<Trace_Type::Any>(i), true); }
            if (r && kind == 2) { auto t = Solver::get_trace_dual_search<Trace_Type::Any>(i); trace_ok(w.I, conv<L>(t), "dual"); }
            break;
        }
        case 3: if constexpr (W::is_weight) {
            product_t i(w.pda, make_aut<L>(w.pda, w.I.A), make_aut<L>(w.pda, w.I.B));
            int k = (int) sim::choose(3, "shortest-engine");
            bool r = k == 0 ? Solver::post_star_accepts<Trace_Type::Shortest>(i) : k == 1 ? Solver::pre_star_accepts<Trace_Type::Shortest>(i) : Solver::dual_search_accepts<Trace_Type::Shortest>(i);
            verdict(r, "shortest");
            if (r) { auto [t, x] = k < 2 ? Solver::get_trace<Trace_Type::Shortest>(i) : Solver::get_trace_dual_search<Trace_Type::Shortest>(i); trace_ok(w.I, conv<L>(t), "shortest"); SIM_CHECK(model::cmp(vec_of(x), w.best.v.w) == 0, "weight", "shortest trace weighs %s, alone %s", model::str(vec_of(x)).c_str(), model::str(w.best.v.w).c_str()); }
            break;
        } [[fallthrough]];
        case 4: if (w.expect) {      // several readers of one finished answer
            auto t = Solver::get_trace<Trace_Type::Any>(**w.done); trace_ok(w.I, conv<L>(t), "shared");
            check_rules<L>(w.I, w.pda, "shared", Solver::get_rule_trace_and_paths<Trace_Type::Any>(**w.done), true);
            break;
        } [[fallthrough]];
        case 5:
            for (auto& [c, in] : w.members) {
                std::vector<uint32_t> st; for (int l : c.stack) st.push_back((uint32_t) w.pda.exists_label(lab<L>(l)).second);
                SIM_CHECK(w.saturated->accepts(c.state, st) == in, "shared-member", "membership of %s in a shared automaton", model::show(c).c_str());
                if (in) { auto t = Solver::get_trace<Trace_Type::Any>(w.pda, *w.saturated, c.state, st); sim::Pause p; auto cs = conv<L>(t); SIM_CHECK(!cs.empty() && cs.front() == c && w.I.B.accepts(cs.back()), "shared-member-trace", "trace of %s from a shared automaton", model::show(c).c_str()); }
            }
            break;
        case 6: {
            auto n = NfaParser::parse_string(w.text, [](const std::string& s) { return (size_t) rl(s); }); n.compile();
            for (int k = 0; k < 6; k++) {
                std::vector<int> word; { sim::Pause p; int len = (int) sim::choose(4, "len"); for (int i = 0; i < len; i++) word.push_back((int) sim::choose(w.I.nl, "l")); }
                auto cur = n.initial(); for (int l : word) cur = NFA<size_t>::successor(cur, (size_t) l);
                bool r = std::any_of(cur.begin(), cur.end(), [](auto* s) { return s->_accepting; }), want; { sim::Pause p; want = rx::matches(*w.rex, word); }
                SIM_CHECK(r == want, "parsed-language", "a word is %s by an automaton parsed from %s", r ? "accepted" : "rejected", w.text.c_str());
            }
            break;
        }
        case 7: {
            PAutomaton<L, W, size_t, true> a(w.pda, w.nfa, std::vector<size_t>{0});
            for (int k = 0; k < 6; k++) {
                std::vector<int> word; std::vector<uint32_t> st; { sim::Pause p; int len = (int) sim::choose(4, "len"); for (int i = 0; i < len; i++) word.push_back((int) sim::choose(w.I.nl, "l")); for (int l : word) st.push_back((uint32_t) w.pda.exists_label(lab<L>(l)).second); }
                bool r = a.accepts(0, st), want; { sim::Pause p; want = rx::matches(*w.rex, word); }
                SIM_CHECK(r == want, "nfa-language", "a stack is %s by an automaton built from a shared expression", r ? "accepted" : "rejected");
            }
            break;
        }
        case 8: if (json) { auto j = w.pda.to_json(); auto s = j.dump(); SIM_CHECK(s == w.json, "json", "the system prints differently"); break; } [[fallthrough]];
        default: {
            auto own = make_pda<L, W>(w.I, true);
            if (json) SIM_CHECK(own.to_json().dump() == w.json, "own-json", "a system built from the same rules prints differently");
            product_t i(own, make_aut<L>(own, w.I.A), make_aut<L>(own, w.I.B));
            verdict(Solver::pre_star_accepts_no_ET(i), "own");
        }
    }
}
template<typename W> static void go(const Inst& I) {
    World<W> w(I);
    { sim::Pause p; w.best = model::solve(I); w.expect = w.best.reach; w.rex = rx::gen(1 + (int) sim::choose(3, "depth"), I.nl); w.text = rx::print(*w.rex); auto pre = model::pre_star(model::unweighted(I), I.B, model::MIN, false); model::Aut pa = I.B; for (auto& [e, v] : pre) pa.edges.push_back(e); for (int k = 0; k < 4; k++) { auto c = model::gen_config(I.ns, I.nl, true); w.members.push_back({c, pa.accepts(c)}); } }
    if (sim::verbose()) sim::note("expression %s", w.text.c_str());
    sim::count(w.expect ? "probe.reachable" : "probe.unreachable");
    w.done = std::make_unique<SolverInstance<L, W>>(PDA<L, W>(w.pda), make_aut<L>(w.pda, I.A), make_aut<L>(w.pda, I.B));
    bool r = sim::chance(1, 2, "done-pre") ? Solver::pre_star_accepts<Trace_Type::Any>(**w.done) : Solver::post_star_accepts<Trace_Type::Any>(**w.done);
    SIM_CHECK(r == w.expect, "verdict-alone", "alone: says %d, expected %d", r, w.expect);
    w.saturated = std::make_unique<typename World<W>::aut_t>(make_aut<L>(w.pda, I.B)); Solver::pre_star<Trace_Type::Any, W>(*w.saturated);
    w.json = w.pda.to_json().dump();
    w.nfa = build(*w.rex); w.nfa.compile();
    // Who does what.
    int clients = 2 + (int) sim::choose(3, "clients"); std::vector<std::vector<int>> jobs(clients);
    { sim::Pause p; for (auto& j : jobs) { int n = 1 + (int) sim::choose(2, "njobs"); for (int k = 0; k < n; k++) j.push_back((int) sim::choose(10, "job")); } }
    // Everybody alone first (also finishes one-time initialisations, which real threads would wait for).
    for (auto& j : jobs) for (int k : j) job(w, k, true);
    int64_t live = sim::live_blocks();
    bool faults = sim::chance(1, 3, "faults");
    sim::set_alloc_yield(sim::chance(3, 4, "yield-at-allocations"));
    std::vector<std::function<void()>> tasks;
    for (int c = 0; c < clients; c++) {
        sim::Pause p; tasks.push_back([&, c] {
            for (int k : jobs[c]) for (int attempt = 0;; attempt++) {
                if (sim::verbose()) sim::note("client %d: job %d", c, k);
                try { job(w, k, !faults); break; }
                catch (const std::bad_alloc&) { SIM_CHECK(faults && attempt == 0, "spurious-bad-alloc", "bad_alloc without a failing allocation"); sim::count("fault.alloc"); }
            }
        });
    }
    if (faults) sim::arm_alloc_failure(1 + sim::choose(600, "kth"));
    static const int den[] = {8, 3, 20, 60, 200};
    sim::run_fibers(std::move(tasks), den[sim::choose(5, "switch")]);
    sim::set_alloc_yield(false); sim::arm_alloc_failure(0);
    sim::check_heap();
    { sim::Pause p; tasks.clear(); tasks.shrink_to_fit(); }
    SIM_CHECK(w.pda.to_json().dump() == w.json, "shared-changed", "the shared system changed");
    for (auto& [c, in] : w.members) { std::vector<uint32_t> st; for (int l : c.stack) st.push_back((uint32_t) w.pda.exists_label(lab<L>(l)).second); SIM_CHECK(w.saturated->accepts(c.state, st) == in, "shared-member-after", "membership of %s changed", model::show(c).c_str()); }
    (void) live;
}
static void run() {
    sim::choose_environment();
    model::GenOpts o; o.scale = 30; o.max_states = 4; o.max_labels = 3; int wk = (int) sim::choose(2, "weight-kind"); o.wmode = wk;
    auto I = model::gen(o);
    if (wk) go<weight<uint32_t>>(I); else go<weight<void>>(I);
}
extern const sim::Property SIM_PROPERTY{"P07", run, nullptr};
