// Reduction removes only what no run from the initial to the terminal state uses, under every schedule, and also when an allocation fails.
#include "build.h"
#include <pdaaal/internal/Reducer.h>
#include <deque>
using namespace bridge;
using model::Config; using model::Rule; using model::Inst;
// (from, to, op, op label, weight, top label)
using RKey = std::tuple<int, int, int, int, model::Vec, int>;
static std::string show(const RKey& k) { auto& [f, t, o, l, w, p] = k; return std::to_string(f) + " -" + std::to_string(p) + "/" + std::to_string(o) + ":" + std::to_string(l) + "-> " + std::to_string(t); }
template<typename P> static std::map<RKey, int> listing(const P& pda) {
    std::map<RKey, int> m; size_t from = 0;
    for (auto& s : pda.states()) {
        for (auto& [r, ls] : s._rules) for (uint32_t l = 0; l < pda.number_of_labels(); l++) if (ls.contains(l)) {
            RKey k{(int) from, (int) r._to, (int) r._operation, r._operation == pdaaal::PUSH || r._operation == pdaaal::SWAP ? unlab<int>(pda.get_symbol(r._op_label)) : -1, {}, unlab<int>(pda.get_symbol(l))};
            if constexpr (P::has_weight) std::get<4>(k) = vec_of(r._weight);
            m[k]++;
        }
        from++;
    }
    return m;
}
// Rule instances used on some run from the start to the first arrival in the terminal state (runs within bounds on stack height and number of configurations).
struct Runs { std::set<RKey> used; bool reach = false; };
static Runs runs(const Inst& I, int initial, int terminal, bool weighted) {
    Runs R; std::map<Config, int> id; std::vector<Config> cs; struct E { int from, to; RKey k; }; std::vector<E> es; std::deque<int> q;
    auto node = [&](const Config& c) { auto [it, fresh] = id.emplace(c, (int) cs.size()); if (fresh) { cs.push_back(c); if (c.state != terminal && c.stack.size() <= 5 && cs.size() < 1500) q.push_back(it->second); } return it->second; };
    auto key = [&](const Rule& r, int l) { return RKey{r.from, r.to, (int) op(r.op), r.op == model::PUSH || r.op == model::SWAP ? r.op_label : -1, weighted ? r.w : model::Vec{}, l}; };
    std::set<int> starts; for (auto& r : I.rules) if (r.from == initial && r.to != terminal) starts.insert(node(Config{r.to, {r.op_label}}));
    while (!q.empty()) { int c = q.front(); q.pop_front(); for (auto& r : I.rules) { Config cc = cs[c]; if (auto d = model::apply(I, r, cc)) es.push_back({c, node(*d), key(r, cc.stack[0])}); } }
    std::vector<char> good(cs.size()); bool ch = true; for (size_t i = 0; i < cs.size(); i++) good[i] = cs[i].state == terminal;
    while (ch) { ch = false; for (auto it = es.rbegin(); it != es.rend(); ++it) if (good[it->to] && !good[it->from]) good[it->from] = ch = true; }
    for (auto& e : es) if (good[e.to]) R.used.insert(e.k);
    for (int s : starts) R.reach |= good[s];
    for (auto& r : I.rules) if (r.from == initial && r.to != terminal && good[id[Config{r.to, {r.op_label}}]]) for (int l = 0; l < I.nl; l++) if (model::applies(I, r, l)) { R.used.insert(key(r, l)); }
    return R;
}
template<typename W> static void one() {
    model::GenOpts o; o.scale = 30; o.wmode = W::is_weight ? 1 : 0; Inst I; int initial, terminal;
    {
        sim::Pause p; I.ns = 3 + (int) sim::choose(4, "ns"); I.nl = 1 + (int) sim::choose(4, "nl"); int nr = (int) sim::choose(14, "nr"); bool large = sim::chance(1, 24, "large"); if (large) { sim::large_instance(); sim::count("probe.large"); switch (sim::choose(3, "dimension")) { case 0: I.nl = 9 + (int) sim::choose(64, "many-labels"); o.wide = true; break; case 1: I.ns += 6 + (int) sim::choose(30, "many-states"); nr = 3 * I.ns; break; default: nr = 15 + (int) sim::choose(60, "many-rules"); } }
        initial = (int) sim::choose(I.ns, "initial"); terminal = (initial + 1 + (int) sim::choose(I.ns - 1, "terminal")) % I.ns;
        auto fix = [&](Rule& r) { if (r.from == initial && r.to != terminal && r.op != model::PUSH) { r.op = model::PUSH; r.op_label = (int) sim::choose(I.nl, "push"); } };
        for (int i = 0; i < nr; i++) { Rule r = model::gen_rule(o, I.ns, I.nl); fix(r); I.rules.push_back(r); }
        // a walk to the terminal state
        { Rule r; r.from = initial; r.op = model::PUSH; do { r.to = (int) sim::choose(I.ns, "w0"); if (r.to == initial || r.to == terminal) r.to = (r.to + 1) % I.ns; } while (r.to == initial || r.to == terminal); r.op_label = (int) sim::choose(I.nl, "w0l"); r.wild = sim::chance(1, 2, "w0w"); if (!r.wild) r.pre = {(int) sim::choose(I.nl, "w0p")}; r.w = model::gen_w(o); I.rules.push_back(r);
          Config c{r.to, {r.op_label}}; int k = 1 + (int) sim::choose(large ? 40 : 9, "walk");
          for (int i = 0; i < k && !c.stack.empty() && c.state != terminal; i++) { Rule s = model::gen_rule(o, I.ns, I.nl); s.from = c.state; if (c.stack.size() == 1 && s.op == model::POP && s.to != terminal) { s.op = model::PUSH; s.op_label = (int) sim::choose(I.nl, "pl"); } if (i == k - 1 && sim::chance(2, 3, "end")) s.to = terminal; fix(s); if (!model::applies(I, s, c.stack[0])) s.pre = {c.stack[0]}; I.rules.push_back(s); c = *model::apply(I, s, c); } }
        I.A.n = I.ns; I.A.acc.assign(I.ns, 0); for (auto& r : I.rules) if (r.from == initial && r.to != terminal) model::add_chain(I.A, Config{r.to, {r.op_label}}, false);
        I.B.n = I.ns + 1; I.B.acc.assign(I.ns + 1, 0); I.B.acc[terminal] = I.B.acc[I.ns] = 1; for (int l = 0; l < I.nl; l++) { I.B.edges.push_back({terminal, l, I.ns}); I.B.edges.push_back({I.ns, l, I.ns}); }
        if (sim::verbose()) { sim::note("initial %d, terminal %d, %d labels", initial, terminal, I.nl); for (auto& r : I.rules) sim::note("  %s", model::show(r).c_str()); }
        for (auto& r : I.rules) sim::ev("rule", r.from * 100 + r.to, r.op * 100 + r.op_label, r.wild, r.pre.empty() ? 0 : r.pre[0]);
    }
    Runs R; { sim::Pause p; R = runs(I, initial, terminal, W::is_weight); }
    sim::count(R.reach ? "probe.reachable" : "probe.unreachable"); sim::nontrivial();
    PDA<int, W> original = make_pda<int, W>(I, sim::chance(1, 3, "hash")); std::map<RKey, int> before; { sim::Pause p; before = listing(original); }
    int level = (int) sim::choose(5, "level"); PDA<int, W> pda(original);
    std::pair<size_t, size_t> sizes; bool oom = false, arm = sim::chance(1, 4, "oom");
    auto check = [&](const char* how) {
        sim::Pause p; auto after = listing(pda);
        for (auto& [k, n] : after) { SIM_CHECK(before.count(k), "invented-rule", "%s (level %d): the reduced system has a new rule %s", how, level, show(k).c_str()); SIM_CHECK(n == 1, "duplicate-rule", "%s: rule %s is listed %d times", how, show(k).c_str(), n); }
        for (auto& k : R.used) SIM_CHECK(after.count(k), "lost-rule", "%s (level %d): rule %s is used on a run from the initial to the terminal state, but was removed", how, level, show(k).c_str());
        for (size_t s = 0; s < pda.states().size(); s++) for (auto& [r, ls] : pda.states()[s]._rules) if (!ls.empty()) SIM_CHECK(pda.states()[r._to]._pre_states.contains(s), "pre-states", "%s: state %zu has a rule from %zu, which is not among its predecessors", how, (size_t) r._to, s);
        for (auto& s : pda.states()) for (size_t i = 1; i < s._rules.size(); i++) SIM_CHECK(s._rules[i - 1].first < s._rules[i].first, "rule-order", "%s: rules are no longer in order", how);
        sim::ev(how, after.size(), before.size()); if (after.size() < before.size()) sim::count("probe.reduced"); if (!R.used.empty() && after.size() < before.size()) sim::count("probe.discriminating");
    };
    if (arm) {
        int64_t live = sim::live_blocks(); (void) live; sim::arm_alloc_failure(1 + sim::choose(60, "kth"));
        try { internal::Reducer::reduce(pda, level, initial, terminal); } catch (const std::bad_alloc&) { oom = true; }
        bool fired = sim::alloc_failure_fired(); sim::arm_alloc_failure(0); if (fired) sim::count("fault.alloc");
        SIM_CHECK(!fired || oom, "swallowed-bad_alloc", "an allocation failed but the reduction went on"); sim::check_heap();
        check("failed");
    }
    sizes = internal::Reducer::reduce(pda, level, initial, terminal);
    check("reduced");
    SIM_CHECK(sizes.second <= sizes.first, "size-grew", "reduction reports size %zu before and %zu after", sizes.first, sizes.second);
    if (level == 0) SIM_CHECK(sizes.first == sizes.second, "size-grew", "reduction at level 0 reports a change");
    if (sim::chance(1, 3, "again")) { internal::Reducer::reduce(pda, (int) sim::choose(5, "level2"), initial, terminal); check("twice"); }
    // verdict of the solver on the reduced system
    bool want; { sim::Pause p; want = model::reachable(I); }
    bool got;
    { SolverInstance<int, W> inst(PDA<int, W>(pda), make_aut<int>(pda, I.A), make_aut<int>(pda, I.B)); got = sim::chance(1, 2, "pre") ? Solver::pre_star_accepts<Trace_Type::Any>(*inst) : Solver::post_star_accepts<Trace_Type::Any>(*inst); }
    SIM_CHECK(got == want, "verdict", "the reduced system (level %d) answers %d, the original %d", level, got, want);
}
static void run() { sim::choose_environment(); if (sim::chance(1, 3, "weighted")) one<weight<uint32_t>>(); else one<weight<void>>(); }
extern const sim::Property SIM_PROPERTY{"P09", run, nullptr};
