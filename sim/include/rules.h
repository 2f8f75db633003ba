// Checks of rule traces (sequence of applied rules + automaton paths) against the reference instance.
#pragma once
#include "build.h"
#include <limits>
namespace bridge {
// initial state, rules, initial stack, final stack, initial path, final path
// returns the total weight of the rules
template<typename L, typename Pda, typename R> static model::Vec check_rules(const model::Inst& I, const Pda& pda, const char* name, const R& res, bool expect) {
    sim::Pause p;
    auto& [state, rules, is, fs, ip, fp] = res;
    std::string n = name;
    if (!expect) { SIM_CHECK(state == std::numeric_limits<size_t>::max(), ("ruletrace-without-answer-" + n).c_str(), "%s: rule trace from state %zu although the target is unreachable", name, state); return {}; }
    auto dec = [&](const std::vector<uint32_t>& s) { std::vector<int> r; for (auto x : s) r.push_back(unlab<L>(pda.get_symbol(x))); return r; };
    SIM_CHECK(state < (size_t) I.ns, ("ruletrace-state-" + n).c_str(), "%s: initial state %zu out of range", name, state);
    model::Config c{(int) state, dec(is)};
    if (sim::verbose()) sim::note("%s: start %s, %zu rules", name, model::show(c).c_str(), rules.size());
    SIM_CHECK(I.A.accepts(c), ("ruletrace-initial-" + n).c_str(), "%s: initial configuration %s is not accepted", name, model::show(c).c_str());
    model::Vec total;
    for (size_t i = 0; i < rules.size(); i++) {
        auto& r = rules[i];
        model::Rule q; q.from = (int) r._from; q.to = (int) r._to; q.op = r._op == pdaaal::POP ? model::POP : r._op == pdaaal::SWAP ? model::SWAP : r._op == pdaaal::PUSH ? model::PUSH : model::NOOP;
        if (q.op == model::SWAP || q.op == model::PUSH) q.op_label = unlab<L>(pda.get_symbol(r._op_label));
        int pre = unlab<L>(pda.get_symbol(r._pre)); q.pre = {pre};
        bool exists = false;
        for (auto& m : I.rules) if (m.from == q.from && m.to == q.to && m.op == q.op && (q.op == model::POP || q.op == model::NOOP || m.op_label == q.op_label) && model::applies(I, m, pre)) {
            if constexpr (std::decay_t<decltype(pda)>::weight::is_weight) { if (m.w != vec_of(r._weight)) continue; }
            exists = true;
        }
        SIM_CHECK(exists, ("ruletrace-rule-" + n).c_str(), "%s: step %zu uses a rule %s the PDA does not have", name, i, model::show(q).c_str());
        auto d = model::apply(I, q, c);
        SIM_CHECK(d.has_value(), ("ruletrace-step-" + n).c_str(), "%s: step %zu rule %s does not apply to %s", name, i, model::show(q).c_str(), model::show(c).c_str());
        c = *d;
        if constexpr (std::decay_t<decltype(pda)>::weight::is_weight) total = model::add(total, vec_of(r._weight));
    }
    SIM_CHECK(c.stack == dec(fs), ("ruletrace-final-stack-" + n).c_str(), "%s: replayed final configuration %s has another stack than the reported one", name, model::show(c).c_str());
    SIM_CHECK(I.B.accepts(c), ("ruletrace-final-" + n).c_str(), "%s: final configuration %s is not accepted", name, model::show(c).c_str());
    // reported automaton paths accept the reported stacks
    auto path_ok = [&](const model::Aut& a, int start, const std::vector<size_t>& path, const std::vector<int>& st) {
        if (path.size() != st.size() + 1 || (int) path[0] != start) return false;
        for (size_t i = 0; i < st.size(); i++) if (std::find(a.edges.begin(), a.edges.end(), model::Edge{(int) path[i], st[i], (int) path[i + 1]}) == a.edges.end()) return false;
        return path.back() < a.acc.size() && a.acc[path.back()];
    };
    SIM_CHECK(path_ok(I.A, (int) state, ip, dec(is)), ("ruletrace-initial-path-" + n).c_str(), "%s: reported path does not accept the initial stack", name);
    SIM_CHECK(path_ok(I.B, c.state, fp, dec(fs)), ("ruletrace-final-path-" + n).c_str(), "%s: reported path does not accept the final stack", name);
    return total;
}
}
