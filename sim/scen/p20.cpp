// A pushdown system holds exactly the rules that were added to it, whatever the history of additions, conversions, copies and failed additions.
#include "build.h"
using namespace bridge;
// (from, pre, to, op, op label, weight); pre -1 is a wildcard
using Key = std::tuple<int, int, int, int, model::Vec>;      // from, to, op, op label (-1), weight
struct Ref { std::map<Key, std::pair<bool, std::set<int>>> rules; int ns = 0; };
static std::string show(const Key& k, int pre) { auto& [f, t, o, l, w] = k; return std::to_string(f) + " -" + std::to_string(pre) + "/" + std::to_string(o) + ":" + std::to_string(l) + "-> " + std::to_string(t) + " w" + model::str(w); }
static const char* SN[] = {"s0", "beta", "x y", "3", "q\"", "z"};
template<typename S> static S sname(int i) { if constexpr (std::is_same_v<S, std::string>) return i < 6 ? std::string(SN[i]) : "state" + std::to_string(i); else return (S) i; }

// expanded: set of single-label rules
static std::map<std::pair<Key, int>, int> expand(const Ref& r, int nl) {
    std::map<std::pair<Key, int>, int> m;
    for (auto& [k, v] : r.rules) if (v.first) { for (int l = 0; l < nl; l++) m[{k, l}]++; } else for (int l : v.second) m[{k, l}]++;
    return m;
}
// `fuzzy`: single rules that a failed addition may or may not have added
template<typename L, typename P> static void verify(const P& pda, const Ref& ref, int nl, const std::vector<L>& labels, const char* how, const std::set<std::pair<Key, int>>& fuzzy) {
    using W = typename P::weight; sim::Pause p;
    auto un = [&](const L& l) { auto it = std::find(labels.begin(), labels.end(), l); SIM_CHECK(it != labels.end(), "unknown-label", "%s: a rule mentions a label that was never inserted", how); return (int) (it - labels.begin()); };
    SIM_CHECK(pda.states().size() == (size_t) ref.ns, "states", "%s: %zu states, expected %d", how, pda.states().size(), ref.ns);
    SIM_CHECK(pda.number_of_labels() == labels.size(), "labels", "%s: %zu labels, expected %zu", how, pda.number_of_labels(), labels.size());
    for (size_t i = 0; i < labels.size(); i++) { auto [ok, id] = pda.exists_label(labels[i]); SIM_CHECK(ok && id < labels.size() && pda.get_symbol(id) == labels[i], "label-id", "%s: label %zu does not map to an id and back", how, i); }
    auto want = expand(ref, nl); std::map<std::pair<Key, int>, int> got, list;
    size_t from = 0;
    for (auto& s : pda.states()) {
        for (auto& [r, ls] : s._rules) {
            Key k{(int) from, (int) r._to, (int) r._operation, r._operation == pdaaal::PUSH || r._operation == pdaaal::SWAP ? un(pda.get_symbol(r._op_label)) : -1, {}};
            if constexpr (W::is_weight) std::get<4>(k) = vec_of(r._weight);
            if (ls.wildcard()) { for (int l = 0; l < nl; l++) got[{k, l}]++; }
            else for (auto l : ls.labels()) { got[{k, un(pda.get_symbol(l))}]++; SIM_CHECK(ls.contains(l), "labels-contains", "%s: a listed label is not contained", how); }
            for (int l = 0; l < nl; l++) { uint32_t id = pda.exists_label(labels[l]).second; SIM_CHECK(ls.contains(id) == (got.count({k, l}) > 0), "labels-contains", "%s: contains(%d) is wrong", how, l); }
            if (!ls.empty()) SIM_CHECK(r._to < pda.states().size() && pda.states()[r._to]._pre_states.contains(from), "pre-states", "%s: state %zu has a rule from %zu, which is not among its predecessors", how, r._to, from);
        }
        from++;
    }
    auto cmp = [&](std::map<std::pair<Key, int>, int>& g, const char* what) {
        for (auto& [k, n] : g) { SIM_CHECK(n == 1, "duplicate-rule", "%s: %s lists rule %s %d times", how, what, show(k.first, k.second).c_str(), n); SIM_CHECK(want.count(k) || fuzzy.count(k), "invented-rule", "%s: %s has a rule %s that was never added", how, what, show(k.first, k.second).c_str()); }
        for (auto& [k, n] : want) SIM_CHECK(g.count(k), "lost-rule", "%s: %s lacks rule %s", how, what, show(k.first, k.second).c_str());
    };
    cmp(got, "the state table");
    { std::vector<typename P::rule_t> all; { sim::Unpause u; all = pda.all_rules(); } for (auto& r : all) { Key k{(int) r._from, (int) r._to, (int) r._op, r._op == pdaaal::PUSH || r._op == pdaaal::SWAP ? un(r._op_label) : -1, {}}; if constexpr (W::is_weight) std::get<4>(k) = vec_of(r._weight); list[{k, un(r._pre)}]++; } }
    cmp(list, "the rule list");
    SIM_CHECK(got == list, "listing", "%s: the rule list differs from the state table", how);
    sim::ev(how, got.size(), ref.ns);
}
template<typename L, typename P> static void verify_json(const P& pda, const std::vector<L>& labels, const char* how) {
    using W = typename P::weight; sim::Pause p; nlohmann::json j; { sim::Unpause u; nlohmann::json k = pda.to_json(); j = std::move(k); }
    std::multiset<std::string> got, want;
    auto& js = j["pda"]["states"]; auto st = [&](size_t i) -> nlohmann::json { if constexpr (P::expose_skip_state_mapping) return i; else return pda.get_state(i); };
    auto rule = [](const nlohmann::json& from, const std::string& pre, const nlohmann::json& r) { return from.dump() + " " + pre + " " + r.dump(); };
    auto one = [&](const nlohmann::json& name, const nlohmann::json& s) { for (auto& [pre, r] : s.items()) if (r.is_array()) { for (auto& x : r) got.insert(rule(name, pre, x)); } else got.insert(rule(name, pre, r)); };
    size_t n = 0; if (js.is_array()) for (auto& s : js) one(n++, s); else for (auto& [name, s] : js.items()) { one(name, s); n++; }
    SIM_CHECK(n == pda.states().size(), "json-states", "%s: JSON lists %zu states of %zu", how, n, pda.states().size());
    size_t from = 0;
    for (auto& s : pda.states()) { for (auto& [r, ls] : s._rules) {
        auto add = [&](const std::string& pre) { nlohmann::json x = {{"to", st(r._to)}}; auto ol = [&] { return details::label_to_string(pda.get_symbol(r._op_label)); };
            switch (r._operation) { case pdaaal::POP: x["pop"] = ""; break; case pdaaal::SWAP: x["swap"] = ol(); break; case pdaaal::PUSH: x["push"] = ol(); break; default: x["swap"] = pre; }
            if constexpr (W::is_weight) x["weight"] = r._weight; want.insert(rule(st(from), pre, x)); };
        if (ls.wildcard()) add("*"); else for (auto l : ls.labels()) add(details::label_to_string(pda.get_symbol(l))); } from++; }
    SIM_CHECK(got == want, "json-rules", "%s: the JSON form does not list the rules of the system", how);
}
// Two user rules are equal exactly if all their parts are.
template<typename W> static void same(const user_rule_t<W>& x) {
    sim::Pause p; user_rule_t<W> y(x); bool eq = true;
    switch (sim::choose(7, "differs")) { case 0: break; case 1: y._from++; eq = false; break; case 2: y._to++; eq = false; break; case 3: y._pre++; eq = false; break; case 4: y._op_label++; eq = false; break; case 5: y._op = x._op == PUSH ? SWAP : PUSH; eq = false; break;
        default: if constexpr (W::is_weight) { auto w = y._weight; if constexpr (std::is_arithmetic_v<decltype(w)>) w++; else if constexpr (requires { w.push_back(1); }) w.push_back(1); else w[0]++; y._weight = w; eq = false; } }
    SIM_CHECK((x == y) == eq && (x != y) != eq && (y == x) == eq, "rule-equality", "two rules that %s compare %s", eq ? "agree" : "differ", eq ? "different" : "equal");
    user_rule_t<W> z(x._from, x._pre, x.to_impl_rule()); if (x._op == PUSH || x._op == SWAP) SIM_CHECK(z == x, "rule-roundtrip", "a rule changes when it is turned into its internal form and back");
    SIM_CHECK(x.from() == x._from, "rule-from", "from() is wrong");
}
template<typename L, typename W, typename S, fut::type C> static void history() {
    using P = PDA<L, W, C, S>; constexpr bool named = !std::is_same_v<S, size_t>;
    int nl = 1 + (int) sim::choose(4, "nl"), maxs = 1 + (int) sim::choose(5, "maxs"); bool large = sim::chance(1, 24, "large"); if (large) { sim::count("probe.large"); if (sim::chance(1, 2, "labels")) nl = 10 + (int) sim::choose(80, "many-labels"); else maxs = 10 + (int) sim::choose(60, "many-states"); }
    std::vector<L> labels; { sim::Pause p; for (int i = 0; i < nl; i++) labels.push_back(lab<L>(i)); }
    Ref ref; bool by_call = sim::chance(1, 2, "labels-by-call");
    std::unordered_set<L> initial; if (!by_call) initial.insert(labels.begin(), labels.end());
    P pda(initial);
    if (by_call) { std::vector<int> o; { sim::Pause p; for (int i = 0; i < nl; i++) o.push_back(i); for (int i = nl; i > 1; i--) std::swap(o[i - 1], o[sim::choose(i, "perm")]); } for (int i : o) { pda.insert_label(labels[i]); if (sim::chance(1, 5, "again")) pda.insert_label(labels[i]); } }
    std::set<std::pair<Key, int>> fuzzy;
    bool faulty = sim::chance(1, 3, "faulty"); if (faulty) sim::nontrivial();
    int n = 1 + (int) sim::choose(16, "nops"); if (large) n = 20 + (int) sim::choose(100, "many"); model::GenOpts o; o.wide = large; o.wmode = !W::is_weight ? 0 : std::is_arithmetic_v<std::conditional_t<W::is_weight, typename W::type, int>> ? 1 : 3;
    std::vector<int> ids(maxs, -1);   // named states: model state -> id
    auto state = [&](int s) -> size_t { if constexpr (named) { size_t id = pda.insert_state(sname<S>(s)); return id; } else return (size_t) s; };
    std::vector<int> order;           // named: creation order = id
    auto sid = [&](int s) { if constexpr (!named) { ref.ns = std::max(ref.ns, s + 1); return s; } else { sim::Pause p; auto it = std::find(order.begin(), order.end(), s); if (it != order.end()) return (int) (it - order.begin()); order.push_back(s); ref.ns = (int) order.size(); return ref.ns - 1; } };
    for (int i = 0; i < n; i++) {
        model::Rule r; { sim::Pause p; r = model::gen_rule(o, maxs, nl); }
        int how = (int) sim::choose(8, "how");
        if (how == 7) { int s = (int) sim::choose(maxs, "st"); size_t id = pda.insert_state(sname<S>(s)); int want = sid(s); SIM_CHECK((int) id == want, "state-id", "state %d has id %zu, expected %d", s, id, want); auto [ok, id2] = pda.exists_state(sname<S>(s)); SIM_CHECK(ok && id2 == id, "state-lookup", "an inserted state is not found"); continue; }
        int ns_before = ref.ns; size_t from = state(r.from); int mf = sid(r.from); size_t to = state(r.to); int mt = sid(r.to);
        SIM_CHECK((int) from == mf && (int) to == mt, "state-id", "states map to %zu,%zu, expected %d,%d", from, to, mf, mt);
        L ol = r.op == model::SWAP || r.op == model::PUSH ? labels[r.op_label] : L{};
        std::vector<L> pre; { for (int x : r.pre) pre.push_back(labels[x]); if (pre.size() > 1 && sim::chance(1, 2, "order")) std::swap(pre[0], pre[1]); if (!pre.empty() && sim::chance(1, 8, "repeat")) pre.push_back(pre[0]); }
        Key k; { sim::Pause p; k = Key{mf, mt, (int) op(r.op), r.op == model::SWAP || r.op == model::PUSH ? r.op_label : -1, W::is_weight ? r.w : model::Vec{}}; if (sim::verbose()) sim::note("add %s%s (way %d)", show(k, r.wild ? -1 : r.pre[0]).c_str(), r.pre.size() > 1 ? "+" : "", how); }
        if (faulty && sim::chance(1, 3, "arm")) sim::arm_alloc_failure(1 + sim::choose(5, "kth"));
        bool oom = false;
        try {
            typename P::rule_t ur; ur._from = from; ur._to = to; ur._op = op(r.op); ur._op_label = ol; if (!r.wild) ur._pre = pre[0]; if constexpr (W::is_weight) ur._weight = weight_of<W>(r.w);
            if (how <= 1 && !r.wild && pre.size() == 1) pda.add_rule(std::as_const(ur));
            else if (how <= 1 && r.wild) pda.add_wildcard_rule(ur);
            else if (how == 2 && (r.wild || pre.size() == 1)) { user_rule_t<W> x(from, r.wild ? 0 : (uint32_t) pda.exists_label(pre[0]).second, internal::pda_rule_t<W>{}); x._to = to; x._op = op(r.op); x._op_label = ol == L{} && !(r.op == model::SWAP || r.op == model::PUSH) ? std::numeric_limits<uint32_t>::max() : (uint32_t) pda.exists_label(ol).second; if constexpr (W::is_weight) x._weight = weight_of<W>(r.w); if (r.wild) static_cast<internal::PDA<W, C>&>(pda).add_wildcard_rule(x); else static_cast<internal::PDA<W, C>&>(pda).add_rule(x); same(x); }
            else if constexpr (W::is_weight) pda.add_rule(from, to, op(r.op), ol, r.wild, pre, weight_of<W>(r.w));
            else pda.add_rule(from, to, op(r.op), ol, r.wild, pre);
        } catch (const std::bad_alloc&) { oom = true; }
        bool fired = sim::alloc_failure_fired(); sim::arm_alloc_failure(0); if (fired) sim::count("fault.alloc");
        SIM_CHECK(!fired || oom, "swallowed-bad_alloc", "an allocation failed but the addition went on");
        sim::Pause p;
        if (oom) { for (int l = 0; l < nl; l++) if (r.wild || std::find(r.pre.begin(), r.pre.end(), l) != r.pre.end()) fuzzy.insert({k, l}); int have = (int) pda.states().size(); SIM_CHECK(have >= (named ? ref.ns : ns_before) && have <= ref.ns, "states", "%d states after a failed addition, expected %d to %d", have, ns_before, ref.ns); ref.ns = have; }
        else { auto& v = ref.rules[k]; if (r.wild) v = {true, {}}; else if (!v.first) v.second.insert(r.pre.begin(), r.pre.end()); }
        if (sim::chance(1, large ? 40 : 4, "look")) { sim::Unpause u; verify(pda, ref, nl, labels, "history", fuzzy); }
    }
    verify(pda, ref, nl, labels, "history", fuzzy);
    verify_json(pda, labels, "history");
    if constexpr (C == fut::type::hash) { PDA<L, W, fut::type::vector, S> v(std::move(pda)); verify(v, ref, nl, labels, "converted", fuzzy); verify_json(v, labels, "converted"); sim::count("probe.converted"); sim::nontrivial(); }
    else switch (sim::choose(3, "copy")) {
        case 1: { P q(pda); verify(q, ref, nl, labels, "copy", fuzzy); if (ref.ns) { q.clear_state(0); verify(pda, ref, nl, labels, "source-of-changed-copy", fuzzy);
            for (auto it = ref.rules.begin(); it != ref.rules.end();) if (std::get<0>(it->first) == 0 || std::get<1>(it->first) == 0) it = ref.rules.erase(it); else ++it;
            std::set<std::pair<Key, int>> f2; for (auto& x : fuzzy) if (std::get<0>(x.first) && std::get<1>(x.first)) f2.insert(x); verify(q, ref, nl, labels, "cleared", f2); sim::count("probe.cleared"); } break; }
        case 2: { P q(std::move(pda)); verify(q, ref, nl, labels, "moved", fuzzy); break; }
        default: break;
    }
    if (ref.rules.size() > 4) sim::count("probe.many_rules");
}
static void run() {
    sim::choose_environment();
    switch (sim::choose(8, "kind")) {
        case 0: history<int, weight<void>, size_t, fut::type::vector>(); break;
        case 1: history<int, weight<void>, size_t, fut::type::hash>(); break;
        case 2: history<std::string, weight<uint32_t>, std::string, fut::type::vector>(); break;
        case 3: history<std::string, weight<uint32_t>, size_t, fut::type::hash>(); break;
        case 4: history<std::string, weight<std::vector<uint32_t>>, size_t, fut::type::vector>(); break;
        case 5: history<std::string, weight<void>, std::string, fut::type::hash>(); break;
        case 6: history<int, weight<std::array<uint32_t, 3>>, std::string, fut::type::vector>(); break;
        default: history<int, weight<std::vector<uint32_t>>, size_t, fut::type::hash>(); break;
    }
}
extern const sim::Property SIM_PROPERTY{"P20", run, nullptr};
