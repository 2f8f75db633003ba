// Sets of configurations (P-automata), however they are built, accept exactly the intended configurations, and every query about them agrees.
#include "regex.h"
#include "build.h"
#include "parsing/PAutomatonParser.h"
#include <functional>
using namespace bridge;
using model::Config;
using Pred = std::function<bool(const Config&)>;

static int minlen(const rx::Node& n, int nl) {       // length of the shortest word, -1: none
    switch (n.k) {
        case rx::EPS: return 0;
        case rx::LIT: for (int l = 0; l < nl; l++) if ((n.set.count(l) > 0) != n.neg) return 1; return -1;
        case rx::CAT: { int s = 0; for (auto& c : n.c) { int m = minlen(*c, nl); if (m < 0) return -1; s += m; } return s; }
        case rx::ALT: { int b = -1; for (auto& c : n.c) { int m = minlen(*c, nl); if (m >= 0 && (b < 0 || m < b)) b = m; } return b; }
        case rx::PLUS: return minlen(*n.c[0], nl);
        default: return 0;
    }
}
static bool g_large = false;
struct Spec { int ns, nl; Pred accepts; bool nonempty; Pred unspecified{}; std::vector<Config> also{}; };
template<typename A> static bool has_edge(const A& a, size_t f, uint32_t l, size_t t) { return f < a.states().size() && a.states()[f]->_edges.contains(t, l); }

template<typename A, typename Id> static void verify(const A& a, const Spec& s, const char* how, Id id) {       // id: model label -> library label id
    sim::Pause p;
    std::vector<Config> cs;
    std::vector<std::vector<int>> ws{{}};
    for (size_t i = 0; i < ws.size() && ws[i].size() < (s.nl > 8 ? 1 : s.nl > 2 ? 2 : 3); i++) for (int l = 0; l < s.nl; l++) { auto w = ws[i]; w.push_back(l); ws.push_back(w); }
    for (auto& w : ws) for (int q = 0; q < s.ns; q++) cs.push_back({q, w});
    for (int k = 0; k < 4; k++) { Config c; c.state = (int) sim::choose(s.ns, "cs"); int len = s.nl > 8 ? 2 + (int) sim::choose(20, "clen") : 3 + (int) sim::choose(4, "clen"); for (int i = 0; i < len; i++) c.stack.push_back((int) sim::choose(s.nl, "cl")); cs.push_back(c); }
    for (auto& c : s.also) { cs.push_back(c); Config d = c; if (!d.stack.empty()) { d.stack[sim::choose(d.stack.size(), "at")] = (int) sim::choose(s.nl, "other"); cs.push_back(d); d = c; d.stack.pop_back(); cs.push_back(d); } d = c; d.stack.push_back(0); cs.push_back(d); }
    int yes = 0;
    for (auto& c : cs) {
        std::vector<uint32_t> st; for (int l : c.stack) st.push_back(id(l));
        if (s.unspecified && s.unspecified(c)) continue;
        bool want = s.accepts(c), got; std::vector<size_t> path;
        { sim::Unpause u; got = a.accepts((size_t) c.state, st); path = a.accept_path((size_t) c.state, st); }
        yes += got;
        SIM_CHECK(got == want, (std::string("accepts-") + how).c_str(), "%s: configuration %s is %s, expected %s", how, model::show(c).c_str(), got ? "accepted" : "rejected", want ? "accepted" : "rejected");
        if (!want) SIM_CHECK(path.empty(), (std::string("path-of-rejected-") + how).c_str(), "%s: an accepting path is given for the rejected configuration %s", how, model::show(c).c_str());
        else {
            bool ok = path.size() == st.size() + 1 && path[0] == (size_t) c.state && path.back() < a.states().size() && a.states()[path.back()]->_accepting;
            for (size_t i = 0; ok && i < st.size(); i++) ok = has_edge(a, path[i], st[i], path[i + 1]);
            SIM_CHECK(ok, (std::string("path-") + how).c_str(), "%s: the accepting path given for %s is not one", how, model::show(c).c_str());
        }
    }
    auto fp = [&] { sim::Unpause u; return a.find_path(); }();
    SIM_CHECK(!fp.is_null() == s.nonempty, (std::string("find_path-") + how).c_str(), "%s: find_path says %s", how, s.nonempty ? "nothing is accepted" : "something is accepted");
    if (s.nonempty) {
        auto [path, stack] = fp.get_path_and_stack();
        bool ok = path.size() == stack.size() + 1 && path[0] < (size_t) s.ns && a.states()[path.back()]->_accepting;
        for (size_t i = 0; ok && i < stack.size(); i++) ok = has_edge(a, path[i], stack[i], path[i + 1]);
        SIM_CHECK(ok, (std::string("find_path-path-") + how).c_str(), "%s: find_path gives a path that does not accept", how);
    }
    bool any = false; for (auto& st : a.states()) any |= st->_accepting;
    SIM_CHECK(a.has_accepting_state() == any, "has_accepting_state", "%s: has_accepting_state() is %d", how, !any);
    sim::ev(how, yes, cs.size(), fp.edges_size());
    sim::count(yes ? "probe.nonempty" : "probe.empty_set");
    if (yes > 0 && (size_t) yes < cs.size()) sim::count("probe.discriminating");
}
template<typename A, typename N> static void verify_json(const A& a, int ns, const char* how, N name) {     // name: state id -> json
    sim::Pause p;
    nlohmann::json j; { sim::Unpause u; nlohmann::json k = a.to_json("x"); j = std::move(k); }
    auto& x = j["x"]; std::multiset<std::string> e, w, acc, wacc, ini, wini;
    for (auto& t : x["edges"]) e.insert(t.dump());
    if (x.contains("accepting")) for (auto& t : x["accepting"]) acc.insert(t.dump());
    if (x.contains("initial")) for (auto& t : x["initial"]) ini.insert(t.dump());
    for (auto& s : a.states()) {
        if (s->_accepting) wacc.insert(nlohmann::json(name(s->_id)).dump());
        if ((int) s->_id < ns) wini.insert(nlohmann::json(name(s->_id)).dump());
        for (auto& [to, ls] : s->_edges) for (auto& [l, x] : ls) w.insert(nlohmann::json::array({name(s->_id), details::label_to_string(a.get_symbol(l)), name(to)}).dump());
    }
    SIM_CHECK(e == w && acc == wacc && ini == wini, (std::string("json-") + how).c_str(), "%s: the JSON form does not list the automaton's edges, accepting and initial states", how);
    sim::count("probe.json");
}
// the same automaton after copying and moving
template<typename P, typename A, typename Id> static void with_copies(const P& pda, A&& a, const Spec& s, const char* how, Id id) {
    verify(a, s, how, id);
    switch (sim::choose(4, "copy")) {
        case 1: { A b(a); verify(b, s, "copy", id); if (sim::chance(1, 2, "mod")) { b.set_state_accepting(0); verify(a, s, "source-of-modified-copy", id); } break; }
        case 2: { A b(std::move(a)); verify(b, s, "moved", id); break; }
        case 3: { P other(pda); A b(std::move(a), other); verify(b, s, "moved-to-other-pda", id); break; }
        default: break;
    }
}
static std::vector<size_t> subset(int ns) { std::vector<size_t> r; for (int i = 0; i < ns; i++) if (sim::chance(1, 2, "in")) r.push_back(i); return r; }
template<typename T> static NFA<T> build(const rx::Node& n, const std::function<T(int)>& lab) {
    using N = NFA<T>;
    switch (n.k) {
        case rx::EPS: return N(true);
        case rx::LIT: { std::unordered_set<T> s; for (int l : n.set) s.insert(lab(l)); return N(std::move(s), n.neg); }
        case rx::CAT: { N a = build<T>(*n.c[0], lab); for (size_t i = 1; i < n.c.size(); i++) a.concat(build<T>(*n.c[i], lab)); return a; }
        case rx::ALT: { N a = build<T>(*n.c[0], lab); for (size_t i = 1; i < n.c.size(); i++) a.or_extend(build<T>(*n.c[i], lab)); return a; }
        case rx::STAR: { N a = build<T>(*n.c[0], lab); a.star_extend(); return a; }
        case rx::PLUS: { N a = build<T>(*n.c[0], lab); a.plus_extend(); return a; }
        default: { N a = build<T>(*n.c[0], lab); a.question_extend(); return a; }
    }
}
struct Atom { std::vector<size_t> states; rx::P e; };
static Spec spec_of(const std::vector<Atom>& as, int ns, int nl) {
    Spec s{ns, nl, [as](const Config& c) { for (auto& a : as) if (std::find(a.states.begin(), a.states.end(), (size_t) c.state) != a.states.end() && rx::matches(*a.e, c.stack)) return true; return false; }, false};
    for (auto& a : as) if (!a.states.empty() && minlen(*a.e, nl) >= 0) s.nonempty = true;
    return s;
}
// ---- built by calls ----------------------------------------------------------------------------
template<typename L, typename W> static void by_calls(int ns, int nl) {
    std::vector<int> order; for (int i = 0; i < nl; i++) order.push_back(i);
    using P = PDA<L, W>;
    P pda; bool incremental = sim::chance(1, 2, "labels-by-call");
    if (incremental) { for (int i = nl; i > 1; i--) std::swap(order[i - 1], order[sim::choose(i, "perm")]); for (int l : order) pda.insert_label(lab<L>(l)); }
    else { std::unordered_set<L> ls; for (int l : order) ls.insert(lab<L>(l)); P q(ls); pda = std::move(q); }
    for (int i = 0; i < ns; i++) pda.insert_state(i);
    auto id = [&](int l) { return (uint32_t) pda.exists_label(lab<L>(l)).second; };
    using A = PAutomaton<L, W, size_t, true>;
    auto name = [](size_t i) { return i; };
    int kind = (int) sim::choose(3, "how");
    if (kind == 0) {
        Config c; { sim::Pause p; c = model::gen_config(ns, nl, true); if (g_large) { int k = (int) sim::choose(80, "deep"); for (int i = 0; i < k; i++) c.stack.push_back((int) sim::choose(nl, "cl")); } if (sim::verbose()) sim::note("configuration %s", model::show(c).c_str()); }
        std::vector<L> st; for (int l : c.stack) st.push_back(lab<L>(l));
        if (sim::chance(1, 4, "oom")) { sim::nontrivial(); int64_t live = sim::live_blocks(); sim::arm_alloc_failure(1 + sim::choose(20, "kth")); try { A a(pda, (size_t) c.state, st); } catch (const std::bad_alloc&) { } if (sim::alloc_failure_fired()) sim::count("fault.alloc"); sim::arm_alloc_failure(0); sim::check_heap(); SIM_CHECK(sim::live_blocks() == live, "leak", "%ld blocks are lost after a failed construction", (long) (sim::live_blocks() - live)); }
        A a(pda, (size_t) c.state, st);
        verify_json(a, ns, "single", name);
        with_copies(pda, std::move(a), Spec{ns, nl, [c](const Config& d) { return c == d; }, true, {}, {c}}, "single", id);
        return;
    }
    std::vector<Atom> as; int n = 1 + (int) sim::choose(g_large ? 12 : 3, "atoms");
    for (int i = 0; i < n; i++) { sim::Pause p; Atom a; a.states = subset(ns); a.e = rx::gen((int) sim::choose(4, "depth"), nl); if (sim::verbose()) { std::string s; for (auto q : a.states) s += std::to_string(q) + " "; sim::note("atom: states {%s} regex %s", s.c_str(), rx::show(*a.e).c_str()); } as.push_back(a); }
    auto make = [&](const Atom& a) {
        if (kind == 1) { auto nfa = build<L>(*a.e, [](int l) { return lab<L>(l); }); nfa.compile(); return A(pda, nfa, a.states); }
        auto nfa = build<uint32_t>(*a.e, [&](int l) { return id(l); }); nfa.compile(); return A(pda, nfa, a.states);
    };
    auto all = [&] { A a = make(as[0]); for (size_t i = 1; i < as.size(); i++) { A b = make(as[i]); a.or_extend(std::move(b)); } return a; };
    if (sim::chance(1, 4, "oom")) {
        sim::nontrivial(); int64_t live = sim::live_blocks(); sim::arm_alloc_failure(1 + sim::choose(80, "kth")); bool oom = false;
        try { auto a = all(); } catch (const std::bad_alloc&) { oom = true; }
        bool fired = sim::alloc_failure_fired(); sim::arm_alloc_failure(0); if (fired) sim::count("fault.alloc");
        SIM_CHECK(!fired || oom, "swallowed-bad_alloc", "an allocation failed but construction went on");
        sim::check_heap(); SIM_CHECK(sim::live_blocks() == live, "leak", "%ld blocks are lost after a failed construction", (long) (sim::live_blocks() - live));
    }
    A a = all();
    verify_json(a, ns, "regex", name);
    { sim::Pause p; auto s = spec_of(as, ns, nl); sim::Unpause u; with_copies(pda, std::move(a), s, kind == 1 ? "regex" : "regex-ids", id); }
}
// ---- unions of automata given edge by edge, also with edges into control states ------------------
template<typename W> static void by_edges(int ns, int nl) {
    using P = PDA<int, W>; std::unordered_set<int> ls; for (int l = 0; l < nl; l++) ls.insert(lab<int>(l)); P pda(ls); for (int i = 0; i < ns; i++) pda.insert_state(i);
    using A = PAutomaton<int, W, size_t, true>; int n = 1 + (int) sim::choose(3, "automata");
    std::vector<model::Aut> ms; model::Aut both; both.n = ns; both.acc.assign(ns, 0); bool nonempty = false;
    { sim::Pause p; for (int k = 0; k < n; k++) {
        model::Aut m; m.n = ns + (int) sim::choose(g_large ? 40 : 4, "extra"); for (int i = 0; i < m.n; i++) m.acc.push_back(sim::chance(1, i < ns ? 6 : 3, "acc"));
        int ne = (int) sim::choose(g_large ? 120 : 9, "ne"); for (int i = 0; i < ne; i++) { model::Edge e{(int) sim::choose(m.n, "ef"), (int) sim::choose(nl, "el"), m.n - 1 - (int) sim::choose(m.n, "et")}; if (std::find(m.edges.begin(), m.edges.end(), e) == m.edges.end()) m.edges.push_back(e); }
        int off = both.n - ns; auto at = [&](int q) { return q < ns ? q : q + off; };
        for (int i = 0; i < m.n; i++) { if (i < ns) both.acc[i] |= m.acc[i]; else { both.acc.push_back(m.acc[i]); both.n++; } }
        for (auto& [f, l, t] : m.edges) { both.edges.push_back({at(f), l, at(t)}); if (t < ns && f >= ns) sim::count("probe.edge_into_control_state"); }
        std::set<int> r; for (int i = 0; i < ns; i++) r.insert(i); for (int i = 0; i < m.n; i++) for (auto& [f, l, t] : m.edges) if (r.count(f)) r.insert(t); for (int q : r) nonempty |= m.acc[q];
        if (sim::verbose()) sim::note("automaton %s", model::show(m).c_str());
        ms.push_back(m); } }
    auto make = [&](const model::Aut& m) { std::vector<size_t> acc; for (int i = 0; i < ns; i++) if (m.acc[i]) acc.push_back(i); A a(pda, acc, true); for (int i = ns; i < m.n; i++) a.add_state(false, m.acc[i]); for (auto& [f, l, t] : m.edges) a.add_edge(f, t, l); return a; };
    auto a = make(ms[0]); for (int k = 1; k < n; k++) a.or_extend(make(ms[k]));
    auto un = [ms](const Config& c) { for (auto& m : ms) if (m.accepts(c)) return true; return false; };
    if (n > 1) sim::nontrivial();
    verify_json(a, ns, "union-by-edges", [](size_t i) { return i; });
    // a configuration accepted only by going through a control state from one automaton into another may be accepted or not
    sim::Pause p; Spec s{ns, nl, un, nonempty, [un, both](const Config& c) { return !un(c) && both.accepts(c); }}; sim::Unpause u;
    with_copies(pda, std::move(a), s, "union-by-edges", [](int l) { return (uint32_t) l; });
}
// ---- weighted edges: lightest accepting paths ---------------------------------------------------
template<typename W> static void weighted(int ns, int nl) {
    using P = PDA<int, W>; std::unordered_set<int> ls; for (int l = 0; l < nl; l++) ls.insert(lab<int>(l)); P pda(ls); for (int i = 0; i < ns; i++) pda.insert_state(i);
    model::Aut m; std::vector<model::Vec> w; model::GenOpts o; o.wmode = W::is_vector ? 3 : 1;
    { sim::Pause p; m.n = ns; m.acc.assign(ns, 0); int extra = 1 + (int) sim::choose(g_large ? 20 : 4, "extra"); for (int i = 0; i < ns; i++) if (sim::chance(1, 8, "acc0")) m.acc[i] = 1; for (int i = 0; i < extra; i++) { m.n++; m.acc.push_back(sim::chance(1, 3, "acc")); }
      int ne = (int) sim::choose(g_large ? 80 : 12, "ne"); for (int i = 0; i < ne; i++) { model::Edge e{(int) sim::choose(m.n, "ef"), (int) sim::choose(nl, "el"), ns + (int) sim::choose(m.n - ns, "et")}; if (std::find(m.edges.begin(), m.edges.end(), e) == m.edges.end()) { m.edges.push_back(e); w.push_back(model::gen_w(o)); } }
      if (sim::verbose()) { sim::note("automaton %s", model::show(m).c_str()); for (auto& x : w) sim::note("  weight %s", model::str(x).c_str()); } }
    using A = PAutomaton<int, W, size_t, true>; std::vector<size_t> acc; for (int i = 0; i < ns; i++) if (m.acc[i]) acc.push_back(i);
    A a(pda, acc, true); bool late = sim::chance(1, 3, "late-accept");
    for (int i = ns; i < m.n; i++) a.add_state(false, late ? false : m.acc[i]);
    for (size_t i = 0; i < m.edges.size(); i++) { auto [f, l, t] = m.edges[i]; a.add_edge(f, t, l, std::make_pair(internal::trace_t(), weight_of<W>(w[i]))); }
    if (late) for (int i = ns; i < m.n; i++) if (m.acc[i]) a.set_state_accepting(i);
    using V = std::optional<model::Vec>;
    auto better = [](const V& x, const V& y) { return x && (!y || model::cmp(*x, *y) < 0); };
    // shortest over the whole automaton (Bellman-Ford: weights are not negative)
    V best; { sim::Pause p; std::vector<V> d(m.n); for (int i = 0; i < ns; i++) d[i] = model::Vec{}; for (int k = 0; k <= m.n; k++) for (size_t i = 0; i < m.edges.size(); i++) { auto [f, l, t] = m.edges[i]; if (d[f]) { V c = model::add(*d[f], w[i]); if (better(c, d[t])) d[t] = c; } } for (int i = 0; i < m.n; i++) if (m.acc[i] && better(d[i], best)) best = d[i]; }
    auto weigh = [&](const std::vector<size_t>& path, const std::vector<uint32_t>& st) -> V {
        if (path.size() != st.size() + 1 || !(path.back() < m.acc.size()) || !m.acc[path.back()]) return {};
        model::Vec s; for (size_t i = 0; i < st.size(); i++) { auto it = std::find(m.edges.begin(), m.edges.end(), model::Edge{(int) path[i], (int) st[i], (int) path[i + 1]}); if (it == m.edges.end()) return {}; s = model::add(s, w[it - m.edges.begin()]); }
        return s;
    };
    { auto [path, wt] = a.find_path_shortest(); sim::Pause p; SIM_CHECK(path.is_null() == !best, "find_shortest", "find_path_shortest says %s", best ? "empty" : "not empty");
      if (best) { SIM_CHECK(vec_of(wt) == *best, "find_shortest-weight", "find_path_shortest reports weight %s, the minimum is %s", model::str(vec_of(wt)).c_str(), model::str(*best).c_str()); auto [ps, st] = path.get_path_and_stack(); V x; if (ps[0] < (size_t) ns) x = weigh(ps, st); SIM_CHECK(x && *x == *best, "find_shortest-path", "the path of find_path_shortest does not have the reported weight"); } }
    for (int k = 0; k < 6; k++) {
        Config c; { sim::Pause p; c = model::gen_config(ns, nl, true); if (sim::chance(1, 2, "follow")) { c.stack.clear(); int q = c.state, len = (int) sim::choose(g_large ? 40 : 8, "len"); for (int i = 0; i < len; i++) { std::vector<model::Edge> out; for (auto& e : m.edges) if (std::get<0>(e) == q) out.push_back(e); if (out.empty()) break; auto [f, l, t] = out[sim::choose(out.size(), "edge")]; c.stack.push_back(l); q = t; } } }
        std::vector<uint32_t> st(c.stack.begin(), c.stack.end());
        V want; { sim::Pause p; std::vector<V> d(m.n); d[c.state] = model::Vec{}; for (int l : c.stack) { std::vector<V> nx(m.n); for (size_t i = 0; i < m.edges.size(); i++) { auto [f, el, t] = m.edges[i]; if (el == l && d[f]) { V x = model::add(*d[f], w[i]); if (better(x, nx[t])) nx[t] = x; } } d = nx; } for (int i = 0; i < m.n; i++) if (m.acc[i] && better(d[i], want)) want = d[i]; }
        auto [path, wt] = a.template accept_path<Trace_Type::Shortest>((size_t) c.state, st); sim::Pause p;
        SIM_CHECK(path.empty() == !want, "accept_shortest", "%s: the shortest accepting path is %s", model::show(c).c_str(), path.empty() ? "missing" : "invented");
        if (want) { SIM_CHECK(vec_of(wt) == *want, "accept_shortest-weight", "%s: reported weight %s, minimum %s", model::show(c).c_str(), model::str(vec_of(wt)).c_str(), model::str(*want).c_str()); V x = weigh(path, st); SIM_CHECK(x && *x == *want && path[0] == (size_t) c.state, "accept_shortest-path", "%s: the path does not have the reported weight", model::show(c).c_str()); sim::count("probe.weighted_paths"); }
    }
    sim::Pause p; bool ne = (bool) best; sim::Unpause u;
    verify(a, Spec{ns, nl, [&](const Config& c) { return m.accepts(c); }, ne}, "by-edges", [](int l) { return (uint32_t) l; });
    sim::nontrivial();
}
// ---- text -----------------------------------------------------------------------------------------
static const std::vector<std::string> NAMES = [] { std::vector<std::string> v{"p0", "q_1", "7", "a b", "x\"y\\z", "P0"}; while (v.size() < 50) v.push_back("n" + std::to_string(v.size())); return v; }();
static std::string print_state(int i, bool numeric) { if (numeric) { std::string n = (sim::chance(1, 8, "zeros") ? "00" : "") + std::to_string(i); return sim::chance(1, 6, "quote") ? "\"" + n + "\"" : n; } std::string n = NAMES[i]; bool plain = i < 3 || i >= 5; if (plain && !sim::chance(1, 5, "quote")) return n; std::string s = "\""; for (char c : n) { if (c == '"' || c == '\\') s += '\\'; s += c; } return s + "\""; }
struct Recog {      // recogniser of the text syntax
    const std::string& s; const std::vector<std::string>& names; bool numeric = false; size_t i = 0;
    void skip() { rx::Recog r{s, i, false, nullptr}; r.skip(); i = r.i; }
    bool at(char c) const { return i < s.size() && s[i] == c; }
    bool state(Atom& a) {
        std::string n; auto alpha = [](char c) { return isalpha((unsigned char) c) || c == '_'; };
        if (i < s.size() && isdigit((unsigned char) s[i])) while (i < s.size() && isdigit((unsigned char) s[i])) n += s[i++];
        else if (i < s.size() && alpha(s[i])) while (i < s.size() && (alpha(s[i]) || isdigit((unsigned char) s[i]))) n += s[i++];
        else if (at('"')) { i++; for (;;) { if (i >= s.size()) return false; if (at('"')) { i++; break; } if (at('\\')) { i++; if (!at('"') && !at('\\')) return false; n += s[i++]; } else { if ((unsigned char) s[i] < 0x20) return false; n += s[i++]; } } }
        else return false;
        if (numeric) { if (n.empty() || n.find_first_not_of("0123456789") != std::string::npos) return false; while (n.size() > 1 && n[0] == '0') n.erase(0, 1); }
        auto it = std::find(names.begin(), names.end(), n); if (it == names.end()) return false; a.states.push_back(it - names.begin()); return true;
    }
    bool atom(std::vector<Atom>& out) {
        Atom a; if (!at('<')) return false; i++; skip();
        if (at('[')) { i++; if (!state(a)) return false; for (;;) { size_t b = i; skip(); if (!at(',')) { i = b; break; } i++; skip(); if (!state(a)) return false; } if (!at(']')) return false; i++; }
        else if (!state(a)) return false;
        skip(); if (!at(',')) return false; i++; skip();
        rx::Recog r{s, i, false, [](const std::string& l) { return l.size() == 1 && l[0] >= 'a' && l[0] <= 'z' ? l[0] - 'a' : l.size() == 3 && l[0] == 'l' && isdigit(l[1]) && isdigit(l[2]) && l >= "l26" ? std::stoi(l.substr(1)) : 1000 + (int) (std::hash<std::string>{}(l) & 0xffff); }};
        a.e = r.expr(); if (r.bad) return false; if (!a.e) a.e = rx::mk(rx::EPS); i = r.i; skip(); if (!at('>')) return false; i++;
        out.push_back(a); return true;
    }
    bool file(std::vector<Atom>& out) { skip(); if (!atom(out)) return false; for (;;) { size_t b = i; skip(); if (!at('|')) { i = b; break; } i++; skip(); if (!atom(out)) return false; } skip(); return i == s.size(); }
};
template<typename W, typename S> static void text(int ns, int nl) {
    constexpr bool numeric = std::is_same_v<S, size_t>;
    using P = PDA<std::string, W, fut::type::vector, S>;
    std::unordered_set<std::string> ls; for (int l = 0; l < nl; l++) ls.insert(lab<std::string>(l)); P pda(ls);
    std::vector<std::string> names; for (int i = 0; i < ns; i++) { if constexpr (numeric) pda.insert_state(i); else pda.insert_state(NAMES[i]); sim::Pause p; names.push_back(numeric ? std::to_string(i) : NAMES[i]); }
    std::string t;
    { sim::Pause p; int n = 1 + (int) sim::choose(3, "atoms");
      for (int i = 0; i < n; i++) {
        if (i) t += rx::ws() + "|" + rx::ws();
        auto q = subset(ns); if (q.empty()) q.push_back(0); if (sim::chance(1, 6, "dup")) q.push_back(q[0]); if (sim::chance(1, 2, "rev")) std::reverse(q.begin(), q.end());
        t += "<" + rx::ws(); if (q.size() == 1 && sim::chance(1, 2, "bare")) t += print_state((int) q[0], numeric); else { t += "["; for (size_t k = 0; k < q.size(); k++) { if (k) t += rx::ws() + "," + rx::ws(); t += print_state((int) q[k], numeric); } t += "]"; }
        t += rx::ws() + "," + rx::ws(); if (!sim::chance(1, 6, "eps")) t += rx::print(*rx::gen((int) sim::choose(3, "depth"), nl)); t += rx::ws() + ">"; }
      if (sim::chance(1, 2, "damage")) { sim::nontrivial(); static const char junk[] = "<>()[]|*+?.^,a b#\n0\"\\p"; int nm = 1 + (int) sim::choose(2, "nd"); for (int i = 0; i < nm && !t.empty(); i++) { size_t at = sim::choose(t.size(), "at"); switch (sim::choose(4, "dmg")) { case 0: t.resize(at); sim::count("fault.truncated"); break; case 1: t.erase(at, 1); sim::count("fault.lost_byte"); break; case 2: t.insert(at, 1, junk[sim::choose(sizeof junk - 1, "c")]); sim::count("fault.inserted_byte"); break; default: t[at] = junk[sim::choose(sizeof junk - 1, "c")]; sim::count("fault.flipped_byte"); } } }
      sim::evs("text", t); if (sim::verbose()) sim::note("text: %s", t.c_str()); }
    std::vector<Atom> as; bool ok; { sim::Pause p; Recog r{t, names, numeric}; ok = r.file(as); }
    if (sim::chance(1, 5, "oom")) { sim::nontrivial(); P scratch(pda); int64_t live = sim::live_blocks(); size_t nlab = scratch.number_of_labels(); sim::arm_alloc_failure(1 + sim::choose(100, "kth")); try { auto a = parsing::PAutomatonParser::parse_string(t, scratch); } catch (const std::bad_alloc&) {} catch (const std::runtime_error&) {} if (sim::alloc_failure_fired()) sim::count("fault.alloc"); sim::arm_alloc_failure(0); sim::check_heap(); if (scratch.number_of_labels() == nlab) SIM_CHECK(sim::live_blocks() == live, "leak", "%ld blocks are lost after a failed parse", (long) (sim::live_blocks() - live)); }
    std::optional<decltype(parsing::PAutomatonParser::parse_string(t, pda))> a; std::string err;
    try { a.emplace(parsing::PAutomatonParser::parse_string(t, pda)); } catch (const std::runtime_error& e) { sim::Pause p; err = e.what(); }
    SIM_CHECK((bool) a == ok, ok ? "rejected-valid" : "accepted-garbage", "text was %s, expected %s: %s", a ? "accepted" : "rejected", ok ? "accepted" : "rejected", err.c_str());
    sim::ev("text", ok);
    if (!ok) { sim::count("probe.rejected_text"); return; }
    SIM_CHECK(pda.states().size() == (size_t) ns, "pda-grew", "parsing configurations added states to the PDA");
    sim::Pause p; int maxl = (int) pda.number_of_labels(); auto s = spec_of(as, ns, nl); if (maxl > nl) s.nonempty = !a->find_path().is_null(); sim::Unpause u;
    verify(*a, s, "text", [&](int l) { return (uint32_t) pda.exists_label(lab<std::string>(l)).second; });
    verify_json(*a, ns, "text", [&](size_t i) -> nlohmann::json { if ((int) i < ns && !numeric) return NAMES[i]; return i; });
}
static void run() {
    sim::choose_environment();
    int ns = 1 + (int) sim::choose(4, "ns"), nl = 1 + (int) sim::choose(3, "nl"); g_large = sim::chance(1, 24, "large"); if (g_large) { sim::large_instance(); sim::count("probe.large"); if (sim::chance(1, 2, "labels")) nl = 9 + (int) sim::choose(70, "many-labels"); else ns = 6 + (int) sim::choose(30, "many-states"); }
    switch (sim::choose(7, "kind")) {
        case 0: by_calls<int, weight<void>>(ns, nl); break;
        case 1: by_calls<std::string, weight<uint32_t>>(ns, nl); break;
        case 2: weighted<weight<uint32_t>>(ns, nl); break;
        case 3: weighted<weight<std::vector<uint32_t>>>(ns, nl); break;
        case 4: text<weight<void>, std::string>(ns + (int) sim::choose(3, "ns2"), nl); break;
        case 5: if (sim::chance(1, 2, "weighted")) by_edges<weight<uint32_t>>(ns, nl); else by_edges<weight<void>>(ns, nl); break;
        default: if (sim::chance(1, 2, "numbered")) text<weight<void>, size_t>(ns, nl); else text<weight<uint32_t>, std::string>(ns, nl); break;
    }
}
static void warmup() { PDA<std::string, weight<void>, fut::type::vector, std::string> p; p.insert_state("p"); try { parsing::PAutomatonParser::parse_string("<p,[a>", p); } catch (...) {} }
extern const sim::Property SIM_PROPERTY{"P12", run, warmup};
