// Drawings show what they are given: the dot text of an automaton, expression automaton or product, printed at any moment of its history and by any number of
// clients at once, has exactly its states, arrows, labels and weights; a device that fails gets a prefix of it, and the object printed is left as it was.
#include "regex.h"
#include "build.h"
#include <pdaaal/NFA.h>
#include <map>
#include <memory>
#include <set>
#include <sstream>
using namespace bridge;
using S = std::string;
struct Device : std::streambuf {
    S data; size_t capacity = SIZE_MAX; bool throws = false, refused = false;
    bool put(char c) { if (data.size() >= capacity) { if (!refused) { refused = true; sim::count("fault.write_error"); sim::nontrivial(); } return false; } sim::Pause p; data.push_back(c); return true; }
    int_type overflow(int_type c) override { sim::yield_point("put"); if (c == traits_type::eof()) return 0; if (!put((char) c)) { if (throws) throw std::runtime_error("device"); return traits_type::eof(); } return c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { sim::yield_point("write"); std::streamsize k = 0; for (; k < n; k++) if (!put(s[k])) { if (throws) throw std::runtime_error("device"); break; } return k; }
    int sync() override { return refused ? -1 : 0; }
};
// ---- what a drawing shows ----------------------------------------------------------------------
using Items = std::set<S>;
struct Graph { std::multimap<S, bool> nodes; std::multiset<S> initial; std::multiset<std::tuple<S, S, Items>> edges; };
static S show(const Items& l) { S s; for (auto& x : l) s += (s.empty() ? "" : " ") + x; return s; }
struct Parser {
    const S& t; size_t i = 0; S err; const Items* all = nullptr;      // all: what "*" stands for
    void ws() { while (i < t.size() && isspace((unsigned char) t[i])) i++; }
    bool lit(const char* s) { ws(); size_t n = strlen(s); if (t.compare(i, n, s) == 0) { i += n; return true; } return false; }
    bool str(S& o) { ws(); if (i >= t.size() || t[i] != '"') return false; size_t e = t.find('"', i + 1); if (e == S::npos) return false; o = t.substr(i + 1, e - i - 1); i = e + 1; return true; }
    bool word(S& o) { ws(); o.clear(); if (i < t.size() && t[i] == '"') return str(o); while (i < t.size() && (isalnum((unsigned char) t[i]) || t[i] == '_')) o += t[i++]; return !o.empty(); }
    bool attrs(std::map<S, S>& a) { if (!lit("[")) return true; for (;;) { if (lit("]")) return true; S k, v; if (!word(k) || !lit("=") || !word(v)) return false; a[k] = v; lit(","); } }
    bool label(const S& s, Items& l) {
        size_t k = 0; static const S EPS = "\xF0\x9D\x9C\x80"; bool neg = false, listed = false;
        while (k < s.size()) {
            if (s[k] == ' ') { k++; continue; }
            if (s[k] == '^') { neg = true; k++; continue; }
            if (s[k] == '*') { k++; if (all) l.insert(all->begin(), all->end()); else l.insert("*"); continue; }
            if (s.compare(k, EPS.size(), EPS) == 0) { k += EPS.size(); S x = "eps"; if (k < s.size() && s[k] == '(') { size_t e = s.find(')', k); if (e == S::npos) return false; x += s.substr(k, e + 1 - k); k = e + 1; } l.insert(x); continue; }
            if (s.compare(k, 2, "\\[") == 0) { size_t e = s.find("\\]", k); if (e == S::npos || listed) return false; listed = true; S in = s.substr(k + 2, e - k - 2); k = e + 2; int d = 0; S cur; auto flush = [&] { while (!cur.empty() && cur[0] == ' ') cur.erase(0, 1); if (cur.empty() || !l.insert(cur).second) err = "a label is listed twice or empty"; cur.clear(); };
                for (char c : in) { d += c == '(' || c == '['; d -= c == ')' || c == ']'; if (c == ',' && !d) flush(); else cur += c; } flush(); continue; }
            return false;
        }
        if (neg) l.insert("^");
        return err.empty();
    }
    bool graph(Graph& g) {
        S x; if (!lit("digraph")) return err = "no digraph", false; word(x); if (!lit("{")) return err = "no {", false;
        std::multiset<S> invisible; std::multiset<std::pair<S, S>> marks;
        for (;;) {
            if (lit("}")) break;
            S a, b; if (!str(a)) return err = "expected a node", false; bool arrow = lit("->"); if (arrow && !str(b)) return err = "expected a target", false;
            std::map<S, S> at; if (!attrs(at)) return err = "bad attributes", false; if (!lit(";")) return err = "no ;", false;
            if (!arrow) { if (at["style"] == "invisible") invisible.insert(a); else if (at["shape"] == "circle" || at["shape"] == "doublecircle") g.nodes.emplace(a, at["shape"] == "doublecircle"); else return err = "node without shape", false; }
            else if (at.count("label")) { Items l; if (!label(at["label"], l)) return err = "bad label " + at["label"] + " " + err, false; g.edges.insert({a, b, l}); }
            else marks.insert({a, b});
        }
        ws(); if (i != t.size()) return err = "text after the graph", false;
        for (auto& [a, b] : marks) { if (a != "I" + b || invisible.count(a) != 1) return err = "bad start marker " + a, false; g.initial.insert(b); }
        if (invisible.size() != marks.size()) return err = "start marker without arrow", false;
        return true;
    }
};
static void compare(const S& text, const Graph& want, const Items* all, const char* what) {
    sim::Pause p; Graph g; Parser ps{text, 0, {}, all}; S n = what;
    SIM_CHECK(ps.graph(g), ("malformed-" + n).c_str(), "%s: the drawing cannot be read: %s", what, ps.err.c_str());
    SIM_CHECK(g.nodes == want.nodes, ("nodes-" + n).c_str(), "%s: the drawing has %zu nodes, expected %zu, or other names or shapes", what, g.nodes.size(), want.nodes.size());
    SIM_CHECK(g.initial == want.initial, ("initial-" + n).c_str(), "%s: %zu states are marked as initial, expected %zu (or others)", what, g.initial.size(), want.initial.size());
    if (g.edges != want.edges) for (auto& e : want.edges) if (!g.edges.count(e)) sim::fail(("edges-" + n).c_str(), "%s: the arrow %s -> %s with label {%s} is not in the drawing", what, std::get<0>(e).c_str(), std::get<1>(e).c_str(), show(std::get<2>(e)).c_str());
    if (g.edges != want.edges) for (auto& e : g.edges) if (g.edges.count(e) != want.edges.count(e)) sim::fail(("edges-" + n).c_str(), "%s: the drawing has an arrow %s -> %s with label {%s} too many", what, std::get<0>(e).c_str(), std::get<1>(e).c_str(), show(std::get<2>(e)).c_str());
    sim::ev(what, g.nodes.size(), g.edges.size(), g.initial.size()); sim::count("probe.drawings");
    for (auto& e : g.edges) if (std::get<2>(e).size() > 1) { sim::count("probe.several_labels"); break; }
}
// ---- printing under faults, again, and by several clients ----------------------------------------
template<typename D> static void printing(const D& draw, const Graph& want, const Items* all, const char* what) {      // draw(stream)
    Device clean; { std::ostream o(&clean); draw(o); SIM_CHECK(o.good(), "stream-state", "%s: printing to a working device leaves the stream in an error state", what); }
    if (sim::verbose()) sim::note("%s", clean.data.c_str());
    compare(clean.data, want, all, what);
    switch (sim::choose(4, "mode")) {
        case 1: {
            Device d; d.capacity = sim::choose(clean.data.size() + 2, "capacity"); d.throws = sim::chance(1, 5, "device-throws"); std::ostream o(&d); bool ex = sim::chance(1, 3, "exceptions"), thrown = false; if (ex) o.exceptions(std::ios::badbit | std::ios::failbit);
            try { draw(o); } catch (const std::ios_base::failure&) { thrown = true; } catch (const std::runtime_error&) { thrown = true; }
            SIM_CHECK(clean.data.compare(0, d.data.size(), d.data) == 0, "not-a-prefix", "%s: the failing device did not receive a prefix of the drawing", what);
            SIM_CHECK((d.refused ? !o.good() && thrown == ex : d.data == clean.data && !thrown && o.good()), "failure-hidden", "%s: a refused write is not reported by the stream", what);
            break; }
        case 2: {
            sim::nontrivial(); Device d; std::ostream o(&d); int64_t live = sim::live_blocks(); bool oom = false; sim::arm_alloc_failure(1 + sim::choose(6, "kth"));
            try { draw(o); } catch (const std::bad_alloc&) { oom = true; }
            bool fired = sim::alloc_failure_fired(); sim::arm_alloc_failure(0); if (fired) sim::count("fault.alloc"); sim::check_heap();
            SIM_CHECK(clean.data.compare(0, d.data.size(), d.data) == 0 && (fired || d.data == clean.data) && (!fired || oom || !o.good() || d.data == clean.data), "failed-allocation", "%s: a failing allocation changes the drawing", what);
            SIM_CHECK(sim::live_blocks() == live, "leak", "%s: %ld blocks are lost", what, (long) (sim::live_blocks() - live));
            break; }
        case 3: {
            int n = 2 + (int) sim::choose(2, "clients"); std::vector<std::unique_ptr<Device>> ds; std::vector<std::function<void()>> tasks;
            { sim::Pause p; for (int i = 0; i < n; i++) ds.push_back(std::make_unique<Device>()); for (int i = 0; i < n; i++) tasks.push_back([&, i] { std::ostream o(ds[i].get()); draw(o); }); }
            sim::run_fibers(std::move(tasks), sim::chance(1, 2, "often") ? 2 : 10); sim::count("probe.clients"); sim::nontrivial();
            for (auto& d : ds) SIM_CHECK(d->data == clean.data, "interleaved", "%s: a drawing made while another client draws the same object differs", what);
            break; }
        default: break;
    }
    Device again; { std::ostream o(&again); draw(o); } SIM_CHECK(again.data == clean.data, "printed-again", "%s: the drawing changes when it is printed again", what);
}
struct Stop {};
// ---- expression automata -----------------------------------------------------------------------
using N = NFA<size_t>;
static N build(const rx::Node& n) {
    switch (n.k) {
        case rx::EPS: return N(true);
        case rx::LIT: { std::unordered_set<size_t> s; for (int l : n.set) s.insert(l); return N(std::move(s), n.neg); }
        case rx::CAT: { N a = build(*n.c[0]); for (size_t i = 1; i < n.c.size(); i++) { N b = build(*n.c[i]); a.concat(std::move(b)); } return a; }
        case rx::ALT: { N a = build(*n.c[0]); for (size_t i = 1; i < n.c.size(); i++) { N b = build(*n.c[i]); a.or_extend(std::move(b)); } return a; }
        case rx::STAR: { N a = build(*n.c[0]); a.star_extend(); return a; }
        case rx::PLUS: { N a = build(*n.c[0]); a.plus_extend(); return a; }
        default: { N a = build(*n.c[0]); a.question_extend(); return a; }
    }
}
static void expressions() {
    rx::P e; { sim::Pause p; e = rx::gen((int) sim::choose(4, "depth"), 3); if (sim::verbose()) sim::note("expression %s", rx::show(*e).c_str()); }
    N a = build(*e); if (sim::chance(1, 2, "compile")) a.compile(); if (sim::chance(1, 4, "copy")) { N b(a); a = std::move(b); }
    bool custom = sim::chance(1, 2, "custom-printer");
    Graph g; { sim::Pause p; auto name = [](const void* q) { std::ostringstream o; o << q; return o.str(); };
        for (auto& s : a.states()) { g.nodes.emplace(name(s.get()), s->_accepting); for (auto& x : s->_edges) { Items l; for (auto y : x._symbols) l.insert((custom ? "L" : "") + std::to_string(y)); if (x._negated) l.insert(x._symbols.empty() ? "*" : "^"); if (x._epsilon) l.insert("eps"); g.edges.insert({name(s.get()), name(x._destination), l}); } }
        for (auto* s : a.initial()) g.initial.insert(name(s)); }
    auto pr = [](std::ostream& o, const size_t& x) { o << "L" << x; };
    printing([&](std::ostream& o) { if (custom) a.to_dot(o, pr); else a.to_dot(o); }, g, nullptr, "expression");
    if (custom) {   // a printer that gives up
        Device full, d; { std::ostream o(&full); a.to_dot(o, pr); } uint64_t k = sim::choose(6, "stop-at"); bool stopped = false; std::ostream o(&d);
        try { a.to_dot(o, [&](std::ostream& s, const size_t& x) { if (!k--) throw Stop{}; pr(s, x); }); } catch (const Stop&) { stopped = true; sim::count("fault.callback"); sim::nontrivial(); }
        SIM_CHECK(full.data.compare(0, d.data.size(), d.data) == 0 && (stopped || d.data == full.data), "printer-stops", "expression: the text before the printer gave up is not a prefix of the drawing");
    }
}
// ---- automata, before and after searches ---------------------------------------------------------
template<typename W, Trace_Type T> static S wstr(const typename W::type& w, bool eps) {
    using sw = internal::solver_weight<W, T>;
    if (!eps) {
        if (w == sw::max()) return "(-)";
        if (T == Trace_Type::Longest && w == sw::bottom()) return "(\xE2\x88\x9E)";
        if (W::is_signed && (T == Trace_Type::Shortest || T == Trace_Type::ShortestFixedPoint) && w == sw::bottom()) return "(-\xE2\x88\x9E)";
    }
    std::ostringstream o; if constexpr (std::is_arithmetic_v<typename W::type>) o << w; else { o << "["; bool f = true; for (auto x : w) { if (!f) o << ","; f = false; o << x; } o << "]"; }
    return "(" + o.str() + ")";
}
template<typename W, Trace_Type T, typename A> static Graph graph_of(const A& a, const std::function<S(uint32_t)>& lname, const std::function<S(size_t)>& sname, size_t ninit) {
    Graph g;
    for (auto& s : a.states()) {
        g.nodes.emplace(sname(s->_id), s->_accepting); if (s->_id < ninit) g.initial.insert(sname(s->_id));
        for (auto& [to, ls] : s->_edges) { Items l; for (auto& [x, tr] : ls) { bool eps = x == A::epsilon; S y = eps ? "eps" : lname(x); if constexpr (W::is_weight) y += wstr<W, T>(tr.second, eps); l.insert(y); } g.edges.insert({sname(s->_id), sname(to), l}); }
    }
    return g;
}
template<typename W, Trace_Type T, typename I> static void instance(const I& i, const Items& all, int ns, bool product) {
    auto& pda = i.pda(); Graph g; const Items* st = W::is_weight ? nullptr : &all;
    { sim::Pause p; auto ln = [&](uint32_t l) { std::ostringstream o; o << pda.get_symbol(l); return o.str(); }; auto sn = [&](size_t q) { return std::to_string(q); };
      if (product) g = graph_of<W, T>(i.product_automaton(), ln, sn, ns); else g = graph_of<W, T>(i.automaton(), ln, sn, ns); }
    if (product) printing([&](std::ostream& o) { i.template product_automaton_to_dot<T>(o); }, g, st, "product"); else printing([&](std::ostream& o) { i.template automaton_to_dot<T>(o); }, g, st, "automaton");
}
template<typename L, typename W> static void automata(const model::Inst& I) {
    auto pda = make_pda<L, W>(I, sim::chance(1, 2, "via-hash")); Items all; { sim::Pause p; for (int l = 0; l < I.nl; l++) { std::ostringstream o; o << lab<L>(l); all.insert(o.str()); } }
    constexpr auto SH = W::is_weight ? Trace_Type::Shortest : Trace_Type::Any;
    if (sim::chance(1, 3, "plain")) {     // the automaton itself, with numbers for labels
        auto a = make_aut<L>(pda, I.A); Items nums; Graph g;
        if (sim::chance(1, 2, "saturate")) Solver::post_star<Trace_Type::Any, W>(a); else if constexpr (W::is_weight) if (sim::chance(1, 2, "saturate-shortest")) Solver::post_star<Trace_Type::Shortest, W>(a);
        for (size_t f = 0; f < a.states().size(); f++) for (auto& [t, ls] : a.states()[f]->_edges) for (auto& [l, x] : ls) if (l == std::decay_t<decltype(a)>::epsilon) { sim::count("probe.epsilon"); break; }
        if constexpr (W::is_weight) if (sim::chance(1, 3, "special")) { size_t t = a.add_state(false, true); a.add_edge(0, t, 0, std::make_pair(internal::trace_t(), internal::solver_weight<W, SH>::max())); size_t u = a.add_state(false, false); a.add_edge(t, u, 0, std::make_pair(internal::trace_t(), internal::solver_weight<W, SH>::bottom())); sim::count("probe.infinite_weight"); }
        { sim::Pause p; for (int l = 0; l < I.nl; l++) nums.insert(std::to_string(l)); g = graph_of<W, SH>(a, [](uint32_t l) { return std::to_string(l); }, [](size_t q) { return std::to_string(q); }, I.ns); }
        printing([&](std::ostream& o) { a.template to_dot<SH>(o); }, g, W::is_weight ? nullptr : &nums, "plain");
        uint64_t k = 1 + sim::choose(12, "stop-at"); bool stopped = false; Device full, d; { std::ostream o(&full); a.template to_dot<SH>(o); } std::ostream o(&d);
        try { a.template to_dot<SH>(o, [&](std::ostream& s, const uint32_t& l) { if (!--k) throw Stop{}; s << l; }, [&](std::ostream& s, const size_t& q) { if (!--k) throw Stop{}; s << q; }); } catch (const Stop&) { stopped = true; sim::count("fault.callback"); sim::nontrivial(); }
        SIM_CHECK(full.data.compare(0, d.data.size(), d.data) == 0 && (stopped || d.data == full.data), "printer-stops", "plain: the text before the printer gave up is not a prefix of the drawing");
        return;
    }
    SolverInstance<L, W> i(PDA<L, W>(pda), make_aut<L>(pda, I.A), make_aut<L>(pda, I.B)); bool product = sim::chance(1, 2, "product");
    switch (sim::choose(5, "when")) {
        case 0: instance<W, Trace_Type::None>(*i, all, I.ns, product); break;
        case 1: Solver::post_star_accepts<SH>(*i); instance<W, SH>(*i, all, I.ns, product); break;
        case 2: Solver::pre_star_accepts<SH>(*i); instance<W, SH>(*i, all, I.ns, product); break;
        case 3: Solver::dual_search_accepts<SH>(*i); instance<W, SH>(*i, all, I.ns, product); break;
        default: Solver::post_star_accepts<Trace_Type::Any>(*i); instance<W, Trace_Type::Any>(*i, all, I.ns, product);
    }
}
// fixed-point searches leave weights without bound behind
template<typename W, Trace_Type T> static void fixed_point(const model::Inst& I) {
    auto pda = make_pda<int, W>(I, false); auto mk = [&](const model::Aut& m) { return make_aut<int, TraceInfoType::Pair>(pda, m); }; Items none;
    SolverInstance<int, W, size_t, true, TraceInfoType::Pair> i(PDA<int, W>(pda), mk(I.A), mk(I.B)); bool product = sim::chance(1, 3, "product");
    if (sim::chance(1, 2, "post")) Solver::post_star_fixed_point_accepts<T>(*i); else Solver::pre_star_fixed_point_accepts<T>(*i);
    instance<W, T>(*i, none, I.ns, product);
}
static void run() {
    sim::choose_environment();
    int k = (int) sim::choose(10, "kind");
    if (k < 2) { expressions(); return; }
    model::GenOpts o; o.scale = 30; o.max_states = 4; o.max_labels = 3; o.wmode = k < 5 ? 0 : k <= 6 ? 1 : k == 7 ? 3 : 2;
    auto I = model::gen(o);
    switch (k) {
        case 2: case 3: automata<int, weight<void>>(I); break; case 4: automata<S, weight<void>>(I); break;
        case 5: automata<int, weight<uint32_t>>(I); break; case 6: automata<S, weight<int32_t>>(I); break; case 7: automata<int, weight<std::vector<uint32_t>>>(I); break;
        case 8: fixed_point<weight<int32_t>, Trace_Type::Longest>(I); break; default: fixed_point<weight<int32_t>, Trace_Type::ShortestFixedPoint>(I); break;
    }
}
extern const sim::Property SIM_PROPERTY{"P08", run, nullptr};
