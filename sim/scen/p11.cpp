// Automata built from regular expressions, by any history of operations and from text, accept exactly the language of the expression.
#include "regex.h"
#include <pdaaal/NFA.h>
#include <pdaaal/parsing/NfaParser.h>
#include <algorithm>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
using namespace pdaaal;
using N = NFA<size_t>;
static int lab(const std::string& s) { if (s.size() == 1 && s[0] >= 'a' && s[0] <= 'z') return s[0] - 'a'; if (s.size() > 2 && s[0] == 'l' && s.find_first_not_of("0123456789", 1) == std::string::npos && s.size() < 5) return std::stoi(s.substr(1)); int h = 100; for (char c : s) h = h * 31 + c; return 100 + (h & 0xffff); }

static N build(const rx::Node& n) {
    switch (n.k) {
        case rx::EPS: return N(true);
        case rx::LIT: { std::unordered_set<size_t> s; for (int l : n.set) s.insert(l); return N(std::move(s), n.neg); }
        case rx::CAT: { N a = build(*n.c[0]); for (size_t i = 1; i < n.c.size(); i++) { N b = build(*n.c[i]); a.concat(std::move(b)); } return a; }
        case rx::ALT: { N a = build(*n.c[0]); for (size_t i = 1; i < n.c.size(); i++) { N b = build(*n.c[i]); a.or_extend(std::move(b)); } return a; }
        case rx::STAR: { N a = build(*n.c[0]); a.star_extend(); return a; }
        case rx::PLUS: { N a = build(*n.c[0]); a.plus_extend(); return a; }
        default: { N a = build(*n.c[0]); a.question_extend(); return a; }
    }
}
static bool accepts(const N& a, const std::vector<int>& w) {
    std::vector<N::state_t*> cur = a.initial();
    for (int l : w) cur = N::successor(cur, (size_t) l);
    return std::any_of(cur.begin(), cur.end(), [](auto* s) { return s->_accepting; });
}
static std::string show(const std::vector<int>& w) { std::string s; for (int l : w) s += rx::name(l) + " "; return "\"" + s + "\""; }
// Label and successor queries between states, against a plain exploration of the edges.
static void queries(const N& a, const char* how, int nl) {
    using S = const N::state_t*;
    std::vector<S> st; std::vector<size_t> all; std::unordered_set<size_t> allset;
    std::map<S, std::set<S>> eps;      // epsilon closure
    std::map<S, std::set<S>> reach;
    {
        sim::Pause p; for (auto& s : const_cast<N&>(a).states()) st.push_back(s.get()); for (int l = 0; l < nl; l++) { all.push_back(l); allset.insert(l); }
        for (S s : st) { for (int k = 0; k < 2; k++) { auto& seen = k ? reach[s] : eps[s]; std::vector<S> w{s}; seen.insert(s); while (!w.empty()) { S x = w.back(); w.pop_back(); for (auto& e : x->_edges) if ((k || e._epsilon) && seen.insert(e._destination).second) w.push_back(e._destination); } } }
    }
    auto useful = [](S s) { return s->_accepting || s->has_non_epsilon(); };
    auto lab_in = [](const N::edge_t& e, size_t l) { bool f = false; for (auto x : e._symbols) f |= x == l; return e._negated != f; };
    if (st.empty()) return;
    for (int k = 0; k < 4; k++) {
        std::vector<S> from; std::vector<size_t> ls; S to = st[sim::choose(st.size(), "to")];
        { sim::Pause p; int n = 1 + (int) sim::choose(4, "nfrom"); for (int i = 0; i < n; i++) from.push_back(st[sim::choose(st.size(), "from")]); std::sort(from.begin(), from.end()); from.erase(std::unique(from.begin(), from.end()), from.end());
          int drop = (int) sim::choose(nl + 1, "drop"); for (int l = 0; l < nl; l++) if (l != drop - 1) ls.push_back(l); }
        auto got = N::intersect_edge_labels(from, to, ls);
        std::vector<size_t> want; { sim::Pause p; for (size_t l : ls) { bool in = false; for (S f : from) for (auto& e : f->_edges) in |= lab_in(e, l) && eps[e._destination].count(to); if (in) want.push_back(l); } }
        SIM_CHECK(got == want, "edge-labels", "%s: %zu labels lead from a set of %zu states to a state, expected %zu (or not sorted)", how, got.size(), from.size(), want.size());
        if (from.size() == 1) SIM_CHECK(N::intersect_edge_labels(from[0], to, ls) == want, "edge-labels-one", "%s: labels between two states are wrong", how);
        for (size_t l : all) {
            auto next = N::successor(from, l); std::vector<S> w; bool in;
            { sim::Pause p; std::set<S> x; for (S f : from) for (auto& e : f->_edges) if (lab_in(e, l)) for (S d : eps[e._destination]) if (useful(d)) x.insert(d); w.assign(x.begin(), x.end()); in = x.count(to); }
            std::sort(w.begin(), w.end());
            SIM_CHECK(next == w, "successor", "%s: %zu successors for label %zu, expected %zu (or not sorted)", how, next.size(), l, w.size());
            SIM_CHECK(N::has_as_successor(from, l, to) == in && (from.size() > 1 || N::has_as_successor(from[0], l, to) == in), "has-successor", "%s: has_as_successor is wrong for label %zu", how, l);
        }
        SIM_CHECK(N::leads_to_by_epsilon(from[0], to) == (eps[from[0]].count(to) > 0), "epsilon", "%s: leads_to_by_epsilon is wrong", how);
        std::vector<S> fe = from; N::follow_epsilon(fe); std::vector<S> wfe; { sim::Pause p; std::set<S> x; for (S f : from) for (S d : eps[f]) if (useful(d)) x.insert(d); wfe.assign(x.begin(), x.end()); std::sort(wfe.begin(), wfe.end()); }
        SIM_CHECK(fe == wfe, "follow-epsilon", "%s: %zu states by epsilon, expected %zu (or not sorted)", how, fe.size(), wfe.size());
        auto pre = to->prelabels(allset); std::vector<size_t> wpre; { sim::Pause p; for (size_t l : all) { bool in = false; for (S s : st) for (auto& e : s->_edges) in |= lab_in(e, l) && reach[e._destination].count(to); if (in) wpre.push_back(l); } for (size_t i = 0; i < pre.size();) if (pre[i] >= (size_t) nl) pre.erase(pre.begin() + i); else i++; }
        SIM_CHECK(pre == wpre, "prelabels", "%s: %zu labels on the way to a state, expected %zu (or not sorted)", how, pre.size(), wpre.size());
        if (from.size() > 1 && want.size()) sim::count("probe.label_sets");
    }
    for (S s : st) for (auto& e : s->_edges) {
        size_t n = 0; for (int l = 0; l < nl; l++) { bool c = e.contains(l); n += c; SIM_CHECK(e._epsilon && e._symbols.empty() && !e._negated ? !c : c == lab_in(e, l), "contains", "%s: an edge's contains(%d) is %d", how, l, c); }
        bool known = true; for (auto x : e._symbols) known &= x < (size_t) nl;
        if (known) { SIM_CHECK(e.wildcard(nl) == (n == (size_t) nl), "wildcard", "%s: wildcard() of an edge with %zu of %d labels", how, n, nl); SIM_CHECK(e.empty(nl) == (n == 0), "empty-edge", "%s: empty() of an edge with %zu of %d labels", how, n, nl); }
        auto f = e.follow_epsilon(); std::vector<S> w, g; { sim::Pause p; for (auto* x : f) g.push_back(x); for (S d : eps[e._destination]) if (useful(d)) w.push_back(d); std::sort(w.begin(), w.end()); }
        SIM_CHECK(g == w, "edge-epsilon", "%s: an edge leads to %zu states, expected %zu", how, g.size(), w.size());
    }
    SIM_CHECK(std::is_sorted(a.initial().begin(), a.initial().end()), "initial-order", "%s: initial states are not in order", how);
}
static void compare(const N& a, const rx::Node& n, const char* how, int nl) {
    std::vector<std::vector<int>> ws{{}};
    { sim::Pause p; for (size_t i = 0; i < ws.size() && ws[i].size() < (nl > 8 ? 1 : 3); i++) for (int l = 0; l < nl; l++) { auto w = ws[i]; w.push_back(l); ws.push_back(w); }
      for (int k = 0; k < (nl > 8 ? 12 : 4); k++) { std::vector<int> w; int len = nl > 8 ? 2 + (int) sim::choose(40, "len") : 4 + (int) sim::choose(4, "len"); for (int i = 0; i < len; i++) w.push_back((int) sim::choose(nl, "l")); ws.push_back(w); } }
    int yes = 0;
    for (auto& w : ws) {
        bool r = accepts(a, w), want; { sim::Pause p; want = rx::matches(n, w); } yes += r;
        SIM_CHECK(r == want, (std::string("language-") + how).c_str(), "%s: %s is %s, but the expression %s it", how, show(w).c_str(), r ? "accepted" : "rejected", want ? "describes" : "does not describe");
    }
    SIM_CHECK(a.empty_accept() == rx::matches(n, {}), (std::string("empty-") + how).c_str(), "%s: empty_accept() is %d", how, a.empty_accept());
    queries(a, how, nl);
    sim::ev(how, yes, ws.size());
    sim::count(yes ? "probe.nonempty_language" : "probe.empty_language");
}
struct Thrown {};
static N parse(const std::string& text, int throw_at) {
    int k = 0;
    return NfaParser::parse_string(text, [&](const std::string& s) -> size_t { if (++k == throw_at) throw Thrown{}; return (size_t) lab(s); });
}
static void run() {
    sim::choose_environment();
    int nl = 2 + (int) sim::choose(2, "nl"); bool large = sim::chance(1, 24, "large"); if (large) { sim::large_instance(); nl = 9 + (int) sim::choose(70, "many-labels"); sim::count("probe.large"); }
    rx::P e; { sim::Pause p; e = rx::gen((int) sim::choose(5, "depth"), nl); if (large && sim::chance(1, 2, "long")) { int k = 3 + (int) sim::choose(40, "parts"); std::vector<rx::P> c; for (int i = 0; i < k; i++) c.push_back(rx::gen((int) sim::choose(2, "d"), nl)); e = rx::mk(sim::chance(1, 2, "alt") ? rx::ALT : rx::CAT, c); } }
    int kind = (int) sim::choose(6, "kind");
    std::string text; { sim::Pause p; text = rx::print(*e); sim::evs("regex", text); if (sim::verbose()) sim::note("expression: %s", text.c_str()); }
    if (kind <= 1) {
        bool faulty = sim::chance(1, 2, "faulty");
        if (faulty) {       // a construction that runs out of memory must fail cleanly; the retry is exact
            sim::nontrivial(); int64_t live = sim::live_blocks();
            sim::arm_alloc_failure(1 + sim::choose(40, "kth"));
            bool oom = false; try { N a = build(*e); a.compile(); N b(a); } catch (const std::bad_alloc&) { oom = true; }
            bool fired = sim::alloc_failure_fired(); sim::arm_alloc_failure(0);
            if (fired) sim::count("fault.alloc");
            SIM_CHECK(!fired || oom, "swallowed-bad_alloc", "an allocation failed but construction went on");
            sim::check_heap(); SIM_CHECK(sim::live_blocks() == live, "leak", "%ld blocks are lost after a failed construction", (long) (sim::live_blocks() - live));
        }
        N a = build(*e);
        if (sim::chance(1, 3, "copy-before")) { N b(a); a = std::move(b); sim::count("probe.copied_uncompiled"); }
        a.compile(); compare(a, *e, "built", nl);
        int c = (int) sim::choose(4, "copy");
        if (c == 1) { N b(a); compare(b, *e, "copied", nl); compare(a, *e, "copy-source", nl); }
        else if (c == 2) { N b(sim::chance(1, 2, "init")); if (sim::chance(1, 2, "other")) { rx::P f; { sim::Pause p; f = rx::gen(2, nl); } b = build(*f); } b = a; compare(b, *e, "assigned", nl); b = (const N&) b; compare(b, *e, "self-assigned", nl); }
        else if (c == 3) { N b(std::move(a)); compare(b, *e, "moved", nl); a = std::move(b); compare(a, *e, "moved-back", nl); }
    } else if (kind == 2) {     // operations on automata that were compiled already
        N a = build(*e); a.compile(); rx::P f; { sim::Pause p; f = rx::gen(2, nl); }
        N b = build(*f); if (sim::chance(1, 2, "cb")) b.compile();
        rx::P g; const char* how = "";
        switch (sim::choose(5, "then")) {
            case 0: a.concat(std::move(b)); g = rx::mk(rx::CAT, {e, f}); how = "compiled-concat"; break;
            case 1: a.or_extend(std::move(b)); g = rx::mk(rx::ALT, {e, f}); how = "compiled-or"; break;
            case 2: a.star_extend(); g = rx::mk(rx::STAR, {e}); how = "compiled-star"; break;
            case 3: a.plus_extend(); g = rx::mk(rx::PLUS, {e}); how = "compiled-plus"; break;
            default: a.question_extend(); g = rx::mk(rx::OPT, {e}); how = "compiled-opt";
        }
        if (sim::verbose()) sim::note("%s with %s", how, rx::show(*f).c_str());
        a.compile(); compare(a, *g, how, nl);
    } else {
        if (kind >= 4) {    // damaged text: truncated, or one character lost, duplicated or replaced
            sim::Pause p; sim::nontrivial();
            static const char junk[] = "()[]|*+?.^,a b#\n0";
            int nm = 1 + (int) sim::choose(2, "ndamage");
            for (int i = 0; i < nm && !text.empty(); i++) { size_t at = sim::choose(text.size(), "at"); switch (sim::choose(4, "damage")) { case 0: text.resize(at); sim::count("fault.truncated"); break; case 1: text.erase(at, 1); sim::count("fault.lost_byte"); break; case 2: text.insert(at, 1, junk[sim::choose(sizeof junk - 1, "c")]); sim::count("fault.inserted_byte"); break; default: text[at] = junk[sim::choose(sizeof junk - 1, "c")]; sim::count("fault.flipped_byte"); } }
            sim::evs("text", text); if (sim::verbose()) sim::note("text: %s", text.c_str());
        }
        rx::P want; { sim::Pause p; want = rx::recognise(text, lab); }
        int throw_at = sim::chance(1, 5, "throw") ? 1 + (int) sim::choose(4, "throw-at") : 0;
        if (throw_at || sim::chance(1, 4, "oom")) {     // the label callback or an allocation fails in the middle; then try again
            sim::nontrivial(); int64_t live = sim::live_blocks(); bool oom = false;
            if (!throw_at) sim::arm_alloc_failure(1 + sim::choose(60, "kth"));
            try { N a = parse(text, throw_at); } catch (const Thrown&) { sim::count("fault.callback_throws"); } catch (const std::bad_alloc&) { oom = true; } catch (const std::runtime_error&) {}
            bool fired = sim::alloc_failure_fired(); sim::arm_alloc_failure(0); if (fired) sim::count("fault.alloc");
            (void) oom; sim::check_heap();
            SIM_CHECK(sim::live_blocks() == live, "leak", "%ld blocks are lost after a failed parse", (long) (sim::live_blocks() - live));
        }
        try {
            N a = parse(text, 0); a.compile();
            SIM_CHECK(want, "accepted-garbage", "a malformed expression was accepted");
            compare(a, *want, "parsed", nl);
        } catch (const std::runtime_error& x) { SIM_CHECK(!want, "rejected-valid", "a well-formed expression was rejected: %s", x.what()); sim::count("probe.rejected_text"); sim::ev("rejected"); }
    }
}
static void warmup() { try { parse("([a]", 0); } catch (...) {} try { parse("[a]*", 0).compile(); } catch (...) {} }
extern const sim::Property SIM_PROPERTY{"P11", run, warmup};
