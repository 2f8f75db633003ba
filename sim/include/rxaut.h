// Regular expressions as reference automata (position construction) and as library NFAs.
#pragma once
#include "regex.h"
#include "model.h"
#include <pdaaal/NFA.h>
#include <functional>
#include <unordered_set>
namespace rx {
    struct Glu { bool null = false; std::set<int> first, last; };
    struct Positions { std::vector<const Node*> lit; std::set<std::pair<int, int>> follow; };
    inline Glu glu(const Node& n, Positions& p) {
        Glu g;
        switch (n.k) {
            case EPS: g.null = true; return g;
            case LIT: { int i = (int) p.lit.size(); p.lit.push_back(&n); g.first = g.last = {i}; return g; }
            case CAT: { g.null = true; bool f = true; for (auto& c : n.c) { Glu h = glu(*c, p); if (f) { g = h; f = false; continue; } for (int a : g.last) for (int b : h.first) p.follow.insert({a, b}); if (g.null) g.first.insert(h.first.begin(), h.first.end()); if (h.null) g.last.insert(h.last.begin(), h.last.end()); else g.last = h.last; g.null = g.null && h.null; } return g; }
            case ALT: for (auto& c : n.c) { Glu h = glu(*c, p); g.null |= h.null; g.first.insert(h.first.begin(), h.first.end()); g.last.insert(h.last.begin(), h.last.end()); } return g;
            default: { g = glu(*n.c[0], p); if (n.k != OPT) for (int a : g.last) for (int b : g.first) p.follow.insert({a, b}); if (n.k != PLUS) g.null = true; return g; }
        }
    }
    // configurations <q,w> with q in states and w matching n
    inline model::Aut automaton(const Node& n, int ns, int nl, const std::vector<int>& states) {
        Positions p; Glu g = glu(n, p); model::Aut a; a.n = ns + (int) p.lit.size(); a.acc.assign(a.n, 0);
        auto edge = [&](int f, int i) { for (int l = 0; l < nl; l++) if ((p.lit[i]->set.count(l) > 0) != p.lit[i]->neg) { model::Edge e{f, l, ns + i}; if (std::find(a.edges.begin(), a.edges.end(), e) == a.edges.end()) a.edges.push_back(e); } };
        for (int q : states) { if (g.null) a.acc[q] = 1; for (int i : g.first) edge(q, i); }
        for (int i : g.last) a.acc[ns + i] = 1;
        for (auto& [x, y] : p.follow) edge(ns + x, y);
        return a;
    }
    template<typename T> pdaaal::NFA<T> nfa(const Node& n, const std::function<T(int)>& lab) {
        using N = pdaaal::NFA<T>;
        switch (n.k) {
            case EPS: return N(true);
            case LIT: { std::unordered_set<T> s; for (int l : n.set) s.insert(lab(l)); return N(std::move(s), n.neg); }
            case CAT: { N a = nfa<T>(*n.c[0], lab); for (size_t i = 1; i < n.c.size(); i++) a.concat(nfa<T>(*n.c[i], lab)); return a; }
            case ALT: { N a = nfa<T>(*n.c[0], lab); for (size_t i = 1; i < n.c.size(); i++) a.or_extend(nfa<T>(*n.c[i], lab)); return a; }
            case STAR: { N a = nfa<T>(*n.c[0], lab); a.star_extend(); return a; }
            case PLUS: { N a = nfa<T>(*n.c[0], lab); a.plus_extend(); return a; }
            default: { N a = nfa<T>(*n.c[0], lab); a.question_extend(); return a; }
        }
    }
    inline P word(const std::vector<int>& w) { if (w.empty()) return mk(EPS); std::vector<P> c; for (int l : w) c.push_back(lit({l}, false)); return c.size() == 1 ? c[0] : mk(CAT, c); }
}
