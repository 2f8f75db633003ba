// Reference regular expressions: generator, printer, recogniser of the text syntax, matcher.
#pragma once
#include "sim.h"
#include <memory>
#include <set>
#include <string>
#include <vector>
namespace rx {
    enum K { LIT, CAT, ALT, STAR, PLUS, OPT, EPS };
    struct Node; using P = std::shared_ptr<Node>;
    struct Node { K k; std::set<int> set; bool neg = false; std::vector<P> c; };
    inline P mk(K k, std::vector<P> c = {}) { auto n = std::make_shared<Node>(); n->k = k; n->c = std::move(c); return n; }
    inline P lit(std::set<int> s, bool neg) { auto n = mk(LIT); n->set = std::move(s); n->neg = neg; return n; }
    inline std::set<int> ends(const Node& n, const std::vector<int>& w, int i) {
        switch (n.k) {
            case EPS: return {i};
            case LIT: if (i < (int) w.size() && (n.set.count(w[i]) > 0) != n.neg) return {i + 1}; return {};
            case CAT: { std::set<int> cur{i}; for (auto& c : n.c) { std::set<int> nx; for (int j : cur) nx.merge(ends(*c, w, j)); cur = std::move(nx); } return cur; }
            case ALT: { std::set<int> r; for (auto& c : n.c) r.merge(ends(*c, w, i)); return r; }
            case OPT: { auto r = ends(*n.c[0], w, i); r.insert(i); return r; }
            case STAR: case PLUS: {
                std::set<int> all, todo{i}; bool first = true;
                while (!todo.empty()) { std::set<int> nx; for (int j : todo) for (int e : ends(*n.c[0], w, j)) if (!all.count(e)) { all.insert(e); nx.insert(e); } todo = std::move(nx); first = false; }
                (void) first; if (n.k == STAR) all.insert(i); return all;
            }
        }
        return {};
    }
    inline bool matches(const Node& n, const std::vector<int>& w) { return ends(n, w, 0).count((int) w.size()) > 0; }
    inline P gen(int depth, int nl) {       // nl labels
        using namespace sim;
        if (depth == 0 || chance(1, 4, "leaf")) {
            std::set<int> s; int k = (int) choose(nl > 8 ? 5 : 4, "setsize"); if (k == 4) { int n = (int) choose(nl + 1, "wide"); for (int i = 0; i < n; i++) s.insert((int) choose(nl, "l")); if (s.empty()) s.insert(0); return lit(s, chance(1, 3, "neg")); } if (k == 0) return lit({(int) choose(nl, "l")}, false);
            if (k == 3) return lit({}, true);           // wildcard
            for (int i = 0; i < k; i++) s.insert((int) choose(nl, "l"));
            return lit(s, chance(1, 3, "neg"));
        }
        switch (choose(6, "rx")) {
            case 0: case 1: { P a = gen(depth - 1, nl); return mk(CAT, {a, gen(depth - 1, nl)}); }
            case 2: { P a = gen(depth - 1, nl); return mk(ALT, {a, gen(depth - 1, nl)}); }
            case 3: return mk(STAR, {gen(depth - 1, nl)});
            case 4: return mk(PLUS, {gen(depth - 1, nl)});
            default: return mk(OPT, {gen(depth - 1, nl)});
        }
    }
    inline std::string name(int l) { return l < 26 ? std::string(1, (char) ('a' + l)) : "l" + std::to_string(l); }
    inline bool& plain() { static bool p = false; return p; }      // print without decisions (for notes)
    inline std::string ws() { if (plain()) return ""; switch (sim::choose(8, "ws")) { case 6: return " "; case 7: return sim::chance(1, 3, "cm") ? " # comment |)(\n" : "\n\t"; default: return ""; } }
    inline std::string print(const Node& n, int prec = 0) {    // prec: 0 alternation, 1 sequence, 2 operand of a postfix operator
        switch (n.k) {
            case EPS: return "";
            case LIT: { if (n.set.empty()) return "."; std::string s = n.neg ? "[^" : "["; bool f = true; for (int l : n.set) { if (!f) s += ws() + "," + ws(); f = false; s += name(l); } return s + "]"; }
            case CAT: { std::string s; bool f = true; for (auto& c : n.c) { if (!f) s += ws(); f = false; s += print(*c, 1); } return prec >= 2 ? "(" + ws() + s + ws() + ")" : s; }
            case ALT: { std::string s; bool f = true; for (auto& c : n.c) { if (!f) s += ws() + "|" + ws(); f = false; s += print(*c, 0); } return prec >= 1 ? "(" + ws() + s + ws() + ")" : s; }
            default: { const char* o = n.k == STAR ? "*" : n.k == PLUS ? "+" : "?"; std::string s = print(*n.c[0], 2) + o; return prec >= 2 ? "(" + s + ")" : s; }
        }
    }
    inline std::string show(const Node& n) { plain() = true; auto s = print(n); plain() = false; return s; }
    // Recogniser of the documented text syntax; returns null on a syntax error.
    struct Recog {
        const std::string& s; size_t i = 0; bool bad = false; int (*lab)(const std::string&);
        bool at(char c) const { return i < s.size() && s[i] == c; }
        void skip() { for (;;) { if (i < s.size() && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) i++; else if (at('#')) { while (i < s.size() && s[i] != '\n') i++; if (i < s.size()) i++; } else return; } }
        static bool idc(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'; }
        bool label(std::set<int>& o) { size_t b = i; while (i < s.size() && idc(s[i])) i++; if (b == i) return false; o.insert(lab(s.substr(b, i - b))); return true; }
        P value() {
            if (at('.')) { i++; return lit({}, true); }
            if (at('(')) { i++; skip(); P e = expr(); if (!e) { bad = true; return nullptr; } skip(); if (!at(')')) { bad = true; return nullptr; } i++; return e; }
            if (at('[')) {
                i++; bool neg = false; if (at('^')) { neg = true; i++; } std::set<int> o; if (!label(o)) { bad = true; return nullptr; }
                for (;;) { size_t b = i; skip(); if (!at(',')) { i = b; break; } i++; skip(); if (!label(o)) { bad = true; return nullptr; } }
                if (!at(']')) { bad = true; return nullptr; } i++; return lit(o, neg);
            }
            return nullptr;
        }
        P unary() { P v = value(); if (!v) return nullptr; if (at('*')) { i++; return mk(STAR, {v}); } if (at('+')) { i++; return mk(PLUS, {v}); } if (at('?')) { i++; return mk(OPT, {v}); } return v; }
        P seq() { P u = unary(); if (!u) return nullptr; std::vector<P> c{u}; for (;;) { size_t b = i; skip(); P x = unary(); if (bad) return nullptr; if (!x) { i = b; break; } c.push_back(x); } return c.size() == 1 ? c[0] : mk(CAT, c); }
        P expr() { P q = seq(); if (!q) return nullptr; std::vector<P> c{q}; for (;;) { size_t b = i; skip(); if (!at('|')) { i = b; break; } i++; skip(); P x = seq(); if (bad) return nullptr; if (!x) { i = b; break; } c.push_back(x); } return c.size() == 1 ? c[0] : mk(ALT, c); }
        P file() { skip(); P e = expr(); if (bad) return nullptr; if (!e) e = mk(EPS); skip(); if (i != s.size()) return nullptr; return e; }
    };
    inline P recognise(const std::string& s, int (*lab)(const std::string&)) { Recog r{s, 0, false, lab}; return r.file(); }
}
