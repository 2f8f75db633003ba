// Executable reference model of pushdown reachability (naive, independent of the code under test) and instance generator.
#pragma once
#include "sim.h"
#include <algorithm>
#include <array>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>

namespace model {
    enum Op { POP = 1, SWAP = 2, PUSH = 4, NOOP = 8 };
    using Vec = std::vector<long long>;      // weights; missing trailing components are zero
    inline Vec norm(Vec v) { while (!v.empty() && v.back() == 0) v.pop_back(); return v; }
    inline Vec add(const Vec& a, const Vec& b) { Vec r(std::max(a.size(), b.size()), 0); for (size_t i = 0; i < a.size(); i++) r[i] += a[i]; for (size_t i = 0; i < b.size(); i++) r[i] += b[i]; return norm(r); }
    inline int cmp(const Vec& a, const Vec& b) { for (size_t i = 0; i < std::max(a.size(), b.size()); i++) { long long x = i < a.size() ? a[i] : 0, y = i < b.size() ? b[i] : 0; if (x != y) return x < y ? -1 : 1; } return 0; }
    inline std::string str(const Vec& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }

    struct Rule { int from = 0, to = 0; Op op = POP; int op_label = 0; bool wild = false; std::vector<int> pre; Vec w; };
    struct Config { int state = 0; std::vector<int> stack; bool operator==(const Config& o) const { return state == o.state && stack == o.stack; } bool operator<(const Config& o) const { return std::tie(state, stack) < std::tie(o.state, o.stack); } };
    struct Aut {        // states [0,ns) are the control states
        int n = 0; std::vector<std::tuple<int, int, int>> edges; std::vector<char> acc;
        bool accepts(const Config& c) const {
            std::set<int> cur{c.state};
            for (int l : c.stack) { std::set<int> nx; for (auto& [f, a, t] : edges) if (a == l && cur.count(f)) nx.insert(t); cur = nx; }
            for (int s : cur) if (acc[s]) return true;
            return false;
        }
    };
    struct Inst { int ns = 1, nl = 1; std::vector<Rule> rules; Aut A, B; };

    inline bool applies(const Inst& I, const Rule& r, int label) { if (r.wild) return label >= 0 && label < I.nl; return std::find(r.pre.begin(), r.pre.end(), label) != r.pre.end(); }
    inline std::optional<Config> apply(const Inst& I, const Rule& r, const Config& c) {
        if (c.stack.empty() || c.state != r.from || !applies(I, r, c.stack[0])) return std::nullopt;
        Config d; d.state = r.to; d.stack = c.stack;
        switch (r.op) {
            case POP: d.stack.erase(d.stack.begin()); break;
            case SWAP: d.stack[0] = r.op_label; break;
            case PUSH: d.stack.insert(d.stack.begin(), r.op_label); break;
            case NOOP: break;
        }
        return d;
    }
    inline std::string show(const Config& c) { std::string s = "<" + std::to_string(c.state) + ","; for (int l : c.stack) s += " " + std::to_string(l); return s + ">"; }
    inline std::string show(const Rule& r) {
        std::ostringstream o; o << r.from << " --"; if (r.wild) o << "*"; else { o << "{"; for (int p : r.pre) o << p << " "; o << "}"; }
        o << " " << (r.op == POP ? "pop" : r.op == SWAP ? "swap " : r.op == PUSH ? "push " : "noop"); if (r.op == SWAP || r.op == PUSH) o << r.op_label;
        o << "--> " << r.to; if (!r.w.empty()) o << " w=" << str(r.w); return o.str();
    }
    inline std::string show(const Aut& a) { std::ostringstream o; o << "n=" << a.n << " acc={"; for (int i = 0; i < a.n; i++) if (a.acc[i]) o << i << " "; o << "} edges="; for (auto& [f, l, t] : a.edges) o << "(" << f << "," << l << "," << t << ")"; return o.str(); }
    inline void note(const Inst& I) {
        if (!sim::verbose()) return;
        sim::note("PDA: %d states, %d labels", I.ns, I.nl);
        for (auto& r : I.rules) sim::note("  rule %s", show(r).c_str());
        sim::note("  initial %s", show(I.A).c_str());
        sim::note("  final   %s", show(I.B).c_str());
    }

    // ---- reference: saturated automata as plain sets ---------------------------------------
    using Edge = std::tuple<int, int, int>;
    struct Val { bool inf = false; Vec w; };
    enum Mode { MIN, MAX };
    inline int vcmp(const Val& a, const Val& b, Mode m) {   // <0: a better
        if (a.inf || b.inf) return a.inf == b.inf ? 0 : a.inf ? -1 : 1;
        int c = cmp(a.w, b.w); return m == MIN ? c : -c;
    }
    constexpr long long HUGE_W = 1LL << 40;      // far beyond any finite optimum of a generated instance
    inline Val vadd(const Val& a, const Val& b) { Val r{a.inf || b.inf, add(a.w, b.w)}; for (auto& x : r.w) x = std::max(-HUGE_W, std::min(HUGE_W, x)); return r; }
    inline Val capped(Val v, Mode m) { for (auto x : v.w) if (m == MIN ? x <= -HUGE_W : x >= HUGE_W) v.inf = true; return v; }
    using EMap = std::map<Edge, Val>;
    inline void improve(EMap& m, const Edge& e, const Val& v_, Mode mode, bool to_inf, const EMap& old, bool& changed) {
        const Val v = capped(v_, mode);
        auto it = m.find(e);
        if (it == m.end()) { m[e] = v; changed = true; return; }
        if (vcmp(v, it->second, mode) < 0) { Val nv = v; if (to_inf) { auto o = old.find(e); if (o != old.end()) nv.inf = true; } it->second = nv; changed = true; }
    }
    inline EMap pre_round(const Inst& I, const Aut& B, const EMap& old, Mode mode, bool to_inf, bool& changed) {
        EMap m = old; changed = false;
        std::map<std::pair<int, int>, std::vector<std::pair<int, Val>>> by_from;      // (from, label) -> (to, value)
        for (auto& [e, v] : old) by_from[{std::get<0>(e), std::get<1>(e)}].push_back({std::get<2>(e), v});
        static const std::vector<std::pair<int, Val>> none;
        auto from = [&](int f, int l) -> const std::vector<std::pair<int, Val>>& { auto it = by_from.find({f, l}); return it == by_from.end() ? none : it->second; };
        for (auto& r : I.rules) for (int g = 0; g < I.nl; g++) {
            if (!applies(I, r, g)) continue;
            Val rw{false, r.w};
            if (r.op == POP) { improve(m, {r.from, g, r.to}, rw, mode, to_inf, old, changed); continue; }
            int l1 = r.op == NOOP ? g : r.op_label;
            for (auto& [to, v] : from(r.to, l1)) {
                Val v1 = vadd(rw, v);
                if (r.op != PUSH) improve(m, {r.from, g, to}, v1, mode, to_inf, old, changed);
                else for (auto& [to2, v2] : from(to, g)) improve(m, {r.from, g, to2}, vadd(v1, v2), mode, to_inf, old, changed);
            }
        }
        (void) B;
        return m;
    }
    inline EMap pre_star(const Inst& I, const Aut& B, Mode mode, bool may_diverge) {
        EMap m; for (auto& [f, l, t] : B.edges) m[{f, l, t}] = Val{};
        bool ch = true;
        if (!may_diverge) { while (ch) m = pre_round(I, B, m, mode, false, ch); return m; }
        // number of unknowns = number of edges of the saturation
        size_t n = 0; { EMap s = m; size_t k; do { k = s.size(); bool c; s = pre_round(I, B, s, mode, false, c); for (auto& [e, v] : s) v = Val{}; } while (s.size() != k); n = s.size(); }
        for (size_t i = 0; i < n + 2 && ch; i++) m = pre_round(I, B, m, mode, false, ch);
        while (ch) m = pre_round(I, B, m, mode, true, ch);
        return m;
    }
    struct Answer { bool reach = false; Val v; };
    inline Answer intersect_best(const Inst& I, const Aut& A, const EMap& pb, const std::vector<char>& accB, Mode mode, bool may_diverge) {
        std::map<std::pair<int, int>, Val> V;
        int nb = (int) accB.size();
        std::vector<std::vector<std::tuple<int, int, Val>>> byb(nb);
        for (auto& [e, v] : pb) byb[std::get<0>(e)].push_back({std::get<1>(e), std::get<2>(e), v});
        std::vector<std::vector<std::pair<int, int>>> bya(A.n);
        for (auto& [f, l, t] : A.edges) bya[f].push_back({l, t});
        auto round = [&](bool to_inf, bool& ch) {
            ch = false; auto old = V;
            for (int a = 0; a < A.n; a++) for (int b = 0; b < nb; b++) {
                std::optional<Val> best; if (A.acc[a] && accB[b]) best = Val{};
                for (auto& [l, t] : bya[a]) for (auto& [l2, t2, v] : byb[b]) if (l2 == l) { auto it = old.find({t, t2}); if (it != old.end()) { Val c = capped(vadd(v, it->second), mode); if (!best || vcmp(c, *best, mode) < 0) best = c; } }
                if (!best) continue;
                auto it = old.find({a, b});
                if (it == old.end()) { V[{a, b}] = *best; ch = true; }
                else if (vcmp(*best, it->second, mode) < 0) { if (to_inf) best->inf = true; V[{a, b}] = *best; ch = true; }
            }
        };
        bool ch = true;
        size_t n = (size_t) A.n * nb + 2;
        for (size_t i = 0; ch && (!may_diverge || i < n); i++) round(false, ch);
        while (ch) round(true, ch);
        Answer r;
        for (int p = 0; p < I.ns; p++) { auto it = V.find({p, p}); if (it != V.end() && (!r.reach || vcmp(it->second, r.v, mode) < 0)) { r.reach = true; r.v = it->second; } }
        return r;
    }
    inline Answer solve(const Inst& I, Mode mode = MIN, bool may_diverge = false) {
        sim::Pause p;
        auto pb = pre_star(I, I.B, mode, may_diverge);
        return intersect_best(I, I.A, pb, I.B.acc, mode, may_diverge);
    }
    inline Inst unweighted(Inst I) { for (auto& r : I.rules) r.w.clear(); return I; }
    inline bool reachable(const Inst& I) { return solve(unweighted(I)).reach; }

    // ---- trace checking ---------------------------------------------------------------------
    // Returns "" if ok. total = optimum over rule choices per step.
    inline std::string check_trace(const Inst& I, const std::vector<Config>& t, Mode mode, Vec& total) {
        total.clear();
        if (t.empty()) return "empty trace";
        if (!I.A.accepts(t.front())) return "first configuration " + show(t.front()) + " is not initial";
        if (!I.B.accepts(t.back())) return "last configuration " + show(t.back()) + " is not final";
        for (size_t i = 0; i + 1 < t.size(); i++) {
            std::optional<Vec> best;
            for (auto& r : I.rules) { auto d = apply(I, r, t[i]); if (d && *d == t[i + 1]) { if (!best || (mode == MIN ? cmp(r.w, *best) < 0 : cmp(r.w, *best) > 0)) best = r.w; } }
            if (!best) return "no rule justifies step " + std::to_string(i) + ": " + show(t[i]) + " -> " + show(t[i + 1]);
            total = add(total, *best);
        }
        return "";
    }

    // ---- generator --------------------------------------------------------------------------
    struct GenOpts { int max_states = 5, max_labels = 4, max_rules = 11, max_extra = 3; int wmode = 0; /*0 none 1 [0,5] 2 [-3,4] 3 vector of naturals, 4 vector of integers not below zero */ bool empty_stack = true; int max_walk = 9; int scale = 0; /* one in scale instances is large in one dimension */ int dims = 15; /* 1 labels, 2 states, 4 rules, 8 stack */ long long wfactor = 1; bool wide = false; bool wide_weights = false; /* weights may exceed 32 bits */ };
    inline Vec gen_w1(const GenOpts& o) {
        using namespace sim;
        switch (o.wmode) {
            case 1: return norm({range(0, 5, "w")});
            case 2: { static const int tab[] = {0, 1, 2, 3, 4, -1, -2, -3}; return norm({tab[choose(8, "w")]}); }
            case 3: { Vec v; int d = range(0, 3, "wd"); for (int i = 0; i < d; i++) v.push_back(range(0, 3, "w")); return norm(v); }
            case 4: { Vec v; int d = range(0, 3, "wd"); bool lead = true; static const int tab[] = {0, 1, 2, 3, -1, -2}; for (int i = 0; i < d; i++) { v.push_back(lead ? range(0, 2, "w") : tab[choose(6, "w")]); if (v.back()) lead = false; } return norm(v); }
            default: return {};
        }
    }
    inline Vec gen_w(const GenOpts& o) { Vec v = gen_w1(o); for (auto& x : v) x *= o.wfactor; return v; }
    inline Rule gen_rule(const GenOpts& o, int ns, int nl) {
        using namespace sim;
        Rule r; r.from = (int) choose(ns, "from"); r.to = (int) choose(ns, "to");
        static const Op ops[] = {SWAP, POP, PUSH, NOOP, PUSH, POP};
        r.op = ops[choose(6, "op")];
        if (r.op == SWAP || r.op == PUSH) r.op_label = (int) choose(nl, "oplabel");
        int k = (int) choose(7, "pre");
        if (k == 6) r.wild = true;
        else { r.pre.push_back((int) choose(nl, "pre1")); if (k >= 4 && o.wide && nl > 4) { r.pre.clear(); int d = 1 + (int) choose(4, "density"); for (int l = 0; l < nl; l++) if (!chance(1, d + 1, "out")) r.pre.push_back(l); if (r.pre.empty()) r.pre.push_back(0); } else if (k >= 4) { int x = (int) choose(nl, "pre2"); if (x != r.pre[0]) r.pre.push_back(x); } std::sort(r.pre.begin(), r.pre.end()); }
        r.w = gen_w(o);
        return r;
    }
    inline void add_chain(Aut& a, const Config& c, bool share) {   // accept configuration c
        using namespace sim;
        int cur = c.state;
        for (size_t i = 0; i < c.stack.size(); i++) {
            int nx = -1;
            for (auto& [f, l, t] : a.edges) if (share && f == cur && l == c.stack[i]) { nx = t; break; }
            if (nx < 0) { nx = a.n++; a.acc.push_back(0); a.edges.push_back({cur, c.stack[i], nx}); }
            cur = nx;
        }
        a.acc[cur] = 1;
    }
    inline void gen_random_edges(const GenOpts& o, Aut& a, int ns, int nl) {
        using namespace sim;
        int extra = (int) choose(o.max_extra + 1, "extra");
        for (int i = 0; i < extra; i++) { a.n++; a.acc.push_back(chance(1, 2, "acc")); }
        int aux = a.n - ns;
        if (aux > 0) { int ne = (int) choose(6, "nedges"); for (int i = 0; i < ne; i++) { int f = (int) choose(a.n, "ef"), l = (int) choose(nl, "el"), t = ns + (int) choose(aux, "et"); if (std::find(a.edges.begin(), a.edges.end(), Edge{f, l, t}) == a.edges.end()) a.edges.push_back({f, l, t}); } }
        if (o.empty_stack && chance(1, 6, "accepting-control")) a.acc[choose(ns, "accctl")] = 1;
    }
    inline Config gen_config(int ns, int nl, bool allow_empty) {
        using namespace sim;
        Config c; c.state = (int) choose(ns, "cstate"); int len = (int) choose(4, "clen"); if (len == 0 && !allow_empty) len = 1;
        for (int i = 0; i < len; i++) c.stack.push_back((int) choose(nl, "cl"));
        return c;
    }
    inline Inst gen(GenOpts o) {
        using namespace sim;
        Pause pause;
        Inst I;
        int ns = 1 + (int) choose(o.max_states, "ns"); int nl = 1 + (int) choose(o.max_labels, "nl"); int deep = 0;
        if (o.scale && chance(1, o.scale, "large")) {
            large_instance(); int d = (int) choose(4, "dimension"); while (!(o.dims >> d & 1)) d = (d + 1) % 4;
            switch (d) {
                case 0: nl = 9 + (int) choose(64, "many-labels"); o.wide = true; count("probe.many_labels"); break;
                case 1: ns = 9 + (int) choose(40, "many-states"); o.max_rules = 3 * ns; o.max_walk = 40; count("probe.many_states"); break;
                case 2: o.max_rules = 70; count("probe.many_rules"); break;
                default: deep = 6 + (int) choose(30, "deep"); o.max_walk = 50; count("probe.deep_stacks"); break;
            }
        }
        if (o.scale && o.wmode && o.wfactor == 1 && chance(1, 6, "heavy")) { static const long long f[] = {257, 65537, 70001, 4294967296ll, 5000000029ll}; int k = (int) choose(o.wide_weights ? 5 : 3, "factor"); o.wfactor = f[k]; count(k > 2 ? "probe.weights_beyond_32_bits" : "probe.heavy_weights"); }
        I.ns = ns; I.nl = nl;
        I.A.n = I.B.n = ns; I.A.acc.assign(ns, 0); I.B.acc.assign(ns, 0);
        int nr = (int) choose(o.max_rules + 1, "nrules");
        bool walk = chance(1, 2, "walk");
        for (int i = 0; i < nr; i++) I.rules.push_back(gen_rule(o, ns, nl));
        Config c0 = gen_config(ns, nl, o.empty_stack);
        for (int i = 0; i < deep; i++) c0.stack.push_back((int) choose(nl, "cl"));
        add_chain(I.A, c0, false);
        if (walk) {   // grow rules along a walk so that deep positive instances are common
            Config c = c0; int k = (int) choose(o.max_walk + 1, "walklen");
            for (int i = 0; i < k && !c.stack.empty(); i++) {
                std::vector<const Rule*> ap; for (auto& r : I.rules) if (apply(I, r, c)) ap.push_back(&r);
                if (!ap.empty() && chance(1, 2, "reuse")) { c = *apply(I, *ap[choose(ap.size(), "which")], c); continue; }
                Rule r = gen_rule(o, ns, nl); r.from = c.state; if (!r.wild && !applies(I, r, c.stack[0])) { r.pre = {c.stack[0]}; }
                I.rules.push_back(r); c = *apply(I, r, c);
            }
            if (chance(4, 5, "exact-target")) add_chain(I.B, c, false);
            else add_chain(I.B, gen_config(ns, nl, o.empty_stack), false);
        } else add_chain(I.B, gen_config(ns, nl, o.empty_stack), false);
        if (chance(1, 3, "moreA")) gen_random_edges(o, I.A, ns, nl);
        if (chance(1, 3, "moreB")) gen_random_edges(o, I.B, ns, nl);
        if (chance(1, 4, "chainA2")) add_chain(I.A, gen_config(ns, nl, o.empty_stack), chance(1, 2, "share"));
        if (chance(1, 4, "chainB2")) add_chain(I.B, gen_config(ns, nl, o.empty_stack), chance(1, 2, "share"));
        if (!o.empty_stack) for (int i = 0; i < ns; i++) I.A.acc[i] = I.B.acc[i] = 0;
        // merge duplicate rules that the library merges as well (same from,to,op,label,weight)
        note(I);
        for (auto& r : I.rules) { ev("rule", r.from * 100 + r.to, r.op * 100 + r.op_label, r.wild, r.pre.empty() ? 0 : r.pre[0]); }
        return I;
    }
}
