// Saved instances mean what they say: text and MessagePack documents, read through an unreliable stream, compared with a reference reader; damaged ones must be rejected.
#include "build.h"
#include "jsonref.h"
#include <parsing/SolverInstanceJsonParser.h>
#include <sstream>
using namespace pdaaal;
using jr::J;
using model::Inst; using model::Vec;
using S = std::string;

// ---- reference meaning of a document -------------------------------------------------------------
struct RRule { S from; bool wild; S pre; char op; S opl, to; Vec w; };
struct RAut { std::set<S> acc; std::vector<std::tuple<S, S, S>> edges; bool eps = false, into_control = false; };
struct Mean { bool names = false; int wt = 0; std::set<S> states, labels, used; std::vector<S> order; std::vector<RRule> rules; RAut A, B; };
struct Bad {}; struct Unspecified {};
[[noreturn]] static void bad() { throw Bad{}; }
// A malformed document may ask for billions of states before its error is met: nothing is promised then but an honest failure.
static bool huge_in(const J& j) { for (auto& x : j.a) if (huge_in(x)) return true; for (auto& [k, v] : j.o) if ((v.k == jr::UINT && v.u > 60 && v.u < 4294967295ull && k == "to") || huge_in(v)) return true; return false; }
static bool huge_state(const S& a, const S& b, const J* x, const J* y) { if (x) return huge_in(*x) || huge_in(*y); for (auto* t : {&a, &b}) { size_t run = 0; for (char c : *t) { run = isdigit((unsigned char) c) ? run + 1 : 0; if (run > 4) { if (t->find("\\u") != S::npos) return true; for (size_t p = t->find("\"to\""); p != S::npos; p = t->find("\"to\"", p + 1)) { size_t q = p + 4; while (q < t->size() && (isspace((unsigned char) (*t)[q]) || (*t)[q] == ':')) q++; unsigned long long v = strtoull(t->c_str() + q, nullptr, 10); if (v > 60 && v < 4294967295ull) return true; } } } } return false; }
static S skey(const Mean& m, const J& j) {      // state reference in a P-automaton
    if (j.k == jr::STR) { if (!m.names) bad(); return j.s; }
    if (j.k != jr::UINT) bad();
    return m.names ? "#" + std::to_string(j.u) : std::to_string(j.u);
}
static Vec weight_ref(const Mean& m, const J& j) {
    auto one = [&](const J& x, bool sgn) -> long long {
        if (x.k == jr::UINT) { if (x.u >= (sgn ? 2147483647ull : 4294967295ull)) bad(); return (long long) x.u; }
        if (x.k == jr::INT && sgn) { if (x.i <= -2147483648LL || x.i >= 2147483647LL) bad(); return x.i; }
        bad();
    };
    if (m.wt <= 2) return model::norm({one(j, m.wt == 2)});
    if (j.k != jr::ARR) bad();
    Vec v; for (auto& x : j.a) v.push_back(one(x, m.wt == 4));
    return v;
}
static void rule_ref(Mean& m, const S& from, const S& pre, const J& j) {
    if (j.k != jr::OBJ) bad();
    RRule r{from, pre == "*", pre, 0, "", "", {}}; bool to = false, w = false;
    for (auto& [k, v] : j.o) {
        if (k == "to") {
            if (to) bad(); to = true;
            if (m.names) { if (v.k != jr::STR) bad(); r.to = v.s; } else { if (v.k != jr::UINT) bad(); if (v.u >= 4294967295ull) bad(); if (v.u > 60) throw Unspecified{}; r.to = std::to_string(v.u); }
        } else if (k == "pop" || k == "swap" || k == "push") {
            if (r.op || v.k != jr::STR) bad();
            r.op = k == "pop" ? 'p' : k == "swap" ? 's' : '+'; r.opl = v.s;
            if (r.op == 'p' && !v.s.empty()) bad();
            if (r.op == 's' && r.wild && v.s == "*") { r.op = 'n'; r.opl = ""; }
        } else if (k == "weight" && m.wt) { if (w) bad(); w = true; r.w = weight_ref(m, v); }
        else bad();
    }
    if (!to || !r.op || (m.wt && !w)) bad();
    if (r.op == 's' || r.op == '+') { m.labels.insert(r.opl); m.used.insert(r.opl); }
    m.states.insert(r.to);
    m.rules.push_back(r);
}
static void state_ref(Mean& m, const S& from, const J& j) {
    if (j.k != jr::OBJ) bad();
    m.states.insert(from);
    for (auto& [k, v] : j.o) {
        if (k != "*") m.labels.insert(k);
        if (v.k == jr::ARR) for (auto& x : v.a) rule_ref(m, from, k, x); else rule_ref(m, from, k, v);
    }
}
static void pda_ref(Mean& m, const J& j) {
    if (j.k != jr::OBJ) bad();
    bool st = false;
    for (auto& [k, v] : j.o) if (k == "states") {
        if (st) bad(); st = true;
        if (m.names) { if (v.k != jr::OBJ) bad(); for (auto& [n, s] : v.o) state_ref(m, n, s); }
        else { if (v.k != jr::ARR) bad(); size_t i = 0; for (auto& s : v.a) state_ref(m, std::to_string(i++), s); }
    }
    if (!st) bad();
    if (!m.names) { size_t mx = 0; bool any = false; for (auto& s : m.states) { mx = std::max<size_t>(mx, std::stoul(s)); any = true; } if (any) for (size_t i = 0; i <= mx; i++) m.states.insert(std::to_string(i)); }
}
static RAut aut_ref(Mean& m, const J& j, bool need_initial) {
    if (j.k != jr::OBJ) bad();
    RAut a; int ini = 0, acc = 0, edg = 0;
    for (auto& [k, v] : j.o) {
        if (k != "initial" && k != "accepting" && k != "edges") bad();
        if (v.k != jr::ARR) bad();
        if (k == "initial") {
            ini++;
            for (auto& x : v.a) { if (x.k != (m.names ? jr::STR : jr::UINT)) bad(); if (!m.states.count(m.names ? x.s : std::to_string(x.u))) bad(); }
        } else if (k == "accepting") { acc++; for (auto& x : v.a) a.acc.insert(skey(m, x)); }
        else { edg++; for (auto& e : v.a) {
            if (e.k != jr::ARR || e.a.size() != 3 || e.a[1].k != jr::STR) bad();
            S f = skey(m, e.a[0]), t = skey(m, e.a[2]);
            if (e.a[1].s.empty()) a.eps = true; else { a.edges.emplace_back(f, e.a[1].s, t); m.labels.insert(e.a[1].s); m.used.insert(e.a[1].s); }
            if (m.states.count(t)) a.into_control = true;
        } }
    }
    if (acc != 1 || edg != 1 || (need_initial && ini != 1)) bad();
    if (ini > 1) throw Unspecified{};
    return a;
}
static Mean instance_ref(const J& d) {
    Mean m;
    if (d.k != jr::OBJ) bad();
    if (d.o.size() != 1 || d.o[0].first != "instance" || d.o[0].second.k != jr::ARR || d.o[0].second.a.size() != 4) bad();
    auto& a = d.o[0].second.a;
    if (a[0].k != jr::OBJ) bad();
    int sn = 0, wt = 0; bool odd = false;
    for (auto& [k, v] : a[0].o) {
        if (k == "state-names") { sn++; if (v.k != jr::BOOL) bad(); m.names = v.b; }
        else if (k == "weight-type") {
            wt++;
            auto base = [&](const S& s) { if (s == "uint") return 1; if (s == "int") return 2; if (s != "none") odd = true; return 0; };
            if (v.k == jr::STR) m.wt = base(v.s);
            else if (v.k == jr::ARR) {
                if (v.a.size() > 2) bad();
                if (v.a.size() > 0 && v.a[0].k != jr::STR) bad();
                if (v.a.size() > 1 && v.a[1].k != jr::UINT) bad();
                int b = v.a.empty() ? 0 : base(v.a[0].s); if (!b) odd = true; m.wt = b ? b + 2 : 0;
            } else bad();
        } else bad();
    }
    if (sn != 1 || wt != 1) bad();
    if (odd) throw Unspecified{};
    pda_ref(m, a[1]); m.A = aut_ref(m, a[2], false); m.B = aut_ref(m, a[3], false);
    return m;
}

// ---- documents -----------------------------------------------------------------------------------
static std::vector<S> many(std::vector<S> v, const char* stem) { while (v.size() < 96) v.push_back(stem + std::to_string(v.size())); return v; }
static const std::vector<S> LABELS = many({"A", "B", "lo ng", "\xC3\xA9\"\\"}, "label"), STATES = many({"p0", "Zero", "q\xE2\x82\xAC", "*", "3", "initial"}, "state ");
static const std::vector<S> WORDS = {"*", "", "A", "B", "p0", "to", "pop", "swap", "push", "weight", "states", "pda", "accepting", "edges", "initial", "instance", "state-names", "weight-type", "uint", "none", "P-automaton", "extra"};
static J shuffle(J o) { for (size_t i = o.o.size(); i > 1; i--) { size_t k = sim::choose(i, "order"); std::swap(o.o[i - 1], o.o[i - 1 - k]); } return o; }
static J unknown(int depth) {
    switch (sim::choose(depth ? 7 : 4, "unknown")) {
        case 0: return jr::num(1); case 1: return jr::str("pda"); case 2: return J{}; case 3: return jr::boolean(true);
        case 4: { J a = jr::arr(); int n = (int) sim::choose(3, "n"); for (int i = 0; i < n; i++) a.a.push_back(unknown(depth - 1)); return a; }
        case 5: { J o = jr::obj(); int n = (int) sim::choose(3, "n"); for (int i = 0; i < n; i++) o.o.push_back({WORDS[sim::choose(WORDS.size(), "k")], unknown(depth - 1)}); return o; }
        default: { J j; j.k = jr::FLT; j.d = -2.5; return j; }
    }
}
struct Docs { J type, pda, A, B; };
static J state_json(bool names, int s, int ns, int salt) { if (s < ns) return names ? jr::str(STATES[s]) : jr::num(s); return jr::num(s + salt); }
static J aut_json(const Inst& I, const model::Aut& a, bool names, bool initial) {
    int salt = (int) sim::choose(3, "salt"); salt = salt == 2 ? 1000 : salt;
    bool named_extra = names && sim::chance(1, 4, "named-extra"); std::vector<int> nm(a.n, 0); if (named_extra) for (auto& x : nm) x = sim::chance(1, 2, "named");
    auto st = [&](int s) { if (s >= I.ns && nm[s]) return jr::str("extra" + std::to_string(s)); return state_json(names, s, I.ns, salt); };
    J o = jr::obj(), acc = jr::arr(), ed = jr::arr();
    for (int i = 0; i < a.n; i++) if (a.acc[i]) acc.a.push_back(st(i));
    for (auto& [f, l, t] : a.edges) { J e = jr::arr(); e.a = {st(f), jr::str(LABELS[l]), st(t)}; ed.a.push_back(e); }
    if (ed.a.size() > 1 && sim::chance(1, 2, "rotate")) std::swap(ed.a.front(), ed.a.back());
    o.o = {{"accepting", acc}, {"edges", ed}};
    if (initial || sim::chance(1, 4, "initial")) { J in = jr::arr(); for (int i = 0; i < I.ns; i++) in.a.push_back(state_json(names, i, I.ns, 0)); o.o.push_back({"initial", in}); }
    return shuffle(o);
}
static Docs gen_docs(const Inst& I, bool names, int wt, bool separate) {
    Docs d; d.type = jr::obj();
    J w; static const char* base[] = {"none", "uint", "int", "uint", "int"};
    if (wt < 3) w = jr::str(base[wt]); else { w = jr::arr(); w.a.push_back(jr::str(base[wt])); if (sim::chance(1, 3, "size")) w.a.push_back(jr::num(3)); }
    d.type.o = {{"state-names", jr::boolean(names)}, {"weight-type", w}}; d.type = shuffle(d.type);
    std::vector<J> st(I.ns, jr::obj());
    for (auto& r : I.rules) {
        std::vector<S> pre; if (r.wild) pre.push_back("*"); else for (int p : r.pre) pre.push_back(LABELS[p]);
        for (auto& p : pre) {
            J q = jr::obj(); q.o.push_back({"to", state_json(names, r.to, I.ns, 0)});
            switch (r.op) { case model::POP: q.o.push_back({"pop", jr::str("")}); break; case model::SWAP: q.o.push_back({"swap", jr::str(LABELS[r.op_label])}); break; case model::PUSH: q.o.push_back({"push", jr::str(LABELS[r.op_label])}); break; default: q.o.push_back({"swap", jr::str(p)}); }
            if (wt == 1 || wt == 2) q.o.push_back({"weight", jr::num(r.w.empty() ? 0 : r.w[0])});
            if (wt >= 3) { J v = jr::arr(); for (auto x : r.w) v.a.push_back(jr::num(x)); q.o.push_back({"weight", v}); }
            q = shuffle(q);
            auto& s = st[r.from].o; size_t at = s.size(); for (size_t i = 0; i < s.size(); i++) if (s[i].first == p && (s[i].second.k == jr::ARR || sim::chance(3, 4, "group"))) at = i;
            if (at == s.size()) { if (sim::chance(1, 3, "array")) { J a = jr::arr(); a.a.push_back(q); s.push_back({p, a}); } else s.push_back({p, q}); }
            else if (s[at].second.k == jr::ARR) s[at].second.a.push_back(q);
            else { J a = jr::arr(); a.a = {s[at].second, q}; s[at].second = a; }
        }
    }
    J states; if (names) { states = jr::obj(); for (int i = 0; i < I.ns; i++) states.o.push_back({STATES[i], st[i]}); states = shuffle(states); } else { states = jr::arr(); for (auto& s : st) states.a.push_back(s); }
    d.pda = jr::obj(); d.pda.o.push_back({"states", states});
    if (sim::chance(1, 4, "extra-property")) { d.pda.o.push_back({"comment", unknown(2)}); d.pda = shuffle(d.pda); sim::count("probe.extra_property"); }
    d.A = aut_json(I, I.A, names, separate); d.B = aut_json(I, I.B, names, separate);
    return d;
}

// ---- an unreliable source -------------------------------------------------------------------------
struct IoError {};
struct Source : std::streambuf {
    S data; size_t pos = 0, fail = S::npos; bool throws = false; char buf[64]; uint64_t chunk;
    Source(S d, size_t f, bool t) : data(std::move(d)), fail(f), throws(t) { sim::Pause p; chunk = 1 + sim::choose(64, "chunk"); }
    int_type underflow() override {
        size_t end = std::min(data.size(), fail);
        if (pos >= end) { if (pos < data.size()) { if (throws) throw IoError{}; } return traits_type::eof(); }
        size_t n = std::min<size_t>(chunk, end - pos);
        memcpy(buf, data.data() + pos, n); pos += n; setg(buf, buf, buf + n); sim::sched(n); if (pos < end) sim::nontrivial();
        return traits_type::to_int_type(buf[0]);
    }
};
enum Outcome { READ, REJECTED, NOMEM, IOERR };
template<typename F> static Outcome attempt(S& msg, F&& f) {
    try { f(); return READ; }
    catch (const std::bad_alloc&) { return NOMEM; }
    catch (const IoError&) { return IOERR; }
    catch (const std::runtime_error& e) { sim::Pause p; msg = e.what(); return REJECTED; }
    catch (const std::exception& e) { sim::fail("wrong-exception", "rejected with %s instead of a runtime error", e.what()); }
}

// ---- comparison -----------------------------------------------------------------------------------
template<typename P> static S state_name(const P& pda, size_t s) { if constexpr (P::expose_skip_state_mapping) return std::to_string(s); else return pda.get_state(s); }
static bool accepts_ref(const RAut& a, const S& s, const std::vector<S>& w) {
    std::set<S> cur{s};
    for (auto& l : w) { std::set<S> nx; for (auto& [f, x, t] : a.edges) if (x == l && cur.count(f)) nx.insert(t); cur = nx; }
    for (auto& c : cur) if (a.acc.count(c)) return true;
    return false;
}
template<typename P> static std::optional<size_t> state_id(const P& pda, const S& name) {
    if constexpr (P::expose_skip_state_mapping) { auto [e, id] = pda.exists_state(std::stoul(name)); if (e) return id; return std::nullopt; }
    else { auto [e, id] = pda.exists_state(name); if (e) return id; return std::nullopt; }
}
template<typename P> static void compare_pda(const Mean& m, const P& pda, const char* who) {
    sim::Pause p;
    using Key = std::tuple<S, S, char, S, S, Vec>;
    std::set<Key> want, got;
    for (auto& r : m.rules) { std::vector<S> pre; if (r.wild) pre.assign(m.labels.begin(), m.labels.end()); else pre.push_back(r.pre); for (auto& l : pre) { char op = r.op; S ol = r.opl; if (op == 'n') { op = 's'; ol = l; } want.insert({r.from, l, op, ol, r.to, model::norm(r.w)}); } }
    SIM_CHECK(pda.states().size() == m.states.size(), (S("states-") + who).c_str(), "%s: the document has %zu states, the system read from it %zu", who, m.states.size(), pda.states().size());
    for (auto& s : m.states) SIM_CHECK(state_id(pda, s).has_value(), (S("state-missing-") + who).c_str(), "%s: state %s of the document is missing", who, s.c_str());
    std::set<S> labels; for (size_t l = 0; l < pda.number_of_labels(); l++) labels.insert(pda.get_symbol(l));
    SIM_CHECK(labels == m.labels, (S("labels-") + who).c_str(), "%s: %zu labels instead of %zu", who, labels.size(), m.labels.size());
    for (size_t s = 0; s < pda.states().size(); s++) for (auto& [rule, ls] : pda.states()[s]._rules) {
        std::vector<uint32_t> pre; if (ls.wildcard()) for (uint32_t l = 0; l < pda.number_of_labels(); l++) pre.push_back(l); else pre = ls.labels();
        for (auto l : pre) {
            char op = rule._operation == POP ? 'p' : rule._operation == PUSH ? '+' : 's';
            S ol = rule._operation == NOOP ? pda.get_symbol(l) : rule._operation == POP ? S() : pda.get_symbol(rule._op_label);
            Vec w; if constexpr (P::weight::is_weight) w = bridge::vec_of(rule._weight);
            got.insert({state_name(pda, s), pda.get_symbol(l), op, ol, state_name(pda, rule._to), w});
        }
    }
    for (auto& k : want) SIM_CHECK(got.count(k), (S("rule-lost-") + who).c_str(), "%s: rule %s %s %c%s -> %s of the document is missing", who, std::get<0>(k).c_str(), std::get<1>(k).c_str(), std::get<2>(k), std::get<3>(k).c_str(), std::get<4>(k).c_str());
    for (auto& k : got) SIM_CHECK(want.count(k), (S("rule-invented-") + who).c_str(), "%s: rule %s %s %c%s -> %s weight %s is not in the document", who, std::get<0>(k).c_str(), std::get<1>(k).c_str(), std::get<2>(k), std::get<3>(k).c_str(), std::get<4>(k).c_str(), model::str(std::get<5>(k)).c_str());
}
template<typename P, typename Au> static void compare_aut(const Mean& m, const P& pda, const RAut& r, const Au& a, const char* who) {
    sim::Pause p;
    if (r.eps) return;      // membership queries do not follow epsilon edges
    std::vector<S> L(m.labels.begin(), m.labels.end());
    std::vector<std::vector<S>> words{{}};
    for (size_t i = 0, len = 0; len < (L.size() <= 5 ? 2 : 1); len++) { size_t n = words.size(); for (; i < n; i++) for (auto& l : L) { auto w = words[i]; w.push_back(l); words.push_back(w); } }
    std::vector<std::pair<S, std::vector<S>>> qs;
    for (auto& s : m.states) for (auto& w : words) qs.push_back({s, w});
    for (int k = 0; k < 6 && !m.states.empty(); k++) {       // along the edges of the document
        S s = *std::next(m.states.begin(), (long) sim::choose(m.states.size(), "walk")), c = s; std::vector<S> w;
        for (int i = 0; i < 5; i++) { std::vector<size_t> e; for (size_t x = 0; x < r.edges.size(); x++) if (std::get<0>(r.edges[x]) == c) e.push_back(x); if (e.empty()) break; auto& x = r.edges[e[sim::choose(e.size(), "step")]]; w.push_back(std::get<1>(x)); c = std::get<2>(x); if (r.acc.count(c)) qs.push_back({s, w}); }
    }
    for (auto& [s, w] : qs) {
        auto id = state_id(pda, s); std::vector<uint32_t> st; bool known = true;
        for (auto& l : w) { auto [e, x] = pda.exists_label(l); if (!e) known = false; else st.push_back((uint32_t) x); }
        bool want = accepts_ref(r, s, w), got; { sim::Unpause u; got = known && a.accepts(*id, st); }
        if (want != got) { S t; for (auto& l : w) t += l + " "; sim::fail((S("configurations-") + who).c_str(), "%s: <%s, %s> is %s by the automaton, but the document %s it", who, s.c_str(), t.c_str(), got ? "accepted" : "rejected", want ? "contains" : "does not contain"); }
    }
}
static std::optional<Inst> to_inst(const Mean& m) {
    sim::Pause p;
    if (m.A.eps || m.B.eps || m.A.into_control || m.B.into_control || m.states.empty() || m.labels.empty()) return std::nullopt;
    Inst I; std::map<S, int> st, lb; for (auto& s : m.states) { int k = (int) st.size(); st[s] = k; } for (auto& l : m.labels) { int k = (int) lb.size(); lb[l] = k; }
    I.ns = (int) st.size(); I.nl = (int) lb.size();
    for (auto& r : m.rules) { model::Rule q; q.from = st[r.from]; q.to = st[r.to]; q.wild = r.wild; if (!r.wild) q.pre = {lb[r.pre]}; q.op = r.op == 'p' ? model::POP : r.op == 's' ? model::SWAP : r.op == '+' ? model::PUSH : model::NOOP; if (r.op == 's' || r.op == '+') q.op_label = lb[r.opl]; I.rules.push_back(q); }
    auto aut = [&](const RAut& a) { model::Aut x; auto s2 = st; for (auto& s : a.acc) if (!s2.count(s)) { int k = (int) s2.size(); s2[s] = k; } for (auto& [f, l, t] : a.edges) for (auto* s : {&f, &t}) if (!s2.count(*s)) { int k = (int) s2.size(); s2[*s] = k; } x.n = (int) s2.size(); x.acc.assign(x.n, 0); for (auto& s : a.acc) x.acc[s2[s]] = 1; for (auto& [f, l, t] : a.edges) { model::Edge e{s2[f], lb[l], s2[t]}; if (std::find(x.edges.begin(), x.edges.end(), e) == x.edges.end()) x.edges.push_back(e); } return x; };
    I.A = aut(m.A); I.B = aut(m.B);
    return I;
}
template<typename Prod> static void verdict(const Mean& m, Prod& prod, const char* who) {
    auto I = to_inst(m); if (!I) return;
    bool want; { sim::Pause p; want = model::reachable(*I); }
    sim::count(want ? "probe.reachable" : "probe.unreachable");
    bool got = sim::chance(1, 2, "direction") ? Solver::pre_star_accepts_no_ET(prod) : Solver::post_star_accepts_no_ET(prod);
    SIM_CHECK(got == want, (S("verdict-") + who).c_str(), "%s: the instance read from the document answers %d, the document says %d", who, got, want);
}
// A printed system need not mention labels that no edge or operation uses and whose rules are covered by a rule for all labels.
template<typename P> static Mean as_printed(Mean m, const P& pda) {
    sim::Pause p;
    std::set<S> labels; for (size_t l = 0; l < pda.number_of_labels(); l++) labels.insert(pda.get_symbol(l));
    for (auto& l : labels) SIM_CHECK(m.labels.count(l), "reread-label", "label %s appears only after printing", l.c_str());
    for (auto& l : m.used) SIM_CHECK(labels.count(l), "reread-label-lost", "label %s is lost in printing", l.c_str());
    m.labels = labels;
    std::vector<RRule> keep;
    for (auto& r : m.rules) {
        if (r.wild || labels.count(r.pre)) { keep.push_back(r); continue; }
        bool covered = false; for (auto& q : m.rules) if (q.wild && q.from == r.from && q.op == r.op && q.opl == r.opl && q.to == r.to && model::norm(q.w) == model::norm(r.w)) covered = true;
        SIM_CHECK(covered, "reread-rule-lost", "a rule for label %s is lost in printing", r.pre.c_str());
    }
    m.rules = keep;
    return m;
}
template<typename Prod> static void compare_product(const Mean& m, const Prod& p, const char* who) { compare_pda(m, p.pda(), who); compare_aut(m, p.pda(), m.A, p.initial_automaton(), (S(who) + "-initial").c_str()); compare_aut(m, p.pda(), m.B, p.final_automaton(), (S(who) + "-final").c_str()); }

using fmt = nlohmann::json::input_format_t;
static auto read_instance(const S& bytes, bool mp) { Source src(bytes, S::npos, false); std::istream in(&src); return parsing::SolverInstanceJsonParser::parse<>(in, mp ? fmt::msgpack : fmt::json); }

template<typename W, bool names> static void separate(const Mean& m, bool mp, const S& dpda, const S& da, const S& db) {
    // three files: the system and two automata
    auto get = [&](const S& s) { return std::make_unique<Source>(s, S::npos, false); };
    auto s1 = get(dpda), s2 = get(da), s3 = get(db);
    std::istream i1(s1.get()), i2(s2.get()), i3(s3.get()); std::ostringstream warn;
    auto f = mp ? fmt::msgpack : fmt::json;
    auto pda = parsing::PdaJsonParser::parse<W, names>(i1, warn, f);
    auto a = parsing::PAutomatonJsonParser::parse<>(i2, pda, f);
    auto b = parsing::PAutomatonJsonParser::parse<>(i3, pda, f);
    compare_pda(m, pda, "files"); compare_aut(m, pda, m.A, a, "files-initial"); compare_aut(m, pda, m.B, b, "files-final");
    {   // and back
        S t1 = pda.to_json().dump(), t2 = a.to_json().dump(), t3 = b.to_json().dump();
        if (sim::verbose()) sim::note("printed: %s %s %s", t1.c_str(), t2.c_str(), t3.c_str());
        std::istringstream j1(t1), j2(t2), j3(t3);
        auto pda2 = parsing::PdaJsonParser::parse<W, names>(j1, warn);
        auto a2 = parsing::PAutomatonJsonParser::parse<>(j2, pda2);
        auto b2 = parsing::PAutomatonJsonParser::parse<>(j3, pda2);
        Mean u = as_printed(m, pda2);
        compare_pda(u, pda2, "files-reread"); compare_aut(u, pda2, u.A, a2, "files-reread-initial"); compare_aut(u, pda2, u.B, b2, "files-reread-final");
    }
    SolverInstance inst(std::move(pda), std::move(a), std::move(b));
    verdict(m, *inst, "files");
}
template<bool names> static void separate_w(int wt, const Mean& m, bool mp, const S& a, const S& b, const S& c) {
    switch (wt) {
        case 0: return separate<weight<void>, names>(m, mp, a, b, c);
        case 1: return separate<weight<uint32_t>, names>(m, mp, a, b, c);
        case 2: return separate<weight<int32_t>, names>(m, mp, a, b, c);
        case 3: return separate<weight<std::vector<uint32_t>>, names>(m, mp, a, b, c);
        default: return separate<weight<std::vector<int32_t>>, names>(m, mp, a, b, c);
    }
}
static void run_once() {
    sim::choose_environment();
    model::GenOpts o; o.scale = 30; o.max_states = 4; o.max_labels = 3; o.max_rules = 7; o.max_walk = 5;
    int wt, damage; bool names, mp, three; Docs d; Inst I;
    {
        sim::Pause p;
        wt = (int) sim::choose(5, "weights"); names = sim::chance(1, 2, "names"); three = sim::chance(1, 3, "files"); mp = sim::chance(1, 4, "msgpack");
        damage = (int) sim::choose(10, "damage-kind"); damage = damage < 4 ? 0 : damage < 7 ? 1 : damage < 8 ? 2 : damage < 9 ? 3 : 4;
        o.wmode = wt == 0 ? 0 : wt <= 2 ? wt : 3;
        I = model::gen(o); d = gen_docs(I, names, wt, three);
    }
    if (damage) sim::nontrivial();
    J inst, dp, da, db; S ti, tp, ta, tb; bool accept = true, unspec = false; Mean m; size_t fail = S::npos; bool throws = false;
    {
        sim::Pause p;
        if (three) {
            dp = jr::obj(); dp.o.push_back({"pda", d.pda}); if (sim::chance(1, 4, "extra-property")) { dp.o.push_back({"comment", unknown(2)}); dp = shuffle(dp); }
            da = jr::obj(); da.o.push_back({"P-automaton", d.A}); db = jr::obj(); db.o.push_back({"P-automaton", d.B});
        } else { inst = jr::obj(); J a = jr::arr(); a.a = {d.type, d.pda, d.A, d.B}; inst.o.push_back({"instance", a}); }
        if (damage == 1) { int k = 1 + (int) sim::choose(2, "damages"); for (int i = 0; i < k; i++) jr::damage(three ? *(std::vector<J*>{&dp, &da, &db})[sim::choose(3, "file")] : inst, WORDS); sim::count("fault.structure"); }
        auto enc = [&](const J& j) { S t; if (mp) jr::msgpack(t, j); else jr::text(t, j, sim::chance(1, 2, "pretty")); return t; };
        if (three) { tp = enc(dp); ta = enc(da); tb = enc(db); } else ti = enc(inst);
        S& victim = three ? *(std::vector<S*>{&tp, &ta, &tb})[damage >= 2 ? sim::choose(3, "file") : 0] : ti;
        if (damage == 2 && mp) damage = 3;
        if (damage == 2) { int k = 1 + (int) sim::choose(3, "damages"); for (int i = 0; i < k; i++) jr::damage_bytes(victim); sim::count("fault.bytes"); }
        if (damage == 3) {      // the stream ends or fails early
            fail = sim::choose(victim.size(), "cut"); throws = sim::chance(1, 3, "io-error"); sim::count(throws ? "fault.io_error" : "fault.truncated");
            victim.resize(fail);
        }
        // what should happen?
        try {
            auto dec = [&](const S& t, const J& j) { if (mp) { if (damage == 3 && &t == &victim) bad(); return j; } auto r = jr::read(t); if (!r) bad(); return *r; };
            if (three) {
                m.names = names; m.wt = wt;
                J x = dec(tp, dp); if (x.k != jr::OBJ) bad(); int n = 0; for (auto& [k, v] : x.o) if (k == "pda") { if (n++) bad(); pda_ref(m, v); } if (!n) bad();
                auto one = [&](const J& y) { if (y.k != jr::OBJ || y.o.size() != 1 || y.o[0].first != "P-automaton") bad(); return aut_ref(m, y.o[0].second, true); };
                m.A = one(dec(ta, da)); m.B = one(dec(tb, db));
            } else m = instance_ref(dec(ti, inst));
        } catch (Bad) { accept = false; unspec = huge_state(ti, tp, mp ? &inst : nullptr, mp ? &dp : nullptr); } catch (Unspecified) { unspec = true; }
        if (sim::verbose()) { if (mp) sim::note("MessagePack document"); if (three) { sim::note("%s", (mp ? S("system: ") : tp).c_str()); sim::note("%s", ta.c_str()); sim::note("%s", tb.c_str()); S x; if (mp) { jr::text(x, dp, false); x += " "; jr::text(x, da, false); x += " "; jr::text(x, db, false); sim::note("as text: %s", x.c_str()); } } else { S x; if (mp) { jr::text(x, inst, false); sim::note("as text: %s", x.c_str()); } else sim::note("%s", ti.c_str()); } sim::note("expected: %s", unspec ? "unspecified" : accept ? "read" : "rejected"); }
        sim::ev("doc", ti.size() + tp.size(), wt, damage); for (auto* t : {&ti, &tp, &ta, &tb}) sim::evs("bytes", *t);
    }
    if (unspec) { sim::count("probe.unspecified"); return; }
    if (damage == 0) SIM_CHECK(accept, "harness", "a clean document is rejected by the reference reader");
    if (three && throws) throws = false;
    S msg; Outcome out = READ;
    if (damage == 4 && accept && (!three || wt == 0)) {      // an allocation fails while the document is read; a second attempt is unaffected
        auto before = sim::live_blocks();
        sim::arm_alloc_failure(1 + sim::choose(300, "alloc"));
        out = attempt(msg, [&] { if (three) { Source s(tp, S::npos, false); std::istream in(&s); std::ostringstream w; if (names) parsing::PdaJsonParser::parse<weight<void>, true>(in, w, mp ? fmt::msgpack : fmt::json); else parsing::PdaJsonParser::parse<weight<void>, false>(in, w, mp ? fmt::msgpack : fmt::json); } else read_instance(ti, mp); });
        bool fired = sim::alloc_failure_fired(); sim::arm_alloc_failure(0);
        if (fired) { sim::count("fault.alloc"); SIM_CHECK(out == NOMEM, "alloc-failure-lost", "a failing allocation while reading does not reach the caller (outcome %d %s)", out, msg.c_str()); }
        else if (!three) SIM_CHECK(out == READ, "clean-rejected", "a well-formed document is rejected: %s", msg.c_str());
        sim::Pause p; msg.clear(); msg.shrink_to_fit();
        SIM_CHECK(sim::live_blocks() == before, "leak", "%lld blocks left behind by a failed read", (long long) (sim::live_blocks() - before));
        sim::check_heap();
    }
    if (three) {
        out = attempt(msg, [&] { if (names) separate_w<true>(wt, m, mp, tp, ta, tb); else separate_w<false>(wt, m, mp, tp, ta, tb); });
    } else {
        out = attempt(msg, [&] {
            Source src(throws ? ti + "x" : ti, throws ? ti.size() : S::npos, throws); std::istream in(&src);
            auto v = parsing::SolverInstanceJsonParser::parse<>(in, mp ? fmt::msgpack : fmt::json);
            if (!accept) sim::fail("damaged-accepted", "a malformed document is accepted");
            std::visit([&](auto& inst) {
                using pda_t = std::decay_t<decltype(inst->pda())>;
                SIM_CHECK(pda_t::expose_skip_state_mapping == !m.names, "state-names", "state-names is %d in the document", m.names);
                using W = typename pda_t::weight;
                int kind = 0; if constexpr (W::is_weight) kind = (W::is_vector ? 2 : 0) + (W::is_signed ? 2 : 1);
                SIM_CHECK(kind == m.wt, "weight-type", "weight type %d instead of %d", kind, m.wt);
                compare_product(m, *inst, "instance");
                S t = inst->to_json().dump(); if (sim::verbose()) sim::note("printed: %s", t.c_str());
                auto again = read_instance(t, false);
                SIM_CHECK(again.index() == v.index(), "reread-type", "a printed instance is read back as another type");
                std::visit([&](auto& i2) { compare_product(as_printed(m, i2->pda()), *i2, "reread"); }, again);
                verdict(m, *inst, "instance");
            }, v);
        });
    }
    if (out == READ && !accept) sim::fail("damaged-accepted", "a malformed document is accepted");
    if (!accept) {
        SIM_CHECK(out == REJECTED || (out == IOERR && throws), "damaged-outcome", "a malformed document ends with outcome %d", out);
        sim::count("probe.rejected"); if (out == REJECTED) SIM_CHECK(!msg.empty(), "no-message", "a document is rejected without a message");
        if (out == REJECTED) sim::ev("rejected");
    } else { SIM_CHECK(out == READ, "clean-rejected", "a well-formed document is rejected: %s", msg.c_str()); sim::count("probe.accepted"); }
    sim::ev("done", out);
}
static void warm() {}
extern const sim::Property SIM_PROPERTY{"P14", run_once, warm};
