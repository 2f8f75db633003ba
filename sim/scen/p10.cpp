// Solving by abstraction and refinement gives the answer of the concrete problem: the verdict, and a concrete run when there is one,
// whatever the initial abstraction, the abstract counterexample that is picked, and the way it is refined; and it gets there in boundedly many refinements.
#include "headers.h"
#include "build.h"
#include <pdaaal/cegar/CegarPdaFactory.h>
#include <deque>
using namespace bridge;
using headers::Prob;

struct UserError {};
static int g_throw_at = -1, g_calls = 0;
// The search for a concrete run tries every way to follow the abstract one, so it may take exponentially many questions; that is no endless loop.
static void callback() { ++g_calls; if (g_calls == 3000) sim::large_instance(); if (g_throw_at >= 0 && g_calls == g_throw_at) { sim::count("fault.callback_throw"); throw UserError(); } }

struct CRule { size_t from, to; bool wild; int pre; op_t op; int op_label; };      // concrete rule with one pre-label, or a wildcard
struct Setup { const Prob& p; std::vector<CRule> rules; std::vector<std::vector<size_t>> by_from; std::vector<int> sa, la; bool best; int rounds = 0; bool own = false; std::optional<Refinement<size_t>> stash; };

template<typename T> class Recon;
template<typename T> class Factory : public CegarPdaFactory<T> {
    friend class Recon<T>;
    using base = CegarPdaFactory<T>;
public:
    using label_t = T;
    using abstract_rule_t = typename base::abstract_rule_t;
    explicit Factory(Setup& s, const std::unordered_set<T>& labels)
    : base(labels, std::function<int(const T&)>([&s](const T& l) { callback(); return s.la[unlab<T>(l)]; })), _s(s) {
        AbstractionMapping<size_t, int> m(std::function<int(const size_t&)>([&s](const size_t& q) { callback(); return s.sa[q]; }));
        for (int q = 0; q < s.p.I.ns; q++) m.insert((size_t) q);
        _states = RefinementMapping<size_t>(std::move(m));
    }
    void refine(typename Recon<T>::refinement_t&& r) { progress(); if (r.index() == 1) { SIM_CHECK((bool) _s.stash, "refinement-invented", "the factory is told to refine by itself, but the reconstruction did not ask for that"); _states.refine(*_s.stash); _s.stash.reset(); sim::count("probe.own_refinements"); } else _states.refine(std::get<0>(r).first); }
    void refine(typename Recon<T>::header_refinement_t&&) { progress(); }
protected:
    void build_pda() override {
        callback();
        SIM_CHECK(_told == _builds, "refinement-not-told", "the abstraction is built for the %zu. time, but the factory was told of %zu refinements", _builds + 1, _told); if (_builds++) check_progress();
        _classes = this->number_of_labels() + _states.size();
        _initial = abstract_all(_s.p.initial); _accepting = abstract_all(_s.p.accepting);
        for (auto& r : _s.rules) {
            abstract_rule_t a; a._from = st(r.from); a._to = st(r.to); a._op = r.op;
            if (r.op == PUSH || r.op == SWAP) a._op_label = (uint32_t) lb(r.op_label);
            if (r.wild) this->add_wildcard_rule(a); else { a._pre = (uint32_t) lb(r.pre); this->add_rule(a); }
        }
    }
    const std::vector<size_t>& initial() override { return _initial; }
    const std::vector<size_t>& accepting() override { return _accepting; }
private:
    void progress() { _s.rounds++; _told++; sim::count("probe.refinements"); SIM_CHECK(_s.rounds <= _s.p.I.ns + _s.p.I.nl, "no-progress", "%d refinements of an abstraction over %d states and %d labels", _s.rounds, _s.p.I.ns, _s.p.I.nl); }
    void check_progress() { size_t c = this->number_of_labels() + _states.size(); SIM_CHECK(c > _classes, "empty-refinement", "a refinement left the abstraction with %zu classes, before it had %zu", c, _classes); }
    size_t st(size_t q) const { auto [f, i] = _states.exists(q); SIM_CHECK(f, "lost-state", "state %zu is no longer in the abstraction", q); return i; }
    size_t lb(int l) const { auto [f, i] = this->abstract_label(lab<T>(l)); SIM_CHECK(f, "lost-label", "label %d is no longer in the abstraction", l); return i; }
    std::vector<size_t> abstract_all(const std::vector<int>& v) const { std::vector<size_t> r; for (int q : v) r.push_back(st(q)); std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r; }
    Setup& _s; RefinementMapping<size_t> _states; std::vector<size_t> _initial, _accepting; size_t _classes = 0, _builds = 0, _told = 0;
};
template<typename T> struct Conf { size_t rule; Header<T> header; T popped; };
template<typename T> using Trace = std::vector<typename PDA<T>::tracestate_t>;
template<typename T> class Recon : public CegarPdaReconstruction<T, size_t, const std::vector<Conf<T>>&, Trace<T>> {
    using base = CegarPdaReconstruction<T, size_t, const std::vector<Conf<T>>&, Trace<T>>;
    using rule_t = typename base::abstract_rule_t;
    using range_t = const std::vector<Conf<T>>&;
public:
    using label_t = T; using concrete_trace_t = Trace<T>; using typename base::refinement_t; using typename base::header_refinement_t; using typename base::product_t; using typename base::header_t;
    Recon(const Factory<T>& f, const product_t& i, const NFA<T>& a, const NFA<T>& b) : base(i, a, b), _s(f._s), _states(f._states) { }
protected:
    range_t initial_concrete_rules(const rule_t& r) override { callback(); auto& v = _confs.emplace_back(); auto h = this->initial_header(); for (int q : _s.p.initial) if (_states.maps_to((size_t) q, r._from)) extend(v, r, (size_t) q, h); return v; }
    range_t search_concrete_rules(const rule_t& r, const Conf<T>& c) override { callback(); auto& v = _confs.emplace_back(); extend(v, r, _s.rules[c.rule].to, c.header); return v; }
    refinement_t find_initial_refinement(const rule_t& r) override { callback(); std::vector<std::pair<size_t, T>> X; auto ls = this->pre_labels(this->initial_header()); for (int q : _s.p.initial) if (_states.maps_to((size_t) q, r._from)) for (auto& l : ls) X.emplace_back((size_t) q, l); return split(r, std::move(X)); }
    refinement_t find_refinement(const rule_t& r, const std::vector<Conf<T>>& cs) override { callback(); std::vector<std::pair<size_t, T>> X; for (auto& c : cs) for (auto& l : this->pre_labels(c.header)) X.emplace_back(_s.rules[c.rule].to, l); return split(r, std::move(X)); }
    header_t get_header(const Conf<T>& c) override { callback(); return c.header; }
    concrete_trace_t get_concrete_trace(std::vector<Conf<T>>&& cs, std::vector<T>&& h, size_t abstract_initial) override {
        callback();
        concrete_trace_t t;
        auto put = [&](size_t q) { t.emplace_back(); t.back()._pdastate = q; t.back()._stack.assign(h.rbegin(), h.rend()); };
        for (auto it = cs.rbegin(); it != cs.rend(); ++it) {
            auto& r = _s.rules[it->rule]; put(r.to);
            SIM_CHECK(!h.empty() || r.op == POP, "header-too-short", "the final stack returned is shorter than the run needs");
            switch (r.op) { case POP: h.push_back(it->popped); break; case SWAP: h.back() = it->popped; break; case PUSH: h.pop_back(); break; case NOOP: break; }
        }
        if (!cs.empty()) put(_s.rules[cs[0].rule].from);
        else { bool found = false; for (int q : _s.p.initial) if (!found && _states.maps_to((size_t) q, abstract_initial)) { put((size_t) q); found = true; } SIM_CHECK(found, "not-initial", "the abstract run starts in a state that stands for no initial state"); }
        std::reverse(t.begin(), t.end());
        return t;
    }
private:
    bool match(const CRule& c, const rule_t& r) const { return c.op == r._op && _states.maps_to(c.from, r._from) && _states.maps_to(c.to, r._to) && (c.wild || this->label_maps_to(lab<T>(c.pre), r._pre)) && (c.op == POP || c.op == NOOP || this->label_maps_to(lab<T>(c.op_label), r._op_label)); }
    void extend(std::vector<Conf<T>>& out, const rule_t& r, size_t q, const header_t& h) {
        for (size_t i : _s.by_from[q]) {
            auto& c = _s.rules[i]; if (!match(c, r)) continue;
            SIM_CHECK(!h.empty(), "rule-on-empty-stack", "the abstract run applies a rule to an empty stack");
            if (sim::chance(1, 8, "several-pops")) several_pops(h);
            std::vector<T> post; if (c.op == PUSH || c.op == SWAP) post.push_back(lab<T>(c.op_label));
            if (c.wild) {
                size_t pops = c.op == POP || c.op == SWAP; auto [nh, pre] = this->update_header_wildcard_pre(h, post, pops);
                T popped{}; if (pops) { if (h.top_is_concrete()) { SIM_CHECK(pre.empty(), "specialised-known", "a known label is reported as specialised"); popped = h.concrete_part.back(); } else { SIM_CHECK(pre.size() == 1, "specialised-count", "%zu labels reported for one unknown label", pre.size()); popped = pre[0]; } }
                out.push_back({i, nh, popped});
            } else {
                T pre = lab<T>(c.pre); if (c.op == PUSH) post.insert(post.begin(), pre); if (c.op == NOOP) post.push_back(pre);
                auto n = this->update_header(h, pre, post); if (n) out.push_back({i, n->first, pre});
            }
        }
    }
    void several_pops(const header_t& h) {      // popping several labels and pushing some is the same as doing so one at a time
        sim::Pause pause; size_t k = sim::choose(std::min<size_t>(h.size(), 4) + 1, "pops"); std::vector<T> post; for (size_t n = sim::choose(3, "pushes"); n > 0; n--) post.push_back(lab<T>((int) sim::choose(_s.p.I.nl, "l")));
        std::vector<T> expect, known; header_t e = h;
        for (size_t i = 0; i < k; i++) { auto [n, pre] = this->update_header_wildcard_pre(e, {}, 1); if (e.top_is_concrete()) { SIM_CHECK(pre.empty(), "specialised-known", "a known label is reported as specialised"); known.push_back(e.concrete_part.back()); } else { SIM_CHECK(pre.size() == 1, "specialised-count", "%zu labels reported for one unknown label", pre.size()); auto ls = this->pre_labels(e); SIM_CHECK(std::find(ls.begin(), ls.end(), pre[0]) != ls.end(), "specialised-impossible", "an unknown label is specialised to one that cannot be there"); expect.push_back(pre[0]); known.push_back(pre[0]); } SIM_CHECK(n.size() + 1 == e.size(), "pop-size", "popping one label of %zu leaves %zu", e.size(), n.size()); e = n; }
        size_t wild = e.count_wildcards; auto rest = e.concrete_part; rest.insert(rest.end(), post.begin(), post.end());
        auto same = [&](const header_t& n, const std::vector<T>& pre, const std::vector<T>& want) { SIM_CHECK(n.count_wildcards == wild && n.concrete_part == rest && pre == want && n.size() == wild + rest.size(), "several-pops", "popping %zu labels and pushing %zu at once is not the same as doing so one after the other", k, post.size()); };
        auto [n, pre] = this->update_header_wildcard_pre(h, post, k); same(n, pre, expect);
        if (k > 0) { auto u = this->update_header(h, known[0], post, k - 1); SIM_CHECK((bool) u, "several-pops-refused", "popping a label that is on top is refused"); auto w = expect; if (!h.top_is_concrete()) w.erase(w.begin()); same(u->first, u->second, w);
            auto ls = this->pre_labels(h);
            for (int l = 0; l < _s.p.I.nl; l++) { bool in = std::find(ls.begin(), ls.end(), lab<T>(l)) != ls.end(); if (!in && !h.top_is_concrete()) continue; bool v = (bool) this->update_header(h, lab<T>(l), post, k - 1); SIM_CHECK(v == in, "pre-labels", "label %d is %slisted as possible, but using it is %s", l, in ? "" : "not ", v ? "accepted" : "refused"); } }
        sim::count("probe.several_pops");
    }
    refinement_t split(const rule_t& r, std::vector<std::pair<size_t, T>>&& X) {
        std::vector<std::pair<size_t, T>> Y; std::vector<size_t> Yw;
        for (int q = 0; q < _s.p.I.ns; q++) {
            bool w = false; std::vector<std::pair<size_t, T>> ys;
            for (size_t i : _s.by_from[q]) if (match(_s.rules[i], r)) { if (_s.rules[i].wild) w = true; else ys.emplace_back((size_t) q, lab<T>(_s.rules[i].pre)); }
            if (w) Yw.push_back((size_t) q); else Y.insert(Y.end(), ys.begin(), ys.end());
        }
        SIM_CHECK(!X.empty(), "nothing-to-split", "the abstract run fails at a rule although no concrete configuration gets there");
        SIM_CHECK(!Y.empty() || !Yw.empty(), "invented-rule", "the abstract run uses a rule that stands for no concrete rule");
        std::sort(X.begin(), X.end()); X.erase(std::unique(X.begin(), X.end()), X.end());
        for (auto& x : X) { bool hit = std::find(Y.begin(), Y.end(), x) != Y.end() || std::find(Yw.begin(), Yw.end(), x.first) != Yw.end(); SIM_CHECK(!hit, "stuck-but-enabled", "a configuration that enables the rule is reported as stuck"); }
        sim::count("probe.rule_refinements");
        if (_s.own) {       // the factory refines its states itself
            std::vector<size_t> a, b(Yw); for (auto& x : X) a.push_back(x.first); for (auto& y : Y) b.push_back(y.first); auto uniq = [](auto& v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }; uniq(a); uniq(b);
            if (is_disjoint(a, b)) { _s.stash.emplace(std::move(a), std::move(b), r._from); return r; }
        }
        if (_s.best) return make_refinement<refinement_option_t::best_refinement>(std::move(X), std::move(Y), r._from, r._pre, std::move(Yw));
        return make_refinement<refinement_option_t::fast_refinement>(std::move(X), std::move(Y), r._from, r._pre, std::move(Yw));
    }
    Setup& _s; const RefinementMapping<size_t>& _states; std::deque<std::vector<Conf<T>>> _confs;
};

template<typename T, bool PRE, bool DUAL> static std::optional<Trace<T>> attempt(Setup& s, const std::unordered_set<T>& labels, const NFA<T>& a, const NFA<T>& b) {
    s.rounds = 0; g_calls = 0; s.stash.reset();
    CEGAR<Factory<T>, Recon<T>> c; return c.template cegar_solve<PRE, DUAL>(Factory<T>(s, labels), a, b);
}
template<typename T> static void solve(const Prob& p) {
    Setup s{p, {}, {}, {}, {}, sim::chance(1, 2, "best")};
    s.own = sim::chance(1, 3, "own-refinement");
    { sim::Pause pause; s.by_from.resize(p.I.ns);
      for (auto& r : p.I.rules) { std::vector<int> pre = r.pre; if (r.wild) pre = {0}; for (int l : pre) { if (std::any_of(s.rules.begin(), s.rules.end(), [&](const CRule& c) { return (int) c.from == r.from && (int) c.to == r.to && c.op == op(r.op) && (c.op == POP || c.op == NOOP || c.op_label == r.op_label) && c.wild == r.wild && (c.wild || c.pre == l); })) continue; s.by_from[r.from].push_back(s.rules.size()); s.rules.push_back({(size_t) r.from, (size_t) r.to, r.wild, l, op(r.op), r.op_label}); } }
      int sk = (int) sim::choose(4, "state-abs"), lk = (int) sim::choose(4, "label-abs");
      // The state abstraction keeps accepting states apart from others (the interface cannot refine by acceptance).
      for (int q = 0; q < p.I.ns; q++) { bool acc = std::find(p.accepting.begin(), p.accepting.end(), q) != p.accepting.end(); s.sa.push_back((sk == 0 ? 0 : sk == 1 ? q : (int) sim::choose(sk, "sa")) * 2 + acc); }
      for (int l = 0; l < p.I.nl; l++) s.la.push_back(lk == 0 ? 0 : lk == 1 ? l : (int) sim::choose(lk, "la"));
      if (sim::verbose()) { std::string x = "state classes:", y = "label classes:"; for (int v : s.sa) x += " " + std::to_string(v); for (int v : s.la) y += " " + std::to_string(v); sim::note("%s; %s", x.c_str(), y.c_str()); } }
    bool want = model::reachable(p.I);
    sim::count(want ? "probe.reachable" : "probe.unreachable");
    std::unordered_set<T> labels; for (int l = 0; l < p.I.nl; l++) labels.insert(lab<T>(l));
    auto a = rx::nfa<T>(*p.ri, [](int l) { return lab<T>(l); }), b = rx::nfa<T>(*p.rf, [](int l) { return lab<T>(l); }); a.compile(); b.compile();
    int engine = (int) sim::choose(3, "engine"); static const char* names[] = {"post", "pre", "dual"};
    auto go = [&] { return engine == 0 ? attempt<T, false, false>(s, labels, a, b) : engine == 1 ? attempt<T, true, false>(s, labels, a, b) : attempt<T, false, true>(s, labels, a, b); };
    int fault = (int) sim::choose(6, "fault"); g_throw_at = -1;
    if (fault >= 4) {
        sim::nontrivial(); sim::check_heap(); int64_t live = sim::live_blocks(); bool oom = false, user = false;
        if (fault == 4) sim::arm_alloc_failure(1 + sim::choose(600, "kth")); else g_throw_at = 1 + (int) sim::choose(30, "kth");
        std::optional<Trace<T>> r0; try { r0 = go(); } catch (const std::bad_alloc&) { oom = true; } catch (const UserError&) { user = true; }
        bool fired = sim::alloc_failure_fired(); sim::arm_alloc_failure(0); bool thrown = g_throw_at >= 0 && g_calls >= g_throw_at; g_throw_at = -1;
        if (fired) sim::count("fault.alloc");
        if (!oom && !user) SIM_CHECK((bool) r0 == want, "verdict-under-failure", "the search says %s, the target is %s", r0 ? "reachable" : "unreachable", want ? "reachable" : "unreachable");
        r0.reset(); s.stash.reset();
        SIM_CHECK(oom == fired && user == thrown, "swallowed", "a failure during the search was not reported to the caller");
        sim::check_heap(); SIM_CHECK(sim::live_blocks() == live, "leak", "%ld blocks are lost after a failed search", (long) (sim::live_blocks() - live));
    }
    auto r = go();
    sim::ev("cegar", (bool) r, want, (uint64_t) s.rounds); if (s.rounds) sim::nontrivial(); if (s.rounds > 2) sim::count("probe.many_rounds");
    if (sim::verbose()) sim::note("%s: %s after %d refinements", names[engine], r ? "reachable" : "unreachable", s.rounds);
    SIM_CHECK((bool) r == want, (std::string("verdict-") + names[engine]).c_str(), "abstraction-refinement (%s) says %s after %d refinements, the target is %s", names[engine], r ? "reachable" : "unreachable", s.rounds, want ? "reachable" : "unreachable");
    if (!r) return;
    sim::Pause pause; auto t = conv<T>(*r); note_trace(names[engine], t); model::Vec tot;
    auto e = model::check_trace(p.I, t, model::MIN, tot);
    SIM_CHECK(e.empty(), (std::string("trace-") + names[engine]).c_str(), "%s: %s", names[engine], e.c_str());
    if (t.size() > 4) sim::count("probe.long_traces");
}
static void run() {
    sim::choose_environment();
    model::GenOpts o; o.max_states = 5; o.max_labels = 5; o.max_rules = 9; o.max_walk = 7; o.scale = 30;
    auto p = headers::gen(o);
    if (sim::chance(1, 3, "strings")) solve<std::string>(p); else solve<int>(p);
}
extern const sim::Property SIM_PROPERTY{"P10", run, nullptr};
