// Instances compiled by a factory from callbacks pose exactly the problem the callbacks describe: whatever order states are explored in,
// each reachable control state is asked for once and no other is, the answers and traces are those of the described system,
// a compiled instance can be moved, and a callback or allocation that fails leaves nothing behind.
#include "headers.h"
#include "build.h"
#include <pdaaal/PDAFactory.h>
#include <pdaaal/cegar/CegarPdaFactory.h>
using namespace bridge;
using headers::Prob;
struct UserError {};
struct World { const Prob& p; std::vector<size_t> number; std::map<size_t, int> back; std::map<size_t, int> asked, asked_acc; int throw_at = -1, calls = 0; bool thrown = false;
    void call() { if (throw_at >= 0 && ++calls == throw_at) { thrown = true; sim::count("fault.callback_throw"); throw UserError(); } } };

// state q of the model is number[q] for the library
template<typename T, typename W> class Lazy : public DFS_PDAFactory<T, W> {
    using base = DFS_PDAFactory<T, W>;
public:
    using typename base::rule_t;
    Lazy(World& w, const std::unordered_set<T>& labels, T wild) : base(labels, wild), _w(w), _wild(wild) { for (int q : w.p.initial) _initial.push_back(w.number[q]); std::sort(_initial.begin(), _initial.end()); }
protected:
    const std::vector<size_t>& initial() override { return _initial; }
    bool accepting(size_t s) override {
        _w.call(); auto it = _w.back.find(s); SIM_CHECK(it != _w.back.end(), "unknown-state-asked", "the factory asks whether %zu accepts, which is no state", s);
        { sim::Pause p; _w.asked_acc[s]++; } return std::find(_w.p.accepting.begin(), _w.p.accepting.end(), it->second) != _w.p.accepting.end();
    }
    std::vector<rule_t> rules(size_t s) override {
        _w.call(); auto it = _w.back.find(s); SIM_CHECK(it != _w.back.end(), "unknown-state-asked", "the factory asks for the rules of %zu, which is no state", s);
        { sim::Pause p; _w.asked[s]++; }
        std::vector<rule_t> out;
        for (auto& r : _w.p.I.rules) if (r.from == it->second) {
            std::vector<T> pre; if (r.wild) pre.push_back(_wild); else for (int l : r.pre) pre.push_back(lab<T>(l));
            for (auto& l : pre) {
                rule_t x; x._from = s; x._pre = l; x._to = _w.number[r.to]; x._op = op(r.op); x._op_label = r.op == model::SWAP || r.op == model::PUSH ? lab<T>(r.op_label) : T{};
                if constexpr (W::is_weight) x._weight = weight_of<W>(r.w);
                out.push_back(x);
            }
        }
        return out;
    }
private:
    World& _w; T _wild; std::vector<size_t> _initial;
};
// eager factory: build_pda adds everything
template<typename T, typename W, TraceInfoType TI> class Eager : public PDAFactory<T, W, TI> {
    using base = PDAFactory<T, W, TI>;
public:
    using typename base::rule_t;
    Eager(World& w, const std::unordered_set<T>& labels) : base(labels), _w(w) { for (int q : w.p.initial) _initial.push_back(w.number[q]); for (int q : w.p.accepting) _accepting.push_back(w.number[q]); std::sort(_initial.begin(), _initial.end()); std::sort(_accepting.begin(), _accepting.end()); }
protected:
    const std::vector<size_t>& initial() override { return _initial; }
    const std::vector<size_t>& accepting() override { return _accepting; }
    void build_pda() override {
        for (auto& r : _w.p.I.rules) {
            _w.call(); rule_t x; x._from = _w.number[r.from]; x._to = _w.number[r.to]; x._op = op(r.op); x._op_label = r.op == model::SWAP || r.op == model::PUSH ? lab<T>(r.op_label) : T{};
            if constexpr (W::is_weight) x._weight = weight_of<W>(r.w);
            if (r.wild) { x._pre = T{}; this->add_wildcard_rule(x); } else for (int l : r.pre) { x._pre = lab<T>(l); this->add_rule(x); }
        }
    }
private:
    World& _w; std::vector<size_t> _initial, _accepting;
};
// identity abstraction, to obtain an AbstractionSolverInstance
template<typename T> class Identity : public CegarPdaFactory<T> {
public:
    Identity(World& w, const std::unordered_set<T>& labels) : CegarPdaFactory<T>(labels, std::function<int(const T&)>([](const T& l) { return unlab<T>(l); })), _w(w) { for (int q : w.p.initial) _initial.push_back(w.number[q]); for (int q : w.p.accepting) _accepting.push_back(w.number[q]); std::sort(_initial.begin(), _initial.end()); std::sort(_accepting.begin(), _accepting.end()); }
protected:
    const std::vector<size_t>& initial() override { return _initial; }
    const std::vector<size_t>& accepting() override { return _accepting; }
    void build_pda() override {
        for (auto& r : _w.p.I.rules) {
            _w.call(); typename CegarPdaFactory<T>::abstract_rule_t x; x._from = _w.number[r.from]; x._to = _w.number[r.to]; x._op = op(r.op); if (r.op == model::SWAP || r.op == model::PUSH) x._op_label = (uint32_t) this->abstract_label(lab<T>(r.op_label)).second;
            if (r.wild) this->add_wildcard_rule(x); else for (int l : r.pre) { x._pre = (uint32_t) this->abstract_label(lab<T>(l)).second; this->add_rule(x); }
        }
    }
private:
    World& _w; std::vector<size_t> _initial, _accepting;
};
template<typename T, typename Tr> static std::vector<model::Config> back(const World& w, const Tr& t) {
    std::vector<model::Config> r;
    for (auto& s : t) { model::Config c; auto it = w.back.find(s._pdastate); SIM_CHECK(it != w.back.end(), "trace-unknown-state", "the trace visits %zu, which is no state", (size_t) s._pdastate); c.state = it->second; for (auto& l : s._stack) c.stack.push_back(unlab<T>(l)); r.push_back(c); }
    return r;
}
// an instance that is moved around before it is used
template<typename I> static void use(I&& inst, const std::function<void(I&)>& f) {
    if constexpr (std::is_move_constructible_v<I>) {
        int k = (int) sim::choose(4, "move");
        if (k == 1) { sim::nontrivial(); sim::count("probe.moved"); auto h = std::make_unique<I>(std::move(inst)); f(*h); return; }
        if (k == 2) { sim::nontrivial(); sim::count("probe.moved"); std::vector<I> v; v.push_back(std::move(inst)); I tmp(std::move(v[0])); v.clear(); v.push_back(std::move(tmp)); f(v[0]); return; }
    }
    f(inst);
}
template<typename T, typename W, bool SHORTEST, typename I> static void check(const World& w, I& i, const model::Answer& a) {
    auto verify = [&](const char* name, bool r, auto&& trace) {
        sim::ev(name, r, a.reach);
        SIM_CHECK(r == a.reach, (std::string("verdict-") + name).c_str(), "%s says %s, the target is %s", name, r ? "reachable" : "unreachable", a.reach ? "reachable" : "unreachable");
        if (!r) return;
        model::Vec wt, tot; bool have = false; std::vector<model::Config> t;
        if constexpr (SHORTEST) { auto x = trace(); sim::Pause p; t = back<T>(w, x.first); wt = vec_of(x.second); have = true; } else { auto x = trace(); sim::Pause p; t = back<T>(w, x); }
        sim::Pause p; note_trace(name, t);
        auto e = model::check_trace(w.p.I, t, model::MIN, tot); SIM_CHECK(e.empty(), (std::string("trace-") + name).c_str(), "%s: %s", name, e.c_str());
        if (have) { SIM_CHECK(model::cmp(wt, a.v.w) == 0, (std::string("weight-") + name).c_str(), "%s reports %s, the minimum is %s", name, model::str(wt).c_str(), model::str(a.v.w).c_str()); SIM_CHECK(model::cmp(tot, a.v.w) == 0, (std::string("trace-weight-") + name).c_str(), "%s: the trace weighs %s, the minimum is %s", name, model::str(tot).c_str(), model::str(a.v.w).c_str()); }
    };
    constexpr auto TT = SHORTEST ? Trace_Type::Shortest : Trace_Type::Any;
    auto then_move = [&](auto&& get) { if (sim::chance(1, 4, "move-solved")) { sim::count("probe.moved_solved"); sim::nontrivial(); I j(std::move(i)); return get(j); } return get(i); };
    switch (sim::choose(3, "engine")) {
        case 0: { bool r = Solver::post_star_accepts<TT>(*i); verify("post", r, [&] { return then_move([](I& x) { return Solver::get_trace<TT>(*x); }); }); break; }
        case 1: { bool r = Solver::pre_star_accepts<TT>(*i); verify("pre", r, [&] { return then_move([](I& x) { return Solver::get_trace<TT>(*x); }); }); break; }
        default: { bool r = Solver::dual_search_accepts<TT>(*i); verify("dual", r, [&] { return then_move([](I& x) { return Solver::get_trace_dual_search<TT>(*x); }); }); break; }
    }
}
template<typename Make> static void faulty(World& w, const Make& make) {
    int fault = (int) sim::choose(6, "fault"); if (fault < 4) return;
    sim::nontrivial(); int64_t live = sim::live_blocks(); bool oom = false, user = false; w.calls = 0; w.thrown = false;
    if (fault == 4) sim::arm_alloc_failure(1 + sim::choose(250, "kth")); else w.throw_at = 1 + (int) sim::choose(14, "kth");
    try { make(); } catch (const std::bad_alloc&) { oom = true; } catch (const UserError&) { user = true; }
    bool fired = sim::alloc_failure_fired(); sim::arm_alloc_failure(0); w.throw_at = -1; if (fired) sim::count("fault.alloc");
    SIM_CHECK(oom == fired && user == w.thrown, "swallowed", "a failure while building was not reported to the caller");
    sim::check_heap(); SIM_CHECK(sim::live_blocks() == live, "leak", "%ld blocks are lost after a failed construction", (long) (sim::live_blocks() - live));
    sim::Pause p; w.asked.clear(); w.asked_acc.clear();
}
template<typename T, typename W, bool SHORTEST> static void solve(const Prob& p) {
    World w{p, {}, {}, {}, {}};
    { sim::Pause pause; size_t n = 0; std::vector<size_t> nums; bool sparse = sim::chance(1, 3, "sparse"); for (int q = 0; q < p.I.ns; q++) { if (sparse) n += sim::choose(4, "gap"); nums.push_back(n++); } for (int i = p.I.ns; i > 1; i--) std::swap(nums[i - 1], nums[sim::choose(i, "perm")]); w.number = nums; for (int q = 0; q < p.I.ns; q++) w.back[nums[q]] = q; }
    auto a = model::solve(p.I); sim::count(a.reach ? "probe.reachable" : "probe.unreachable");
    std::unordered_set<T> labels; for (int l = 0; l < p.I.nl; l++) labels.insert(lab<T>(l));
    auto na = rx::nfa<T>(*p.ri, [](int l) { return lab<T>(l); }), nb = rx::nfa<T>(*p.rf, [](int l) { return lab<T>(l); }); na.compile(); nb.compile();
    T wild; if constexpr (std::is_same_v<T, std::string>) wild = "*"; else wild = T(1000);
    int kind = (int) sim::choose(W::is_weight ? 2 : 3, "factory");
    if (kind == 0) {
        auto make = [&] { Lazy<T, W> f(w, labels, wild); return f.compile(na, nb); };
        faulty(w, make);
        auto i = make();
        { sim::Pause pause; std::set<int> reach(p.initial.begin(), p.initial.end()); for (bool ch = true; ch;) { ch = false; for (auto& r : p.I.rules) if (reach.count(r.from) && reach.insert(r.to).second) ch = true; }
          for (int q = 0; q < p.I.ns; q++) { int n = w.asked.count(w.number[q]) ? w.asked[w.number[q]] : 0, m = w.asked_acc.count(w.number[q]) ? w.asked_acc[w.number[q]] : 0, want = (int) reach.count(q);
            SIM_CHECK(n == want, "asked", "the rules of state %zu are asked for %d times, expected %d", w.number[q], n, want); SIM_CHECK(m == want, "asked-accepting", "state %zu is tested for acceptance %d times, expected %d", w.number[q], m, want); }
          if ((int) reach.size() < p.I.ns) sim::count("probe.partial"); }
        using I = decltype(i); use<I>(std::move(i), [&](I& x) { check<T, W, SHORTEST>(w, x, a); });
    } else if (kind == 1) {
        constexpr auto TI = TraceInfoType::Single;
        auto make = [&] { Eager<T, W, TI> f(w, labels); return f.compile(na, nb); };
        faulty(w, make);
        auto i = make(); using I = decltype(i); use<I>(std::move(i), [&](I& x) { check<T, W, SHORTEST>(w, x, a); });
    } else if constexpr (!W::is_weight) {
        auto make = [&] { Identity<T> f(w, labels); return f.compile(na, nb); };
        faulty(w, make);
        auto i = make(); using I = decltype(i);
        use<I>(std::move(i), [&](I& x) { int e = (int) sim::choose(3, "engine"); bool r = e == 0 ? Solver::post_star_accepts<Trace_Type::None>(*x) : e == 1 ? Solver::pre_star_accepts<Trace_Type::None>(*x) : Solver::dual_search_accepts<Trace_Type::None>(*x); sim::ev("abstract", r, a.reach); SIM_CHECK(r == a.reach, "verdict-abstract", "the instance with identity abstraction says %s, the target is %s", r ? "reachable" : "unreachable", a.reach ? "reachable" : "unreachable"); sim::count("probe.abstract_instance"); });
    }
}
static void run() {
    sim::choose_environment();
    model::GenOpts o; o.scale = 30; o.max_states = 6; o.max_labels = 4; o.max_rules = 9; o.max_walk = 7;
    int k = (int) sim::choose(4, "weights"); o.wmode = k < 2 ? 0 : k == 2 ? 1 : 3;
    auto p = headers::gen(o);
    switch (k) {
        case 0: solve<int, weight<void>, false>(p); break;
        case 1: solve<std::string, weight<void>, false>(p); break;
        case 2: solve<int, weight<uint32_t>, true>(p); break;
        default: solve<std::string, weight<std::vector<uint32_t>>, true>(p); break;
    }
}
extern const sim::Property SIM_PROPERTY{"P15", run, nullptr};
