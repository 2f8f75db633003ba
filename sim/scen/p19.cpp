// Abstractions stay consistent: refinements separate everything they must and lose nothing, however they are combined;
// mappings between concrete and abstract values agree in both directions after any history of insertions, refinements and failures.
#include "model.h"
#include <pdaaal/cegar/Refinement.h>
#include <pdaaal/cegar/AbstractionMapping.h>
#include <pdaaal/cegar/AbstractionPDA.h>
#include <unordered_set>
#include <map>
#include <set>
using namespace pdaaal;
template<typename T> static T val(int i) { if constexpr (std::is_same_v<T, std::string>) return i % 3 == 0 ? "v" + std::to_string(i) : std::string((size_t) (i % 5), 'x') + std::to_string(i); else if constexpr (std::is_same_v<T, size_t>) return (size_t) i * 1000003u; else return (T) (i * 7 - 20); }
template<typename T> static std::string show(const std::vector<T>& v) { std::string s = "{"; for (auto& x : v) { if constexpr (std::is_same_v<T, std::string>) s += x + " "; else s += std::to_string(x) + " "; } return s + "}"; }
template<typename T> static std::string show_all(const std::vector<std::vector<T>>& v) { std::string s; for (auto& x : v) s += show(x); return s; }

// ---- combining splits --------------------------------------------------------------------------
template<typename T> struct Ref { std::set<T> all; std::set<std::pair<T, T>> apart; void add(const std::vector<T>& a, const std::vector<T>& b) { for (auto& x : a) { all.insert(x); for (auto& y : b) { all.insert(y); apart.insert({x, y}); } } } };
template<typename T> static void verify(const Refinement<T>& r, const Ref<T>& ref, const char* what, bool sorted) {
    sim::Pause p; std::map<T, size_t> in; size_t k = 0;
    for (auto& part : r.partitions()) {
        SIM_CHECK(!part.empty(), (std::string(what) + "-empty-part").c_str(), "a part of the refinement is empty: %s", show_all(r.partitions()).c_str());
        if (sorted) SIM_CHECK(std::is_sorted(part.begin(), part.end()), (std::string(what) + "-unsorted").c_str(), "a part of the refinement is not sorted: %s", show_all(r.partitions()).c_str());
        for (auto& x : part) SIM_CHECK(in.emplace(x, k).second, (std::string(what) + "-twice").c_str(), "an element occurs twice in the refinement: %s", show_all(r.partitions()).c_str());
        k++;
    }
    for (auto& x : ref.all) SIM_CHECK(in.count(x), (std::string(what) + "-lost").c_str(), "an element is missing from the refinement: %s", show_all(r.partitions()).c_str());
    SIM_CHECK(in.size() == ref.all.size(), (std::string(what) + "-invented").c_str(), "the refinement has elements nobody mentioned: %s", show_all(r.partitions()).c_str());
    for (auto& [x, y] : ref.apart) SIM_CHECK(in[x] != in[y], (std::string(what) + "-not-separated").c_str(), "two elements that must be separated share a part: %s", show_all(r.partitions()).c_str());
    sim::ev(what, k, in.size());
}
template<typename T> static std::pair<std::vector<T>, std::vector<T>> gen_split(int n) {       // two non-empty disjoint sets out of n values
    std::vector<T> a, b; int d = 2 + (int) sim::choose(5, "density");
    for (int i = 0; i < n; i++) { int c = (int) sim::choose(d, "side"); if (c == 1) a.push_back(val<T>(i)); else if (c == 2 || (d == 2 && c == 0)) b.push_back(val<T>(i)); }
    if (a.empty()) { T x = b.empty() ? val<T>(0) : b.back(); if (!b.empty()) b.pop_back(); a.push_back(x); }
    if (b.empty()) { for (int i = 0; i < n; i++) if (std::find(a.begin(), a.end(), val<T>(i)) == a.end()) { b.push_back(val<T>(i)); break; } }
    if (b.empty()) { b.push_back(a.back()); a.pop_back(); }
    if (sim::chance(1, 2, "shuffle")) std::reverse(a.begin(), a.end());
    if (sim::chance(1, 2, "swap")) std::swap(a, b);
    return {a, b};
}
template<typename T> static void combining() {
    int n = 2 + (int) sim::choose(9, "n"), k = 1 + (int) sim::choose(8, "splits"), ids = 1 + (int) sim::choose(3, "ids"); if (sim::chance(1, 24, "large")) { n = 12 + (int) sim::choose(60, "many"); k += 4; sim::count("probe.large"); } bool header = sim::chance(1, 2, "header");
    HeaderRefinement<T> h; std::optional<Refinement<T>> r; std::map<size_t, Ref<T>> refs;
    if (!header && sim::chance(1, 6, "start-empty")) r.emplace(7);
    bool oom_run = sim::chance(1, 4, "oom"); int oom_at = oom_run ? (int) sim::choose(k, "oom-at") : -1; int64_t live0 = sim::live_blocks();
    for (int i = 0; i < k; i++) {
        std::vector<T> a, b; size_t id = header ? sim::choose(ids, "id") * 5 : 7;
        { sim::Pause p; std::tie(a, b) = gen_split<T>(n); if (sim::verbose()) sim::note("split #%zu: %s | %s", id, show(a).c_str(), show(b).c_str()); refs[id].add(a, b); }
        std::vector<T> a2(a), b2(b);
        if (i == oom_at) {
            sim::arm_alloc_failure(1 + sim::choose(20, "kth")); bool oom = false;
            try { Refinement<T> s(std::move(a2), std::move(b2), id); if (header) h.combine(std::move(s)); else if (r) r->combine(std::move(s)); else r.emplace(std::move(s)); } catch (const std::bad_alloc&) { oom = true; }
            bool fired = sim::alloc_failure_fired(); sim::arm_alloc_failure(0);
            if (fired) { sim::count("fault.alloc"); sim::nontrivial(); }
            SIM_CHECK(oom == fired, "swallowed-bad_alloc", "a failed allocation was not reported");
            if (oom) { { sim::Pause p; std::vector<T>().swap(a); std::vector<T>().swap(b); refs.clear(); } std::vector<T>().swap(a2); std::vector<T>().swap(b2); h = HeaderRefinement<T>(); r.reset(); sim::check_heap(); SIM_CHECK(sim::live_blocks() == live0, "leak", "%ld blocks are lost after a failed combination", (long) (sim::live_blocks() - live0)); return; }
            continue;
        }
        Refinement<T> s(std::move(a2), std::move(b2), id);
        if (header) h.combine(std::move(s)); else if (r) r->combine(std::move(s)); else r.emplace(std::move(s));
        if (header) {
            SIM_CHECK(!h.empty() && h.refinements().size() == refs.size(), "header-count", "%zu refinements of %zu abstract labels", h.refinements().size(), refs.size());
            for (auto& x : h.refinements()) { SIM_CHECK(refs.count(x.abstract_id), "header-id", "a refinement of an abstract label nobody refined"); verify(x, refs[x.abstract_id], "combine", true); }
        } else { SIM_CHECK(!r->empty() && r->abstract_id == 7, "combine-id", "the refinement lost its identity"); verify(*r, refs[7], "combine", true); }
        if (i > 0) sim::count("probe.combined");
    }
    sim::nontrivial();
}
// ---- separating pairs --------------------------------------------------------------------------
template<typename A, typename B> static void pairs() {
    int na = 1 + (int) sim::choose(6, "na"), nb = 1 + (int) sim::choose(6, "nb"), more = 12; if (sim::chance(1, 24, "large")) { na += (int) sim::choose(40, "na+"); nb += (int) sim::choose(40, "nb+"); more = 60; sim::count("probe.large"); }
    std::vector<std::pair<A, B>> X, Y; std::vector<A> Yw;
    { sim::Pause p; std::set<std::pair<int, int>> xs, ys; std::set<int> wild; int kx = 1 + (int) sim::choose(more, "kx"), ky = (int) sim::choose(more + 1, "ky");
      for (int i = 0; i < kx; i++) xs.insert({(int) sim::choose(na, "a"), (int) sim::choose(nb, "b")});
      for (int i = 0; i < ky; i++) { std::pair<int, int> y{(int) sim::choose(na, "a"), (int) sim::choose(nb, "b")}; if (!xs.count(y)) ys.insert(y); }
      if (sim::chance(1, 3, "wild")) for (int a = 0; a < na; a++) { bool used = false; for (auto& x : xs) used |= x.first == a; if (!used && sim::chance(1, 2, "w")) wild.insert(a); }
      for (auto it = ys.begin(); it != ys.end();) if (wild.count(it->first)) it = ys.erase(it); else ++it;
      if (ys.empty() && wild.empty()) { wild.insert(na); }       // a state that is in no other set
      for (auto& x : xs) X.push_back({val<A>(x.first), val<B>(x.second)}); for (auto& y : ys) Y.push_back({val<A>(y.first), val<B>(y.second)}); for (int a : wild) Yw.push_back(val<A>(a)); std::sort(Yw.begin(), Yw.end());
      if (sim::chance(1, 2, "rev")) std::reverse(X.begin(), X.end()); if (sim::chance(1, 2, "rev")) std::reverse(Y.begin(), Y.end());
      if (sim::chance(1, 4, "dup")) X.push_back(X[sim::choose(X.size(), "which")]); }
    auto X0 = X, Y0 = Y; auto W0 = Yw; bool best = sim::chance(2, 3, "best");
    auto go = [&] { auto x = X; auto y = Y; auto w = Yw; return best ? make_refinement<refinement_option_t::best_refinement>(std::move(x), std::move(y), 3, 4, std::move(w)) : make_refinement<refinement_option_t::fast_refinement>(std::move(x), std::move(y), 3, 4, std::move(w)); };
    if (sim::chance(1, 4, "oom")) { int64_t live = sim::live_blocks(); sim::arm_alloc_failure(1 + sim::choose(120, "kth")); bool oom = false; try { go(); } catch (const std::bad_alloc&) { oom = true; } bool fired = sim::alloc_failure_fired(); sim::arm_alloc_failure(0); if (fired) { sim::count("fault.alloc"); sim::nontrivial(); } SIM_CHECK(oom == fired, "swallowed-bad_alloc", "a failed allocation was not reported"); sim::check_heap(); SIM_CHECK(sim::live_blocks() == live, "leak", "blocks are lost after a failed separation"); }
    auto [ra, rb] = go();
    sim::Pause p;
    SIM_CHECK(ra.abstract_id == 3 && rb.abstract_id == 4, "pair-id", "the refinements lost their identity");
    if (sim::verbose()) sim::note("parts of A: %s, parts of B: %s", show_all(ra.partitions()).c_str(), show_all(rb.partitions()).c_str());
    SIM_CHECK(ra.partitions().size() >= 2 || rb.partitions().size() >= 2, "pair-nothing", "nothing is separated");
    std::map<A, int> ia; std::map<B, int> ib; int k = 0; std::set<A> as; std::set<B> bs; for (auto& [a, b] : X0) { as.insert(a); bs.insert(b); } for (auto& [a, b] : Y0) { as.insert(a); bs.insert(b); } for (auto& a : W0) as.insert(a);
    for (auto& part : ra.partitions()) { SIM_CHECK(!part.empty(), "pair-empty-part", "a part is empty"); for (auto& x : part) { SIM_CHECK(as.count(x) && ia.emplace(x, k).second, "pair-parts", "an element occurs twice or was not mentioned"); } k++; }
    for (auto& part : rb.partitions()) { SIM_CHECK(!part.empty(), "pair-empty-part", "a part is empty"); for (auto& x : part) { SIM_CHECK(bs.count(x) && ib.emplace(x, k).second, "pair-parts", "an element occurs twice or was not mentioned"); } k++; }
    auto apart = [](auto& m, auto& x, auto& y) { auto i = m.find(x), j = m.find(y); return i != m.end() && j != m.end() && i->second != j->second; };
    if (best) {
        for (auto& x : X0) { for (auto& y : Y0) SIM_CHECK(apart(ia, x.first, y.first) || apart(ib, x.second, y.second), "pair-not-separated", "a good and a bad pair are not told apart by the refinement"); for (auto& a : W0) SIM_CHECK(apart(ia, x.first, a), "wildcard-not-separated", "a state with a wildcard rule is not told apart"); }
    } else {       // at least one good pair is told apart from one bad one
        bool any = false; for (auto& x : X0) { for (auto& y : Y0) any |= apart(ia, x.first, y.first) || apart(ib, x.second, y.second); for (auto& a : W0) any |= apart(ia, x.first, a); }
        SIM_CHECK(any, "pair-no-progress", "no good pair is told apart from a bad one");
    }
    sim::ev("pairs", ra.partitions().size(), rb.partitions().size()); sim::count("probe.separated"); sim::nontrivial();
}
// ---- mappings ----------------------------------------------------------------------------------
struct FnError {};
template<typename C, typename A> static void mapping() {
    int n = 2 + (int) sim::choose(9, "n"), classes = 1 + (int) sim::choose(4, "classes"); bool large = sim::chance(1, 24, "large"); if (large) { n = 12 + (int) sim::choose(60, "many"); classes += (int) sim::choose(20, "more"); sim::count("probe.large"); } std::vector<int> cls; { sim::Pause p; for (int i = 0; i < n; i++) cls.push_back((int) sim::choose(classes, "c")); }
    static int throw_at, calls; throw_at = -1; calls = 0;
    std::map<C, int> index; { sim::Pause p; for (int i = 0; i < n; i++) index[val<C>(i)] = i; }
    std::map<C, int>* ix = &index; std::vector<int>* cl = &cls;
    std::function<A(const C&)> fn = [ix, cl](const C& c) -> A { ++calls; if (calls == throw_at) { sim::count("fault.callback_throw"); sim::nontrivial(); throw FnError(); } sim::Pause p; int k = (*cl)[ix->at(c)]; sim::Unpause u; return val<A>(k); };
    AbstractionMapping<C, A> m{std::function<A(const C&)>(fn)};
    std::map<int, size_t> id_of; std::map<int, bool> present; std::vector<int> order;      // class -> id; element -> inserted
    bool dirty = false;      // an insertion failed: sizes are only defined again after it has been repeated
    auto check = [&] {
        for (int i = 0; i < n; i++) {
            auto [f, id] = m.exists(val<C>(i)); bool want = present.count(i) > 0;
            SIM_CHECK(f == want, "exists", "value %d is %s the mapping", i, f ? "unexpectedly in" : "missing from");
            if (f) SIM_CHECK(id == id_of[cls[i]], "exists-id", "value %d maps to abstract value %zu, expected %zu", i, id, id_of[cls[i]]);
            auto [g, jd] = m.exists(val<C>(i), true); SIM_CHECK(g == (id_of.count(cls[i]) > 0) || dirty, "exists-abstract", "the abstract value of %d is %s", i, g ? "unexpectedly there" : "missing"); if (g && id_of.count(cls[i])) SIM_CHECK(jd == id_of[cls[i]], "exists-abstract-id", "wrong abstract value of %d", i);
        }
        if (!dirty) SIM_CHECK(m.size() == id_of.size(), "size", "%zu abstract values, expected %zu", m.size(), id_of.size());
        for (auto& [k, id] : id_of) {
            SIM_CHECK(m.get_abstract_value(id) == val<A>(k), "abstract-value", "abstract value %zu is not the one inserted", id);
            sim::Pause p; std::multiset<C> want, got, got2; for (auto& [i, b] : present) if (cls[i] == k) want.insert(val<C>(i));
            { sim::Unpause u; auto v = m.get_concrete_values(val<A>(k)); sim::Pause q; for (auto& x : v) got.insert(x); }
            { sim::Unpause u; auto rg = m.get_concrete_values_range(val<A>(k)); for (auto&& x : rg) { C c = x; sim::Pause q; got2.insert(c); } }
            SIM_CHECK(got == want, "concrete-values", "abstract value %d stands for %zu values, expected %zu", k, got.size(), want.size()); SIM_CHECK(got2 == want, "concrete-range", "the range of abstract value %d has %zu values, expected %zu", k, got2.size(), want.size());
        }
    };
    int ops = 1 + (int) sim::choose(20, "ops") + (large ? n : 0); bool faults = sim::chance(1, 2, "faults");
    for (int k = 0; k < ops; k++) {
        int i = (int) sim::choose(n, "value"); bool ignore = sim::chance(1, 6, "ignore"); int what = (int) sim::choose(8, "op");
        if (what == 7) { int c = (int) sim::choose(classes, "class"); auto [fresh, id] = m.insert_abstract(val<A>(c)); sim::Pause p; if (!dirty) SIM_CHECK(fresh == !id_of.count(c), "insert-abstract", "abstract value %d reported as %s", c, fresh ? "new" : "known"); if (id_of.count(c)) SIM_CHECK(id == id_of[c], "insert-abstract-id", "abstract value %d changed its number", c); id_of[c] = id; continue; }
        if (faults && sim::chance(1, 4, "fail")) {
            bool fail = false; if (sim::chance(1, 2, "oom")) sim::arm_alloc_failure(1 + sim::choose(8, "kth")); else throw_at = calls + 1;
            std::pair<bool, size_t> r{}; try { r = m.insert(val<C>(i), ignore); } catch (const std::bad_alloc&) { fail = true; } catch (const FnError&) { fail = true; }
            if (sim::alloc_failure_fired()) sim::count("fault.alloc"); sim::arm_alloc_failure(0); throw_at = -1;
            if (fail) { sim::nontrivial(); sim::note("insert of %d failed", i); sim::Unpause u; dirty = true; check(); 
                auto [fresh, id] = m.insert(val<C>(i), ignore); (void) fresh; sim::Pause p; int c = cls[i]; if (id_of.count(c)) SIM_CHECK(id == id_of[c], "retry-id", "after a failed insertion, value %d is given abstract value %zu, expected %zu", i, id, id_of[c]); else { for (auto& [c2, id2] : id_of) SIM_CHECK(id2 != id, "retry-clash", "after a failed insertion, value %d of class %d is given the abstract value of class %d", i, c, c2); id_of[c] = id; } if (!ignore) present[i] = true; dirty = false; continue; }
            sim::Pause p; if (id_of.count(cls[i])) SIM_CHECK(r.second == id_of[cls[i]], "insert-id", "value %d is given a wrong abstract value", i); id_of[cls[i]] = r.second; if (!ignore) present[i] = true; continue;
        }
        auto [fresh, id] = m.insert(val<C>(i), ignore);
        sim::Pause p; int c = cls[i]; if (sim::verbose()) sim::note("insert %d class %d%s -> %d %zu", i, c, ignore ? " (abstract only)" : "", fresh, id);
        SIM_CHECK(fresh == !id_of.count(c), "insert-fresh", "inserting value %d of class %d reports a %s abstract value", i, c, fresh ? "new" : "known");
        if (!fresh) SIM_CHECK(id == id_of[c], "insert-id", "value %d is given abstract value %zu, expected %zu", i, id, id_of[c]); else SIM_CHECK(id == id_of.size(), "insert-consecutive", "the new abstract value is number %zu, expected %zu", id, id_of.size());
        id_of[c] = id; if (!ignore) present[i] = true;
        sim::ev("insert", i, fresh, id);
    }
    check(); sim::nontrivial();
    // every abstract value must stand for something before refinement starts
    for (auto& [c, id] : id_of) { bool any = false; for (auto& [i, b] : present) any |= cls[i] == c; if (!any) { int j = -1; for (int i = 0; i < n; i++) if (cls[i] == c) j = i; if (j < 0) return; m.insert(val<C>(j)); sim::Pause p; present[j] = true; } }
    RefinementMapping<C> r(std::move(m));
    std::map<int, size_t> at; { sim::Pause p; for (auto& [i, b] : present) at[i] = id_of[cls[i]]; }
    size_t ids = id_of.size();
    auto check2 = [&] {
        SIM_CHECK(r.size() == ids, "refined-size", "%zu abstract values, expected %zu", r.size(), ids);
        sim::Pause p; std::map<size_t, std::multiset<C>> want; for (auto& [i, a] : at) want[a].insert(val<C>(i));
        for (size_t a = 0; a < ids; a++) { std::multiset<C> got, got2; { sim::Unpause u; for (auto& x : r.get_concrete_values(a)) { sim::Pause q; got.insert(x); } for (auto&& x : r.get_concrete_values_range(a)) { C c = x; sim::Pause q; got2.insert(c); } } SIM_CHECK(!got.empty(), "refined-empty", "abstract value %zu stands for nothing", a); SIM_CHECK(got == want[a], "refined-values", "abstract value %zu stands for other values than expected", a); SIM_CHECK(got2 == want[a], "refined-range", "the range of abstract value %zu differs", a); }
        for (int i = 0; i < n; i++) { auto [f, id] = r.exists(val<C>(i)); SIM_CHECK(f == (at.count(i) > 0), "refined-exists", "value %d is %s", i, f ? "invented" : "lost"); if (f) SIM_CHECK(id == at[i], "refined-exists-id", "value %d maps to %zu, expected %zu", i, id, at[i]); for (size_t a = 0; a <= ids; a++) SIM_CHECK(r.maps_to(val<C>(i), a) == (f && at[i] == a), "maps_to", "maps_to(%d,%zu) is wrong", i, a); }
        std::vector<C> some; std::set<size_t> ws; for (auto& [i, a] : at) if (sim::chance(1, 2, "enc")) { some.push_back(val<C>(i)); ws.insert(a); } std::vector<size_t> e; { sim::Unpause u; e = r.encode_many(some); } SIM_CHECK(e == std::vector<size_t>(ws.begin(), ws.end()), "encode_many", "encode_many gives a wrong set of abstract values");
        SIM_CHECK(r.get_concrete_values(ids + 3).empty(), "unknown-abstract", "an unknown abstract value stands for something");
    };
    check2();
    int rounds = (int) sim::choose(7, "rounds");
    for (int k = 0; k < rounds && !at.empty(); k++) {
        size_t a = sim::choose(ids, "which"); std::vector<int> mem; std::vector<std::vector<int>> parts; int np = 1 + (int) sim::choose(4, "parts");
        { sim::Pause p; for (auto& [i, b] : at) if (b == a) mem.push_back(i); parts.resize(np); for (int i : mem) { int c = (int) sim::choose(np + 1, "part"); if (c < np) parts[c].push_back(i); } parts.erase(std::remove_if(parts.begin(), parts.end(), [](auto& x) { return x.empty(); }), parts.end()); }
        Refinement<C> ref(a); for (auto& x : parts) { ref.partitions().emplace_back(); for (int i : x) ref.partitions().back().push_back(val<C>(i)); }
        size_t np2 = parts.size(); r.refine(ref);
        if (np2 >= 2) {       // one part stays with the unmentioned values, the others get new numbers, in any order
            sim::count("probe.refined"); sim::Pause p; int stays = 0; std::set<size_t> fresh;
            for (auto& x : parts) { auto [f, id] = r.exists(val<C>(x[0])); SIM_CHECK(f, "refine-lost", "a refined value is lost"); if (id == a) stays++; else { SIM_CHECK(id >= ids && id < ids + np2 - 1, "refine-id", "a refined part got number %zu", id); SIM_CHECK(fresh.insert(id).second, "refine-shared", "two parts share an abstract value"); } for (int i : x) at[i] = id; }
            SIM_CHECK(stays == 1, "refine-stays", "%d parts keep the old abstract value, expected one", stays); ids += np2 - 1;
        }
        sim::ev("refine", a, np2); check2();
    }
}
// ---- abstract systems: the label abstraction of an AbstractionPDA through refinements of rules and of headers ----
template<typename C> static void abstract_system() {
    int n = 2 + (int) sim::choose(9, "n"), classes = 1 + (int) sim::choose(4, "classes"); std::vector<int> cls; std::map<C, int> index; std::unordered_set<C> all;
    { sim::Pause p; if (sim::chance(1, 24, "large")) n += (int) sim::choose(60, "many"); for (int i = 0; i < n; i++) { cls.push_back((int) sim::choose(classes, "c")); index[val<C>(i)] = i; } }
    for (int i = 0; i < n; i++) all.insert(val<C>(i));
    using APDA = AbstractionPDA<C, weight<void>>; auto* ix = &index; auto* cl = &cls;
    APDA a(all, std::function<int(const C&)>([ix, cl](const C& c) { return (*cl)[ix->at(c)]; }));
    std::vector<size_t> at(n); size_t ids = 0;
    auto read = [&] { for (int i = 0; i < n; i++) { auto [f, id] = a.abstract_label(val<C>(i)); SIM_CHECK(f, "system-lost", "label %d is not in the abstraction", i); SIM_CHECK(id < a.number_of_labels(), "system-range", "label %d is abstracted to %zu of %zu", i, id, a.number_of_labels()); at[i] = id; } ids = a.number_of_labels(); };
    auto check = [&](const char* how) {
        for (size_t k = 0; k < ids; k++) {
            std::multiset<C> want, got, got2; { sim::Pause p; for (int i = 0; i < n; i++) if (at[i] == k) want.insert(val<C>(i)); }
            for (auto& x : a.get_concrete_labels(k)) got.insert(x); for (auto&& x : a.get_concrete_labels_range(k)) got2.insert(C(x));
            SIM_CHECK(!want.empty() && got == want && got2 == want, "system-values", "%s: abstract label %zu does not stand for its labels", how, k);
            for (int i = 0; i < n; i++) SIM_CHECK(a.maps_to(val<C>(i), k) == (at[i] == k), "system-maps-to", "%s: maps_to(%d,%zu) is wrong", how, i, k);
        }
        std::vector<C> some; std::set<uint32_t> touched, whole; { sim::Pause p; std::vector<char> in(n); for (int i = 0; i < n; i++) if ((in[i] = sim::chance(2, 3, "in"))) { some.push_back(val<C>(i)); touched.insert((uint32_t) at[i]); } std::sort(some.begin(), some.end()); whole = touched; for (int i = 0; i < n; i++) if (!in[i]) whole.erase((uint32_t) at[i]); }
        SIM_CHECK(a.encode_labels(some, false) == std::vector<uint32_t>(touched.begin(), touched.end()), "system-encode", "%s: a set of labels has a wrong abstraction", how);
        SIM_CHECK(a.encode_labels(some, true) == std::vector<uint32_t>(whole.begin(), whole.end()), "system-encode-negated", "%s: the complement of a set of labels has a wrong abstraction", how);       // only labels that are excluded altogether may be excluded
    };
    read(); { sim::Pause p; std::map<int, std::set<size_t>> m; for (int i = 0; i < n; i++) m[cls[i]].insert(at[i]); SIM_CHECK(m.size() == ids, "system-classes", "%zu abstract labels, expected %zu", ids, m.size()); for (auto& [c, s] : m) SIM_CHECK(s.size() == 1, "system-classes", "one class has several abstract labels"); }
    check("start");
    int rounds = 1 + (int) sim::choose(4, "rounds");
    for (int r = 0; r < rounds; r++) {
        bool header = sim::chance(2, 3, "header"); auto before = at; size_t was = ids; HeaderRefinement<C> h; std::set<std::pair<int, int>> apart; std::optional<Refinement<C>> one;
        int k = header ? 1 + (int) sim::choose(4, "splits") : 1;
        for (int j = 0; j < k; j++) {
            size_t id = sim::choose(ids, "which"); std::vector<int> x, y; { sim::Pause p; for (int i = 0; i < n; i++) if (before[i] == id) { int c = (int) sim::choose(3, "side"); if (c == 0) x.push_back(i); else if (c == 1) y.push_back(i); } }
            if (x.empty() || y.empty()) continue;
            std::vector<C> cx, cy; for (int i : x) cx.push_back(val<C>(i)); for (int i : y) cy.push_back(val<C>(i)); for (int i : x) for (int l : y) apart.insert({i, l});
            Refinement<C> f(std::move(cx), std::move(cy), id); if (header) h.combine(std::move(f)); else one.emplace(std::move(f));
        }
        if (header) a.refine(h); else if (one) a.refine(*one);
        read(); sim::Pause p;
        for (auto& [x, y] : apart) SIM_CHECK(at[x] != at[y], "system-not-separated", "labels %d and %d are not told apart after a refinement that separates them", x, y);
        for (int i = 0; i < n; i++) for (int l = 0; l < n; l++) if (before[i] != before[l]) SIM_CHECK(at[i] != at[l], "system-merged", "labels %d and %d were told apart before a refinement, but not after it", i, l);
        if (apart.empty()) SIM_CHECK(ids == was && at == before, "system-changed", "an empty refinement changed the abstraction"); else { sim::count("probe.system_refined"); sim::nontrivial(); }
        sim::ev("system", ids, apart.size()); sim::Unpause u; check("refined");
    }
    if (sim::chance(1, 2, "convert")) { auto before = at; AbstractionPDA<C, weight<void>> b(a.move_label_map()); a = std::move(b); read(); SIM_CHECK(at == before, "system-moved", "an abstraction handed to another system changed"); check("moved"); }
}
static void run() {
    sim::choose_environment();
    switch (sim::choose(11, "kind")) {
        case 0: combining<int>(); break; case 1: combining<std::string>(); break; case 2: combining<size_t>(); break;
        case 3: pairs<int, int>(); break; case 4: pairs<size_t, std::string>(); break; case 5: pairs<std::string, size_t>(); break;
        case 6: mapping<int, int>(); break; case 7: mapping<std::string, size_t>(); break; case 9: abstract_system<int>(); break; case 10: abstract_system<std::string>(); break; default: mapping<size_t, std::string>(); break;
    }
}
extern const sim::Property SIM_PROPERTY{"P19", run, nullptr};
