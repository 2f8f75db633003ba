// Containers behave like mathematical sets, maps, priority queues and paths for every operation history,
// hash seed and heap layout, and an allocation that fails inside an operation never damages other elements.
#include "sim.h"
#include <pdaaal/utils/fut_set.h>
#include <pdaaal/utils/more_algorithms.h>
#include <pdaaal/utils/ptrie_interface.h>
#include <pdaaal/AutomatonPath.h>
#include <array>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <unordered_set>
using namespace pdaaal;
using fut::type;
using Key = std::array<int, 3>;

static std::string S(int v) { return "value-that-does-not-fit-in-the-small-buffer-" + std::to_string(v + 100); }
static int U(const std::string& s) { sim::Pause p; auto i = s.rfind('-'); int v = i == std::string::npos ? 0 : atoi(s.c_str() + i + 1) - 100; SIM_CHECK(S(v) == s, "value-garbled", "a stored value is garbled"); return v; }

// ---- adaptors: K is (a,b,c) with unused components zero, V an int ------------------------------
template<typename E> static E kk(int x) { if constexpr (std::is_same_v<E, int>) return x; else return S(x); }
template<typename E> static int uk(const E& x) { if constexpr (std::is_same_v<E, int>) return x; else return U(x); }
// Calls f with the key as an lvalue (which must not change) or as an rvalue.
template<typename E, typename F> static auto with(int x, F f) { E k = kk<E>(x); if (sim::chance(1, 2, "rvalue")) return f(std::move(k)); auto r = f((const E&) k); SIM_CHECK(k == kk<E>(x), "argument-changed", "an operation changed its argument"); return r; }
template<typename A, typename B, typename D, type C1, type C2, type C3> struct Set3 {
    static constexpr bool is_map = false; static constexpr int arity = 3;
    fut::set<std::tuple<A, B, D>, C1, C2, C3> c;
    template<typename F> bool put(Key k, F f) {
        return with<A>(k[0], [&](auto&& a) { return with<B>(k[1], [&](auto&& b) { return with<D>(k[2], [&](auto&& d) {
            auto [it, fresh] = f(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b), std::forward<decltype(d)>(d)); SIM_CHECK(uk<D>(*it) == k[2], "returned-position", "the returned position is not that of the element"); return fresh; }); }); });
    }
    bool insert(Key k, int) { return put(k, [&](auto&& a, auto&& b, auto&& d) { return c.emplace(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b), std::forward<decltype(d)>(d)); }); }
    bool assign(Key k, int) { return put(k, [&](auto&& a, auto&& b, auto&& d) { return c.insert_or_assign(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b), std::forward<decltype(d)>(d)); }); }
    bool has(Key k) const { return c.contains(kk<A>(k[0]), kk<B>(k[1]), kk<D>(k[2])); }
    std::optional<int> get(Key k) const { if (has(k)) return 0; return {}; }
    void dump(std::map<Key, int>& m) const {
        size_t n = 0; for (auto& [a, x] : c) { n++; SIM_CHECK(c.find(a) != c.end() && c.find(a)->first == a, "find", "an iterated key is not found"); for (auto& [b, y] : x) { SIM_CHECK(x.find(b) != x.end(), "find", "an iterated key is not found"); for (auto& z : y) m[{uk<A>(a), uk<B>(b), uk<D>(z)}]++; } }
        SIM_CHECK(n == c.size() && c.empty() == (n == 0), "size", "size() is %zu, but %zu elements are iterated", c.size(), n);
    }
    void clear() { c.clear(); }
};
template<typename A, typename B, type C1, type C2> struct Map2 {
    static constexpr bool is_map = true; static constexpr int arity = 2;
    fut::set<std::tuple<A, B, std::string>, C1, C2> c;
    template<typename F> bool put(Key k, F f) {
        return with<A>(k[0], [&](auto&& a) { return with<B>(k[1], [&](auto&& b) { auto [it, fresh] = f(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b)); SIM_CHECK(uk<B>(it->first) == k[1], "returned-position", "the returned position is not that of the key"); return fresh; }); });
    }
    bool insert(Key k, int v) { return put(k, [&](auto&& a, auto&& b) { return c.emplace(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b), S(v)); }); }
    bool assign(Key k, int v) { return put(k, [&](auto&& a, auto&& b) { return c.insert_or_assign(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b), S(v)); }); }
    bool has(Key k) const { return c.contains(kk<A>(k[0]), kk<B>(k[1])); }
    std::optional<int> get(Key k) const { auto p = c.get(kk<A>(k[0]), kk<B>(k[1])); auto q = const_cast<Map2*>(this)->c.get(kk<A>(k[0]), kk<B>(k[1])); SIM_CHECK(p == q, "get", "get() differs between constant and changeable containers"); if (!p) return {}; return U(*p); }
    bool set_via_get(Key k, int v) { auto p = c.get(kk<A>(k[0]), kk<B>(k[1])); if (!p) return false; *p = S(v); return true; }
    void dump(std::map<Key, int>& m) const {
        size_t n = 0; for (auto& [a, x] : c) { n++; for (auto& [b, v] : x) { int ia = uk<A>(a), ib = uk<B>(b); SIM_CHECK(!m.count({ia, ib, 0}), "duplicate-key", "key (%d,%d) is stored twice", ia, ib); m[{ia, ib, 0}] = U(v); } }
        SIM_CHECK(n == c.size() && c.empty() == (n == 0), "size", "size() is %zu, but %zu elements are iterated", c.size(), n);
    }
    void clear() { c.clear(); }
};
template<typename A, type C> struct Map1 {
    static constexpr bool is_map = true; static constexpr int arity = 1;
    using K = A;
    fut::set<std::tuple<A, std::string>, C> c;
    template<typename F> bool put(Key k, int v, bool sets, F f) { return with<A>(k[0], [&](auto&& a) { auto [it, fresh] = f(std::forward<decltype(a)>(a)); SIM_CHECK(uk<A>(it->first) == k[0] && (!(fresh || sets) || U(it->second) == v), "returned-position", "the returned position is not that of the key"); return fresh; }); }
    bool insert(Key k, int v) {
        if (sim::chance(1, 3, "try")) return put(k, v, false, [&](auto&& a) { return c.try_emplace(std::forward<decltype(a)>(a), S(v)); });
        return put(k, v, false, [&](auto&& a) { return c.emplace(std::forward<decltype(a)>(a), S(v)); });
    }
    bool assign(Key k, int v) { return put(k, v, true, [&](auto&& a) { return c.insert_or_assign(std::forward<decltype(a)>(a), S(v)); }); }
    bool has(Key k) const { return c.contains(kk<A>(k[0])); }
    std::optional<int> get(Key k) const {
        auto p = c.get(kk<A>(k[0])); auto& mut = const_cast<Map1*>(this)->c; auto it = c.find(kk<A>(k[0])); auto jt = mut.find(kk<A>(k[0]));
        SIM_CHECK(p == mut.get(kk<A>(k[0])) && (it == c.end()) == !p && (jt == mut.end()) == !p && (!p || (&it->second == p && &jt->second == p)), "get", "get() and find() disagree about key %d", k[0]);
        if (!p) return {}; return U(*p);
    }
    bool set_via_get(Key k, int v) { auto it = c.find(kk<A>(k[0])); if (it == c.end()) return false; it->second = S(v); return true; }
    void dump(std::map<Key, int>& m) const {
        int n = 0; const A* last = nullptr;
        for (auto& [a, v] : c) { int ia = uk<A>(a); SIM_CHECK(!m.count({ia, 0, 0}), "duplicate-key", "key %d is stored twice", ia); m[{ia, 0, 0}] = U(v); n++; if (C == type::vector) { SIM_CHECK(!last || *last < a, "unsorted", "key %d is out of order", ia); last = &a; } }
        SIM_CHECK((size_t) n == c.size() && c.empty() == (n == 0), "size", "size() is %zu, but %d elements are iterated", c.size(), n);
        if constexpr (C == type::vector) { for (int i = 0; i < n; i++) SIM_CHECK(&(c.begin() + i)->first == &c[i].first, "index", "element %d is not the one iterated there", i); SIM_CHECK(c.cend() - c.cbegin() == n, "size", "cbegin() to cend() is not %d elements", n); }
    }
    void clear() { c.clear(); }
    void truncate(size_t n) requires (C == type::vector) { c.resize(n); }
    size_t lower(int k) const requires (C == type::vector) { return c.lower_bound(kk<A>(k)) - c.begin(); }
    void convert() {
        if constexpr (C == type::hash) {
            bool mv = sim::chance(1, 2, "move");
            if (mv) { fut::set<std::tuple<A, std::string>, type::hash> h(c); fut::set<std::tuple<A, std::string>, type::vector> v(std::move(h)); check(v); }
            else { fut::set<std::tuple<A, std::string>, type::vector> v(c); check(v); }
        } else { auto d = c; if (sim::chance(1, 2, "swap")) std::swap(c, d); }
    }
    template<typename V> void check(const V& v) {
        sim::Pause p; sim::count("probe.hash_to_vector");
        SIM_CHECK(v.size() == c.size(), "convert-size", "conversion kept %zu of %zu elements", v.size(), c.size());
        const A* last = nullptr;
        for (auto& [a, s] : v) { SIM_CHECK(!last || *last < a, "convert-order", "conversion is not sorted"); last = &a; auto q = c.get(a); SIM_CHECK(q && *q == s, "convert-value", "conversion changed the value of key %d", uk<A>(a)); auto g = v.get(a); SIM_CHECK(g && *g == s, "convert-lookup", "key %d is not found after conversion", uk<A>(a)); }
    }
};
template<typename E> struct VSet {
    static constexpr bool is_map = false; static constexpr int arity = 1;
    fut::vector_set<E> c;
    using K = E;
    static E e(int x) { return kk<E>(x); }
    static int u(const E& x) { return uk<E>(x); }
    bool insert(Key k, int) { return with<E>(k[0], [&](auto&& a) { auto [it, fresh] = c.emplace(std::forward<decltype(a)>(a)); SIM_CHECK(u(*it) == k[0], "returned-position", "the returned position is not that of the element"); return fresh; }); }
    bool has(Key k) const { return c.contains(e(k[0])); }
    std::optional<int> get(Key k) const { auto it = c.find(e(k[0])); auto& mut = const_cast<VSet*>(this)->c; auto jt = mut.find(e(k[0])); SIM_CHECK(it - c.begin() == jt - mut.begin(), "find-wrong", "find(%d) differs between constant and changeable sets", k[0]); if (it == c.end()) return {}; SIM_CHECK(u(*it) == k[0], "find-wrong", "find(%d) returned %d", k[0], u(*it)); return 0; }
    void dump(std::map<Key, int>& m) const {
        for (auto& x : c) m[{u(x), 0, 0}]++;
        SIM_CHECK(m.size() == c.size() && c.empty() == m.empty(), "size", "size() is %zu, but %zu elements are iterated", c.size(), m.size());
        SIM_CHECK(std::is_sorted(c.begin(), c.end()), "unsorted", "the elements are not sorted");
        for (size_t i = 0; i < c.size(); i++) SIM_CHECK(&c[i] == &*(c.begin() + i), "index", "element %zu is not the one iterated there", i);
    }
    void convert() {
        std::unordered_set<E> h; for (auto& x : c) h.insert(x); fut::vector_set<E> v(h); fut::vector_set<E> w(std::move(h)); sim::Pause p;
        for (auto* q : {&v, &w}) { SIM_CHECK(q->size() == c.size() && std::equal(c.begin(), c.end(), q->begin()), "convert-value", "conversion from a hash set lost or misplaced elements"); }
        sim::count("probe.hash_to_vector");
    }
    void clear() { c.clear(); }
    void truncate(size_t n) { c.resize(n); }
    int at(size_t i) const { return u(c[i]); }
    // index of the first element not less than k
    size_t lower(int k) const { return c.lower_bound(e(k)) - c.begin(); }
};
template<typename C> static bool less(const Key& a, const Key& b) { if constexpr (requires { typename C::K; }) return kk<typename C::K>(a[0]) < kk<typename C::K>(b[0]); else return a < b; }
template<typename C> static void ops(const char* name) {
    C c; std::map<Key, int> m;
    int n = 3 + (int) sim::choose(30, "nops"), dom = 2 + (int) sim::choose(5, "dom"); bool large = sim::chance(1, 24, "large"); if (large) { n = 60 + (int) sim::choose(340, "many"); dom = 20 + (int) sim::choose(150, "wide"); sim::count("probe.large"); } bool faulty = sim::chance(1, 3, "faulty");
    sim::ev(name, n, dom, faulty);
    if (faulty || std::string(name).find('h') != std::string::npos) sim::nontrivial();      // faults, or an order decided by the hash seed
    for (int i = 0; i < n; i++) {
        Key k{}; { for (int j = 0; j < C::arity; j++) k[j] = (int) sim::choose(dom, "key") - 1; }
        int v = (int) sim::choose(50, "val"); int op = (int) sim::choose(10, "op"); if (large && op >= 8 && !sim::chance(1, 12, "shrink")) op = 0;
        bool arm = faulty && sim::chance(1, 3, "arm");
        if (sim::verbose()) sim::note("%s op %d key (%d,%d,%d) value %d%s", name, op, k[0], k[1], k[2], v, arm ? " [allocation fault armed]" : "");
        auto old = m.find(k) == m.end() ? std::optional<int>() : std::optional<int>(m[k]);
        std::optional<int> fresh = old;
        if (arm) sim::arm_alloc_failure(1 + sim::choose(6, "kth"));
        bool oom = false; bool r = false, want = false;
        try {
            if (op < 5) { fresh = old ? old : std::optional<int>(C::is_map ? v : 1); want = !old; r = c.insert(k, v); }
            else if (op < 7) { if constexpr (requires { c.assign(k, v); }) { fresh = C::is_map ? v : 1; want = !old; r = c.assign(k, v); } }
            else if (op == 7) { if constexpr (requires { c.set_via_get(k, v); }) { if (old) fresh = v; want = (bool) old; r = c.set_via_get(k, v); } }
            else if (op == 8) { if constexpr (requires { c.truncate(0); }) { size_t to = sim::choose(m.size() + 1, "to"); c.truncate(to); sim::Pause p; std::vector<Key> ks; for (auto& [x, y] : m) ks.push_back(x);
                    std::sort(ks.begin(), ks.end(), [](auto& a, auto& b) { return less<C>(a, b); }); for (size_t j = to; j < ks.size(); j++) m.erase(ks[j]); fresh = m.count(k) ? std::optional<int>(m[k]) : std::nullopt; } }
            else { if (sim::chance(1, 6, "clear")) { c.clear(); m.clear(); fresh = {}; } else if constexpr (requires { c.convert(); }) c.convert(); else { C d = c; std::swap(c, d); if (sim::chance(1, 2, "mv")) { C e(std::move(d)); c = std::move(e); } } }
        } catch (const std::bad_alloc&) { oom = true; }
        bool fired = sim::alloc_failure_fired(); sim::arm_alloc_failure(0);
        sim::Pause p;
        sim::ev("op", op, r, oom, k[0]);
        if (oom) { SIM_CHECK(fired, "spurious-bad_alloc", "bad_alloc without a failing allocation"); sim::count("fault.alloc"); }
        else { SIM_CHECK(r == want, "result", "%s: operation %d on (%d,%d,%d) returned %d, expected %d", name, op, k[0], k[1], k[2], r, want); if (fresh) m[k] = *fresh; else m.erase(k); }
        auto got = c.get(k);
        if (oom) {      // the failing operation may or may not have taken effect
            auto norm = [](std::optional<int> x) { return C::is_map || !x ? x : std::optional<int>(0); };
            SIM_CHECK(got == norm(old) || got == norm(fresh), "torn-operation", "%s: after a failed allocation key (%d,%d,%d) holds neither the old nor the new value", name, k[0], k[1], k[2]);
            if (got) m[k] = C::is_map ? *got : 1; else m.erase(k);
        }
        std::map<Key, int> d; if (!large || i % 32 == 31 || i == n - 1 || oom) c.dump(d); else d = m;
        SIM_CHECK(d == m, "content", "%s: after operation %d the content differs from the reference (%zu elements, expected %zu)", name, i, d.size(), m.size());
        Key q{}; for (int j = 0; j < C::arity; j++) q[j] = (int) sim::choose(dom, "probe") - 1;
        for (Key x : {k, q}) {
            SIM_CHECK(c.has(x) == (m.count(x) > 0), "contains", "%s: contains(%d,%d,%d) is %d", name, x[0], x[1], x[2], c.has(x));
            auto g = c.get(x); SIM_CHECK((bool) g == (m.count(x) > 0) && (!g || !C::is_map || *g == m[x]), "lookup", "%s: lookup of (%d,%d,%d) is wrong", name, x[0], x[1], x[2]);
        }
        if constexpr (requires { c.lower(0); }) { size_t lb = 0; for (auto& [x, y] : m) if (less<C>(x, q)) lb++; SIM_CHECK(c.lower(q[0]) == lb, "lower_bound", "%s: lower_bound(%d) is at %zu, expected %zu", name, q[0], c.lower(q[0]), lb); }
    }
    if (m.size() > 4) sim::count("probe.large_containers"); if (m.size() > 100) sim::count("probe.hundred_elements");
}
// priority_set: pops by priority, every element at most once
template<typename Comp> static void prio(bool min_first) {
    priority_set<int, size_t, Comp> q; std::multimap<int, size_t> m; std::set<size_t> seen;
    int n = 4 + (int) sim::choose(30, "nops"); size_t dom = 6; if (sim::chance(1, 24, "large")) { n = 60 + (int) sim::choose(200, "many"); dom = 100; }
    auto drop = [&] { for (auto it = m.begin(); it != m.end();) if (seen.count(it->second)) it = m.erase(it); else ++it; };
    for (int i = 0; i < n; i++) {
        if (sim::choose(3, "op") < 2 || m.empty()) { int w = (int) sim::choose(dom, "w"); size_t e = sim::choose(dom, "e"); sim::ev("push", w, e); if (sim::verbose()) sim::note("push %d with priority %d", (int) e, w); q.emplace(w, e); sim::Pause p; m.emplace(w, e); drop(); }
        else {
            auto [w, e] = q.top(); size_t b = q.back(); sim::Pause p;
            int best = min_first ? m.begin()->first : m.rbegin()->first;
            sim::ev("pop", w, e);
            SIM_CHECK(b == e, "back", "back() and top() disagree");
            SIM_CHECK(!seen.count(e), "popped-twice", "element %zu is delivered twice", e);
            SIM_CHECK(w == best, "priority", "delivered priority %d, best pending is %d", w, best);
            bool there = false; for (auto [it, end] = m.equal_range(w); it != end; ++it) there |= it->second == e;
            SIM_CHECK(there, "invented", "element %zu was never inserted with priority %d", e, w);
            seen.insert(e); { sim::Unpause u; q.pop_back(); } drop();
        }
        sim::Pause p;
        SIM_CHECK(q.empty() == m.empty(), "empty", "empty() is %d with %zu pending elements", q.empty(), m.size());
    }
    sim::nontrivial();      // ties
    sim::count("probe.priority_histories");
}
// AutomatonPath: a stack of edges ending in a state
template<bool pair> static void path() {
    using St = std::conditional_t<pair, std::pair<size_t, size_t>, size_t>;
    auto st = [] { size_t a = sim::choose(5, "s"); if constexpr (pair) return St(a, sim::choose(5, "s2")); else return St(a); };
    { AutomatonPath<pair> z; SIM_CHECK(z.is_null() && z.empty(), "null-path", "a default path is not null"); }
    St end = st(); AutomatonPath<pair> p(end); std::vector<std::pair<uint32_t, St>> m;      // back = front edge
    constexpr uint32_t eps = std::numeric_limits<uint32_t>::max();
    int n = (int) sim::choose(20, "nops"); bool large = sim::chance(1, 24, "large"); if (large) n = 40 + (int) sim::choose(150, "many"); bool faulty = sim::chance(1, 3, "faulty");
    auto verify = [&](const AutomatonPath<pair>& p) {
        sim::Pause ps;
        SIM_CHECK(!p.is_null() && p.empty() == m.empty() && p.edges_size() == m.size(), "path-size", "path has %zu edges, expected %zu", p.edges_size(), m.size());
        SIM_CHECK(p.front_state() == (m.empty() ? end : m.back().second), "path-front", "wrong front state");
        std::vector<uint32_t> sk, nsk; std::vector<St> states;
        for (auto it = m.rbegin(); it != m.rend(); ++it) { sk.push_back(it->first); if (it->first != eps) { nsk.push_back(it->first); states.push_back(it->second); } }
        states.push_back(end);
        SIM_CHECK(p.stack() == sk, "path-stack", "stack() is wrong");
        auto [ps2, ss2] = p.get_path_and_stack(); SIM_CHECK(ps2 == states && ss2 == nsk, "path-and-stack", "get_path_and_stack() is wrong");
        if (!m.empty()) { auto [f, l, t] = p.front_edge(); SIM_CHECK(f == m.back().second && l == m.back().first && t == (m.size() > 1 ? m[m.size() - 2].second : end), "path-edge", "front_edge() is wrong"); }
        if constexpr (pair) {
            auto [a, b] = p.split();
            SIM_CHECK(a.front_state() == p.front_state().first && b.front_state() == p.front_state().second && a.stack() == sk && b.stack() == sk, "path-split", "split() is wrong");
            while (!a.empty()) { a.pop(); b.pop(); SIM_CHECK(a.edges_size() == b.edges_size(), "path-split", "split() is wrong"); size_t j = a.edges_size(); St w = j ? m[j - 1].second : end; SIM_CHECK(a.front_state() == w.first && b.front_state() == w.second, "path-split", "split() is wrong at depth %zu", j); }
        }
        if (std::find(sk.begin(), sk.end(), eps) == sk.end()) { AutomatonPath<pair> r(states, nsk); SIM_CHECK(r == p && !(r != p), "path-rebuild", "a path rebuilt from states and stack differs"); }
    };
    for (int i = 0; i < n; i++) {
        if (sim::choose(large ? 12 : 3, "op") < (large ? 11u : 2u) || m.empty()) {
            uint32_t l = sim::chance(1, 8, "eps") ? eps : (uint32_t) sim::choose(4, "l"); St s = l == eps ? p.front_state() : st();
            bool arm = faulty && sim::chance(1, 4, "arm"); if (arm) sim::arm_alloc_failure(1);
            try { p.emplace(s, l); m.emplace_back(l, s); } catch (const std::bad_alloc&) { sim::count("fault.alloc"); if (p.edges_size() > m.size()) m.emplace_back(l, s); }
            sim::arm_alloc_failure(0);
        } else if (sim::chance(1, 3, "rme")) { bool e = m.back().first == eps; p.remove_epsilon(); if (e) m.pop_back(); }
        else { p.pop(); m.pop_back(); }
        sim::ev("path", m.size());
        verify(p);
        if (sim::chance(1, 5, "copy")) { auto c = p; verify(c); if (!m.empty()) { c.pop(); SIM_CHECK(c != p, "path-equal", "paths of different length compare equal"); } }
    }
    if (faulty) sim::nontrivial();
    sim::count("probe.path_histories");
}
// keyed storage: keys of composite types keep their identity and index
static bool g_many = false;
template<typename K, typename G> static void keyed(const char* name, G gen) {
    utils::ptrie_set<K> s; utils::ptrie_map<K, int> mp; std::vector<K> m; std::map<size_t, int> val;
    int n = 3 + (int) sim::choose(15, "nops"); g_many = sim::chance(1, 24, "large"); if (g_many) n = 40 + (int) sim::choose(80, "many");
    for (int i = 0; i < n; i++) {
        K k = gen();
        auto idx = [&] { sim::Pause p; for (size_t j = 0; j < m.size(); j++) if (m[j] == k) return j; return m.size(); }();
        if (sim::choose(3, "op") < 2) {
            auto [f, id] = s.insert(k); auto [f2, id2] = mp.insert(k); sim::ev(name, f, id);
            SIM_CHECK(f == (idx == m.size()) && f2 == f && id == idx && id2 == idx, "keyed-insert", "%s: insert returned (%d,%zu), expected (%d,%zu)", name, f, id, idx == m.size(), idx);
            if (f) m.push_back(k);
            int v = (int) sim::choose(9, "v"); mp[k] = v; val[idx] = v;
        } else {
            auto [e, id] = s.exists(k); auto [e2, id2] = mp.exists(k);
            SIM_CHECK(e == (idx != m.size()) && e2 == e && (!e || (id == idx && id2 == idx)), "keyed-exists", "%s: exists is wrong", name);
        }
        sim::Pause p;
        for (size_t j = 0; j < m.size(); j++) { SIM_CHECK(s.at(j) == m[j] && mp.at(j) == m[j], "keyed-at", "%s: key %zu does not read back", name, j); SIM_CHECK(mp.get_data(j) == val[j], "keyed-data", "%s: data of key %zu is lost", name, j); }
        std::vector<size_t> ids(m.size()); for (size_t j = 0; j < ids.size(); j++) ids[j] = ids.size() - 1 - j;
        utils::ptrie_access_iterator<utils::ptrie_set<K>> b(ids.cbegin(), &s), e(ids.cend(), &s); size_t j = m.size();
        SIM_CHECK((size_t) (e - b) == m.size(), "keyed-iterate", "%s: iterator distance", name);
        for (auto it = b; it != e; ++it) { --j; SIM_CHECK(*it == m[j], "keyed-iterate", "%s: iteration yields a wrong key", name); }
    }
    sim::count("probe.keyed_histories");
}
static void disjoint() {
    auto mk = [] { std::set<int> s; int n = (int) sim::choose(6, "n"); int dom = 12; if (sim::chance(1, 12, "large")) { n = 10 + (int) sim::choose(60, "many"); dom = 200; } for (int i = 0; i < n; i++) s.insert((int) sim::choose(dom, "x")); return std::vector<int>(s.begin(), s.end()); };
    auto a = mk(), b = mk(); bool want = true; for (int x : a) for (int y : b) want &= x != y;
    SIM_CHECK(is_disjoint(a, b) == want, "disjoint", "is_disjoint is %d", !want);
    std::vector<std::pair<int, int>> pa; for (int x : a) pa.emplace_back(x, (int) sim::choose(3, "y"));
    SIM_CHECK((is_disjoint(pa, b, CompFirst<int, int>{}) == want), "disjoint", "is_disjoint with comparator is %d", !want);
}
static void run() {
    sim::choose_environment();
    switch (sim::choose(16, "kind")) {
        case 0: ops<Set3<int, std::string, int, type::hash, type::hash, type::vector>>("set hhv"); break;
        case 1: ops<Set3<std::string, int, std::string, type::vector, type::hash, type::hash>>("set vhh"); break;
        case 2: ops<Set3<int, std::string, std::string, type::hash, type::vector, type::vector>>("set hvv"); break;
        case 3: ops<Map2<std::string, int, type::hash, type::vector>>("map hv"); break;
        case 4: ops<Map2<std::string, std::string, type::vector, type::hash>>("map vh"); break;
        case 5: ops<Map2<std::string, std::string, type::vector, type::vector>>("map vv"); break;
        case 6: if (sim::chance(1, 2, "strings")) ops<Map1<std::string, type::hash>>("map h strings"); else ops<Map1<int, type::hash>>("map h"); break;
        case 7: if (sim::chance(1, 2, "strings")) ops<Map1<std::string, type::vector>>("map v strings"); else ops<Map1<int, type::vector>>("map v"); break;
        case 8: ops<VSet<int>>("vector_set int"); break;
        case 9: ops<VSet<std::string>>("vector_set string"); break;
        case 10: prio<std::less<int>>(false); break;
        case 11: prio<std::greater<int>>(true); break;
        case 12: path<false>(); break;
        case 13: path<true>(); break;
        case 14: disjoint(); disjoint(); disjoint(); break;
        default: {
            auto i = [] { return (int) sim::choose(g_many ? 400 : 4, "i") * 77 - 100; };
            auto str = [] { std::string s; int n = (int) sim::choose(g_many ? 300 : 4, "n"); for (int j = 0; j < n; j++) s += (char) ("ab\0z"[sim::choose(4, "c")]); return s; };
            auto vec = [&] { std::vector<uint32_t> v; int n = (int) sim::choose(g_many ? 70 : 4, "n"); for (int j = 0; j < n; j++) v.push_back((uint32_t) sim::choose(3, "x")); return v; };
            switch (sim::choose(5, "keytype")) {
                case 0: keyed<int>("int", i); break;
                case 1: keyed<std::string>("string", str); break;
                case 2: keyed<std::vector<uint32_t>>("vector", vec); break;
                case 3: keyed<std::tuple<int, std::vector<uint32_t>, uint16_t>>("tuple", [&] { auto a = i(); auto b = vec(); return std::tuple<int, std::vector<uint32_t>, uint16_t>(a, b, (uint16_t) sim::choose(3, "u")); }); break;
                case 4: keyed<std::variant<int, std::tuple<int, int>, std::vector<uint32_t>>>("variant", [&]() -> std::variant<int, std::tuple<int, int>, std::vector<uint32_t>> { switch (sim::choose(3, "alt")) { case 0: return i(); case 1: { int a = i(); return std::tuple<int, int>(a, i()); } default: return vec(); } }); break;
            }
        }
    }
}
extern const sim::Property SIM_PROPERTY{"P13", run, nullptr};
