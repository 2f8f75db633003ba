// Bridges reference instances to the library's public API.
#pragma once
#include "model.h"
#include <pdaaal/PDA.h>
#include <pdaaal/PAutomaton.h>
#include <pdaaal/SolverInstance.h>
#include <pdaaal/Solver.h>

namespace bridge {
    using namespace pdaaal;
    inline op_t op(model::Op o) { return o == model::POP ? pdaaal::POP : o == model::SWAP ? pdaaal::SWAP : o == model::PUSH ? pdaaal::PUSH : pdaaal::NOOP; }
    template<typename W> typename W::type weight_of(const model::Vec& v) {
        if constexpr (requires { std::tuple_size<typename W::type>::value; }) { typename W::type r{}; for (size_t i = 0; i < r.size() && i < v.size(); i++) r[i] = static_cast<typename W::type::value_type>(v[i]); return r; }
        else if constexpr (W::is_vector) { typename W::type r; for (auto x : v) r.push_back(static_cast<typename W::type::value_type>(x)); return r; }
        else if constexpr (std::is_floating_point_v<typename W::type>) return static_cast<typename W::type>(v.empty() ? 0 : v[0]) / 4;     // quarters, so that fractions matter
        else return static_cast<typename W::type>(v.empty() ? 0 : v[0]);
    }
    template<typename T> model::Vec vec_of(const T& w) {
        if constexpr (std::is_floating_point_v<T>) return model::norm({w > 1e17 ? (long long) 4e17 : w < -1e17 ? (long long) -4e17 : (long long) (w * 4)});
        else if constexpr (std::is_arithmetic_v<T>) return model::norm({(long long) w});
        else { model::Vec v; for (auto x : w) v.push_back((long long) x); return model::norm(v); }
    }
    // label l of the model is the library label T(l)
    template<typename T> T lab(int l) { if constexpr (std::is_same_v<T, std::string>) return l < 26 ? std::string(1, (char) ('a' + l)) : "l" + std::to_string(l); else return (T) (l * 3 + 5); }
    template<typename T> int unlab(const T& t) { if constexpr (std::is_same_v<T, std::string>) return t.size() == 1 ? t[0] - 'a' : atoi(t.c_str() + 1); else return ((int) t - 5) / 3; }

    template<typename T, typename P> void fill(P& pda, const model::Inst& I) {
        using W = typename P::weight;
        for (int s = 0; s < I.ns; s++) pda.insert_state(s);
        for (auto& r : I.rules) {
            std::vector<T> pre; for (int p : r.pre) pre.push_back(lab<T>(p));
            T ol = r.op == model::SWAP || r.op == model::PUSH ? lab<T>(r.op_label) : T{};
            if constexpr (W::is_weight) {
                if (!r.wild && pre.size() == 1 && (r.from + r.to) % 2 == 0) pda.add_rule(r.from, r.to, op(r.op), ol, pre[0], weight_of<W>(r.w));
                else pda.add_rule(r.from, r.to, op(r.op), ol, r.wild, pre, weight_of<W>(r.w));
            } else {
                if (!r.wild && pre.size() == 1 && (r.from + r.to) % 2 == 0) pda.add_rule(r.from, r.to, op(r.op), ol, pre[0]);
                else pda.add_rule(r.from, r.to, op(r.op), ol, r.wild, pre);
            }
        }
    }
    template<typename T, typename W> PDA<T, W> make_pda(const model::Inst& I, bool via_hash) {
        std::unordered_set<T> labels; for (int l = 0; l < I.nl; l++) labels.insert(lab<T>(l));
        if (via_hash) {
            PDA<T, W, fut::type::hash> h(labels);
            fill<T>(h, I);
            return PDA<T, W>(std::move(h));
        }
        PDA<T, W> p(labels);
        fill<T>(p, I);
        return p;
    }
    template<typename T, TraceInfoType TI = TraceInfoType::Single, typename P> auto make_aut(const P& pda, const model::Aut& a) {
        using A = PAutomaton<T, typename P::weight, size_t, true, TI>;
        std::vector<size_t> acc; size_t ns = pda.states().size();
        for (size_t i = 0; i < ns; i++) if (a.acc[i]) acc.push_back(i);
        A r(pda, acc, true);
        for (int i = (int) ns; i < a.n; i++) r.add_state(false, a.acc[i]);
        for (auto& [f, l, t] : a.edges) r.add_edge(f, t, pda.exists_label(lab<T>(l)).second);
        return r;
    }
    template<typename T, typename Tr> std::vector<model::Config> conv(const Tr& trace) {
        std::vector<model::Config> r;
        for (auto& s : trace) { model::Config c; c.state = (int) s._pdastate; for (auto& l : s._stack) c.stack.push_back(unlab<T>(l)); r.push_back(c); }
        return r;
    }
    inline void note_trace(const char* what, const std::vector<model::Config>& t) { if (!sim::verbose()) return; std::string s; for (auto& c : t) s += model::show(c) + " "; sim::note("%s: %s", what, s.c_str()); }
}
