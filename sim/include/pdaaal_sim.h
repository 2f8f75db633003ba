// Included by pdaaal/utils/sim_hooks.h when PDAAAL_SIMULATION is defined.
#pragma once
#include <cstddef>
#include <queue>
#include <stack>
#include <vector>
#include <deque>
#include <utility>
namespace sim { std::size_t pick(std::size_t n, const char* tag); }
namespace pdaaal_sim {
    template<typename S> struct stack_access : S { static auto& get(S& s) { return s.*&stack_access::c; } };
    template<typename S> struct pq_access : S {
        static auto& get(S& s) { return s.*&pq_access::c; }
        static auto& order(S& s) { return s.*&pq_access::comp; }
    };
    // LIFO worklists: any pending element may be the next one.
    template<typename T, typename C> void reschedule(std::stack<T, C>& s) {
        auto& c = stack_access<std::stack<T, C>>::get(s);
        if (c.empty()) return;
        auto k = sim::pick(c.size(), "stack");
        if (k) std::swap(c[c.size() - 1 - k], c.back());
    }
    template<typename T, typename C> void reschedule(std::queue<T, C>& s) {
        auto& c = stack_access<std::queue<T, C>>::get(s);
        if (c.empty()) return;
        auto k = sim::pick(c.size(), "queue");
        if (k) std::swap(c[k], c.front());
    }
    template<typename T, typename A> void reschedule(std::vector<T, A>& c) {
        if (c.empty()) return;
        auto k = sim::pick(c.size(), "vector");
        if (k) std::swap(c[c.size() - 1 - k], c.back());
    }
    // Priority queues: only elements tied with the top may be exchanged with it.
    template<typename T, typename C, typename Cmp> void reschedule(std::priority_queue<T, C, Cmp>& q) {
        auto& c = pq_access<std::priority_queue<T, C, Cmp>>::get(q);
        auto& comp = pq_access<std::priority_queue<T, C, Cmp>>::order(q);
        if (c.empty()) return;
        std::size_t ties = 1;
        for (std::size_t i = 1; i < c.size(); ++i) if (!comp(c[i], c[0])) ++ties;
        auto k = sim::pick(ties, "pq");
        if (!k) return;
        std::size_t seen = 0;
        for (std::size_t i = 1; i < c.size(); ++i)
            if (!comp(c[i], c[0]) && ++seen == k) { std::swap(c[i], c[0]); return; }
    }
    template<typename T> requires requires(T& t) { t.sim_reschedule([](std::size_t){ return std::size_t(0); }); }
    void reschedule(T& t) { t.sim_reschedule([](std::size_t n) { return sim::pick(n, "other"); }); }
    template<typename T> requires (!requires(T& t) { t.sim_reschedule([](std::size_t){ return std::size_t(0); }); })
    void reschedule(T&) { sim::pick(1, "opaque"); }
}
