From e4951cc0f62a5a8a91b25f6b97fbfc78090c8f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:09 +0000
Subject: [PATCH 01/53] hooks: guarded scheduling points for deterministic
 simulation (PDAAAL_SIMULATION, off by default)

---
 src/include/pdaaal/PAutomatonProduct.h      |  2 ++
 src/include/pdaaal/PDAFactory.h             |  2 ++
 src/include/pdaaal/internal/PdaSaturation.h |  4 +++
 src/include/pdaaal/internal/Reducer.h       |  5 +++
 src/include/pdaaal/utils/sim_hooks.h        | 34 +++++++++++++++++++++
 src/include/pdaaal/utils/workset.h          |  2 ++
 6 files changed, 49 insertions(+)
 create mode 100644 src/include/pdaaal/utils/sim_hooks.h

diff --git a/src/include/pdaaal/PAutomatonProduct.h b/src/include/pdaaal/PAutomatonProduct.h
index 1ee1983..5f74fbb 100644
--- a/src/include/pdaaal/PAutomatonProduct.h
+++ b/src/include/pdaaal/PAutomatonProduct.h
@@ -31,6 +31,7 @@
 #include "PAutomaton.h"
 #include "pdaaal/internal/PAutomatonAlgorithms.h"
 #include "pdaaal/utils/more_algorithms.h"
+#include "pdaaal/utils/sim_hooks.h"
 
 namespace pdaaal {
 
@@ -291,6 +292,7 @@ namespace pdaaal {
         template<bool is_dual = false, bool ET = true, Trace_Type trace_type>
         bool construct_reachable(queue_type<trace_type>& waiting, const automaton_t& initial, const automaton_t& final, [[maybe_unused]] const weight_or_bool_t& et_param) {
             while (!waiting.empty()) {
+                PDAAAL_SIM_RESCHEDULE(waiting);
                 size_t top = waiting.back();
                 waiting.pop_back();
                 auto [i_from,f_from] = get_original_ids(top);
diff --git a/src/include/pdaaal/PDAFactory.h b/src/include/pdaaal/PDAFactory.h
index bb13f7a..15c71cd 100644
--- a/src/include/pdaaal/PDAFactory.h
+++ b/src/include/pdaaal/PDAFactory.h
@@ -27,6 +27,7 @@
 #ifndef PDAAAL_PDAFACTORY_H
 #define PDAAAL_PDAFACTORY_H
 
+#include "pdaaal/utils/sim_hooks.h"
 #include "NFA.h"
 #include "PDA.h"
 #include "SolverInstance.h"
@@ -103,6 +104,7 @@ namespace pdaaal {
             std::vector<size_t> waiting = this->initial();
             std::unordered_set<size_t> seen(waiting.begin(), waiting.end());
             while (!waiting.empty()) {
+                PDAAAL_SIM_RESCHEDULE(waiting);
                 auto from = waiting.back();
                 waiting.pop_back();
                 if (accepting(from)) {
diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 3c1c1a9..3ac4f9a 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -29,6 +29,7 @@
 
 #include "PAutomaton.h"
 #include "pdaaal/utils/workset.h"
+#include "pdaaal/utils/sim_hooks.h"
 
 namespace pdaaal::internal {
     constexpr auto epsilon = std::numeric_limits<uint32_t>::max();
@@ -232,6 +233,7 @@ namespace pdaaal::internal {
 
         void step() {
             // pop t = (q, y, q') from workset (line 4)
+            PDAAAL_SIM_RESCHEDULE(_workset);
             auto t = _workset.top();
             _workset.pop();
 
@@ -430,6 +432,7 @@ namespace pdaaal::internal {
         void step() {
             // pop t = (q, y, q') from workset (line 6)
             temp_edge_t t;
+            PDAAAL_SIM_RESCHEDULE(_workset);
             t = _workset.front();
             _workset.pop();
             assert(t._to >= _n_pda_states); // This should be an invariant of post*
@@ -625,6 +628,7 @@ namespace pdaaal::internal {
     public:
         void step() {
             // pop t = (q, y, q') from workset
+            PDAAAL_SIM_RESCHEDULE(_workset);
             auto elem = _workset.top();
             _workset.pop();
             auto t = elem._edge;
diff --git a/src/include/pdaaal/internal/Reducer.h b/src/include/pdaaal/internal/Reducer.h
index 662fcfb..f2a8be4 100644
--- a/src/include/pdaaal/internal/Reducer.h
+++ b/src/include/pdaaal/internal/Reducer.h
@@ -29,6 +29,7 @@
 #define PDAAAL_REDUCER_H
 
 #include "PDA.h"
+#include "pdaaal/utils/sim_hooks.h"
 #include <queue>
 
 namespace pdaaal::internal {
@@ -94,6 +95,7 @@ namespace pdaaal::internal {
             }
             // saturate
             while (!waiting.empty()) {
+                PDAAAL_SIM_RESCHEDULE(waiting);
                 auto el = waiting.front();
                 waiting.pop();
                 auto& ss = approximation[el];
@@ -174,6 +176,7 @@ namespace pdaaal::internal {
             waiting.push(initial_id);
             seen[initial_id] = true;
             while (!waiting.empty()) {
+                PDAAAL_SIM_RESCHEDULE(waiting);
                 auto el = waiting.front();
                 waiting.pop();
                 for (const auto& [r,labels] : pda.states()[el]._rules) {
@@ -198,6 +201,7 @@ namespace pdaaal::internal {
             seen[terminal] = true;
             while (!waiting.empty()) {
                 // backward
+                PDAAAL_SIM_RESCHEDULE(waiting);
                 auto el = waiting.front();
                 waiting.pop();
                 for (auto& s2 : pda.states()[el]._pre_states) {
@@ -224,6 +228,7 @@ namespace pdaaal::internal {
             }
 
             while (!waiting.empty()) {
+                PDAAAL_SIM_RESCHEDULE(waiting);
                 auto s = waiting.front();
                 waiting.pop();
                 if (s == terminal_id) continue; // We don't prune terminal.
diff --git a/src/include/pdaaal/utils/sim_hooks.h b/src/include/pdaaal/utils/sim_hooks.h
new file mode 100644
index 0000000..8ebf428
--- /dev/null
+++ b/src/include/pdaaal/utils/sim_hooks.h
@@ -0,0 +1,34 @@
+/*
+ * This program is free software: you can redistribute it and/or modify
+ * it under the terms of the GNU General Public License as published by
+ * the Free Software Foundation, either version 3 of the License, or
+ * (at your option) any later version.
+ *
+ * This program is distributed in the hope that it will be useful,
+ * but WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ * GNU General Public License for more details.
+ *
+ * You should have received a copy of the GNU General Public License
+ * along with this program.  If not, see <http://www.gnu.org/licenses/>.
+ */
+
+/*
+ * File:   sim_hooks.h
+ *
+ * Scheduling points for deterministic simulation. Off by default: without PDAAAL_SIMULATION the macro is a no-op.
+ * With PDAAAL_SIMULATION the simulator (header pdaaal_sim.h, not part of this repository) may exchange
+ * the element that is popped next from a worklist with any other element that may legally be next.
+ */
+
+#ifndef PDAAAL_SIM_HOOKS_H
+#define PDAAAL_SIM_HOOKS_H
+
+#ifdef PDAAAL_SIMULATION
+#include <pdaaal_sim.h>
+#define PDAAAL_SIM_RESCHEDULE(workset) ::pdaaal_sim::reschedule(workset)
+#else
+#define PDAAAL_SIM_RESCHEDULE(workset) ((void)0)
+#endif
+
+#endif //PDAAAL_SIM_HOOKS_H
diff --git a/src/include/pdaaal/utils/workset.h b/src/include/pdaaal/utils/workset.h
index e694f3c..b1cb10f 100644
--- a/src/include/pdaaal/utils/workset.h
+++ b/src/include/pdaaal/utils/workset.h
@@ -27,6 +27,7 @@
 #ifndef PDAAAL_WORKSET_H
 #define PDAAAL_WORKSET_H
 
+#include "pdaaal/utils/sim_hooks.h"
 #include <cassert>
 #include <stack>
 #include <queue>
@@ -58,6 +59,7 @@ namespace pdaaal {
                 std::swap(_workset, _next_workset);
             }
 
+            PDAAAL_SIM_RESCHEDULE(_workset);
             auto current = _workset.back();
             _workset.pop_back();
 
-- 
2.43.0


From be37bfd03477cf0c87ca5a9549e89d5003e70654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:47 +0000
Subject: [PATCH 02/53] fix: rule traces of dual search without witness, and of
 runs without any rule

_get_rule_trace_and_paths for the dual search tested a std::optional that always has a value, and read the first
rule of an empty trace. For post* an empty trace was reported as if pre* had been used (paths swapped).
---
 src/include/pdaaal/Solver.h | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 8ab4ed5..9e30fb5 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -317,15 +317,16 @@ namespace pdaaal {
         template <Trace_Type trace_type = Trace_Type::Any, bool use_dual=false, typename pda_t, typename automaton_t, typename W>
         static auto get_rule_trace_and_paths(const PAutomatonProduct<pda_t,automaton_t,W>& instance) {
             static_assert(trace_type != Trace_Type::None, "If you want a trace, don't ask for none.");
+            [[maybe_unused]] const bool post_star = &instance.automaton() == &instance.initial_automaton();
             if constexpr (trace_type == Trace_Type::Shortest) {
                 auto[paths, weight] = instance.template find_path<trace_type, true>();
-                return std::make_pair(_get_rule_trace_and_paths(instance.automaton(), paths), weight);
+                return std::make_pair(_get_rule_trace_and_paths(instance.automaton(), paths, post_star), weight);
             } else if constexpr(use_dual) {
                 auto paths = instance.template find_path<trace_type, true>();
                 return _get_rule_trace_and_paths(instance.initial_automaton(), instance.final_automaton(), paths);
             } else {
                 auto paths = instance.template find_path<trace_type, true>();
-                return _get_rule_trace_and_paths(instance.automaton(), paths);
+                return _get_rule_trace_and_paths(instance.automaton(), paths, post_star);
             }
         }
 
@@ -399,7 +400,8 @@ namespace pdaaal {
                 std::vector<size_t>, // Path in initial PAutomaton (accepting initial stack)
                 std::vector<size_t>  // Path in final PAutomaton (accepting final stack) (independent of whether pre* or post* was used)
                 > _get_rule_trace_and_paths(const internal::PAutomaton<W,trace_info_type>& automaton, // The PAutomaton that has been build up (either A_pre* or A_post*)
-                                            const AutomatonPath<true>& paths) {
+                                            const AutomatonPath<true>& paths,
+                                            bool post_star) { // Was post* used? (An empty trace does not tell.)
             using rule_t = user_rule_t<W>;
 
             if (paths.is_null()) {
@@ -419,9 +421,10 @@ namespace pdaaal {
             // Get accepting path of initial stack (and the initial stack itself - for post*)
             auto [start_path, start_stack] = tb.path().get_path_and_stack();
 
-            if (tb.post()) { // post* was used
+            if (post_star) { // post* was used
                 std::reverse(trace.begin(), trace.end());
-                return std::make_tuple(trace[0].from(), std::move(trace),
+                size_t initial_state = trace.empty() ? paths.front_state().first : trace[0].from();
+                return std::make_tuple(initial_state, std::move(trace),
                                        std::move(start_stack), std::move(goal_stack),
                                        std::move(start_path), std::move(goal_path));
             } else { // pre* was used
@@ -441,20 +444,22 @@ namespace pdaaal {
         std::vector<size_t>  // Path in final PAutomaton (accepting final stack) (independent of whether pre* or post* was used)
         > _get_rule_trace_and_paths(const internal::PAutomaton<W,trace_info_type1>& initial_automaton,
                                     const internal::PAutomaton<W,trace_info_type2>& final_automaton,
-                                    const std::optional<AutomatonPath<true>>& paths) {
+                                    const AutomatonPath<true>& paths) {
             using rule_t = user_rule_t<W>;
 
-            if (!paths.has_value()) {
+            if (paths.is_null()) {
                 return std::make_tuple(std::numeric_limits<size_t>::max(), std::vector<rule_t>(), std::vector<uint32_t>(), std::vector<uint32_t>(), std::vector<size_t>(), std::vector<size_t>());
             }
             // The paths was retrieved from the product automaton. First number is the state in initial_automaton, second number is state in final_automaton.
-            auto [initial_automaton_path, final_automaton_path] = paths.value().split();
+            auto [initial_automaton_path, final_automaton_path] = paths.split();
             final_automaton_path.remove_epsilon(); // post* may add an epsilon-edge as first. this edge is not in pre* automaton (final_automaton), so remove it from f_path.
             auto [trace, initial_stack, initial_path] = _get_trace_stack_path(initial_automaton, std::move(initial_automaton_path));
             auto [trace2, final_stack, final_path] = _get_trace_stack_path(final_automaton, std::move(final_automaton_path));
             // Concat traces
             trace.insert(trace.end(), trace2.begin(), trace2.end());
-            return std::make_tuple(trace[0].from(), std::move(trace),
+            // If no rule is applied, the initial configuration is also the final one.
+            size_t initial_state = trace.empty() ? paths.front_state().first : trace[0].from();
+            return std::make_tuple(initial_state, std::move(trace),
                                    std::move(initial_stack), std::move(final_stack),
                                    std::move(initial_path), std::move(final_path));
         }
-- 
2.43.0


From 487a486490d25c23da7a2ad2ad549f1e9f6c67b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:56 +0000
Subject: [PATCH 03/53] fix: rule traces of weighted PDAs could not be
 instantiated (user_rule_t<W> lacked from())

---
 src/include/pdaaal/internal/PDA.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/pdaaal/internal/PDA.h b/src/include/pdaaal/internal/PDA.h
index 1f0f8c3..c5216d2 100644
--- a/src/include/pdaaal/internal/PDA.h
+++ b/src/include/pdaaal/internal/PDA.h
@@ -199,6 +199,10 @@ namespace pdaaal {
         }
         bool operator!=(const user_rule_t<W>& other) const { return !(*this == other); }
 
+        [[nodiscard]] size_t from() const {
+            return _from;
+        }
+
         internal::pda_rule_t<W> to_impl_rule() const {
             return internal::pda_rule_t<W>{_to, _op, _weight, _op_label};
         }
-- 
2.43.0


From 71bf95ab3f47e752b5ecbb361795085cf460415a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:56 +0000
Subject: [PATCH 04/53] fix: post* traces report the PUSH rule that was used,
 not another one sharing its target and label

---
 src/include/pdaaal/internal/PdaSaturation.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 3ac4f9a..6797af8 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -1156,7 +1156,9 @@ namespace pdaaal::internal {
                             break;
                     }
                     assert(from == rule._to);
-                    return rule_t(trace_label._state, trace_label._label, rule);
+                    // For PUSH, the second edge tells which of the PUSH rules sharing the first edge was used.
+                    return rule_t(trace_label._state, trace_label._label,
+                                  _automaton.pda().states()[trace_label._state]._rules[trace_label._rule_id].first);
                 }
             }
         }
-- 
2.43.0


From 6b5cea830482946071e35099f963de7845e83b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:16 +0000
Subject: [PATCH 05/53] fix: shortest-path weight of product states was read
 uninitialised

---
 src/include/pdaaal/internal/PAutomaton.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PAutomaton.h b/src/include/pdaaal/internal/PAutomaton.h
index 1e765f1..6416467 100644
--- a/src/include/pdaaal/internal/PAutomaton.h
+++ b/src/include/pdaaal/internal/PAutomaton.h
@@ -175,7 +175,7 @@ namespace pdaaal::internal {
             // TODO: Move this out to sub-class IncrementalPAutomaton
             size_t _back_edge_state = std::numeric_limits<size_t>::max(); // Use the back_edge_state to check for existence of a back_edge.
             uint32_t _back_edge_label = std::numeric_limits<uint32_t>::max()-1; // The null value should not equal epsilon (defensive defaults)
-            weight_or_bool_t _best_weight;
+            weight_or_bool_t _best_weight{};
 
             state_t(bool accepting, size_t id) : _accepting(accepting), _id(id) {};
 
-- 
2.43.0


From a2026dee01ceff5067194aac8a77ee7f4c294257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:16 +0000
Subject: [PATCH 06/53] fix: shortest-trace post* missed targets whose weight
 exceeds the last processed edge

---
 src/include/pdaaal/internal/PdaSaturation.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 6797af8..909d9d2 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -631,6 +631,17 @@ namespace pdaaal::internal {
             PDAAAL_SIM_RESCHEDULE(_workset);
             auto elem = _workset.top();
             _workset.pop();
+            process(elem);
+            if constexpr (ET) {
+                // Nothing is left to process, so what the intersection has found by now is the shortest.
+                if (!_found && workset_empty()) {
+                    const auto& t = elem._edge;
+                    _found = _early_termination(t._from, t._label, t._to, *_automaton.get_edge(t._from, t._label, t._to), solver_weight::max());
+                }
+            }
+        }
+    private:
+        void process(const weight_edge_trace& elem) {
             auto t = elem._edge;
             auto weights = _edge_weights.find(t)->second;
             if (solver_weight::less(weights.second, elem._weight)) {
@@ -700,6 +711,7 @@ namespace pdaaal::internal {
                 }
             }
         }
+    public:
         [[nodiscard]] bool workset_empty() const {
             return _workset.empty();
         }
-- 
2.43.0


From 33cd737f4ab440a1e4f2dd14fc6a1737c25b421a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:50 +0000
Subject: [PATCH 07/53] fix: shortest-trace pre* and dual search: out-of-bounds
 access, wrong processing order, stale traces, missing product back-edges

---
 src/include/pdaaal/Solver.h                 |  4 +-
 src/include/pdaaal/internal/PdaSaturation.h | 52 +++++++++------------
 2 files changed, 24 insertions(+), 32 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 9e30fb5..baf63b1 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -83,7 +83,7 @@ namespace pdaaal {
 
         template <Trace_Type trace_type,typename pda_t, typename automaton_t, typename W>
         static bool dual_search_accepts(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
-            if (instance.template initialize_product<true>()) {
+            if (instance.template initialize_product<true,true,is_weighted<W> ? trace_type : Trace_Type::None>()) {
                 return true;
             }
             // we could *probably* avoid some dupplication here if the pre/post* algorithms
@@ -181,7 +181,7 @@ namespace pdaaal {
         template <Trace_Type trace_type, typename pda_t, typename automaton_t, typename W>
         static bool pre_star_accepts(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
             instance.enable_pre_star();
-            return instance.initialize_product() ||
+            return instance.template initialize_product<false,true,is_weighted<W> ? trace_type : Trace_Type::None>() ||
                    pre_star<trace_type,W,true>(instance.automaton(), [&instance](size_t from, uint32_t label, size_t to, internal::edge_annotation_t<W> trace, const auto& et_param) -> bool {
                         if constexpr (is_weighted<W> && trace_type == Trace_Type::Shortest)
                             return instance.template add_edge_product<true,trace_type>(from, label, to, trace, et_param);
diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 909d9d2..e9a5174 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -123,7 +123,6 @@ namespace pdaaal::internal {
         std::vector<std::vector<std::pair<size_t,uint32_t>>> _rel;
         std::vector<std::vector<std::pair<size_t, size_t>>> _delta_prime;
         bool _found = false;
-        std::vector<weight_t> _minpath;
         std::vector<bool> _popped;
 
         bool has_negative_weight() const {
@@ -158,19 +157,12 @@ namespace pdaaal::internal {
         }
 
         void initialize() {
-            if constexpr (SHORTEST && W::is_weight) {
-                _minpath.resize(_automaton.states().size());
-                std::fill(_minpath.begin(), _minpath.end(), solver_weight::max());
-            }
-
             // workset := ->_0  (line 1)
             for (const auto& from : _automaton.states()) {
                 for (const auto& [to, labels] : from->_edges) {
                     for (const auto& [label, _] : labels) {
                         if constexpr (W::is_weight && SHORTEST) {
                             // anything inside the automaton is reachable with weight zero.
-                            _minpath[from->_id] = solver_weight::zero();
-                            _minpath[to] = solver_weight::zero();
                             _workset.emplace(from->_id, label, to, solver_weight::zero(), trace_t());
                         } else if constexpr (!SHORTEST) {
                             _workset.emplace(from->_id, label, to);
@@ -185,19 +177,15 @@ namespace pdaaal::internal {
         void insert_edge(size_t from, uint32_t label, size_t to, trace_t trace, [[maybe_unused]] weight_t weight) {
 
             if constexpr (SHORTEST && W::is_weight) {
-                auto res = solver_weight::add(weight, _minpath[to]);
-                assert(res != solver_weight::max());
                 assert(weight != solver_weight::max());
-
+                // Edges are processed in order of their weight (with non-negative weights no derived edge is lighter than
+                // the edges it is derived from).
                 auto [it, fresh] = _automaton.emplace_edge(from, label, to, std::make_pair(trace, weight));
                 if (fresh) { // New edge is not already in edges (rel U workset).
-                    if(solver_weight::less(res, _minpath[from])) _minpath[from] = res;
-                    _workset.emplace(from, label, to, std::move(res), trace);
-                } else {
-                    if(solver_weight::less(weight, it->second.second)) {
-                        it->second.second = std::move(weight);
-                        _workset.emplace(from, label, to, std::move(res), trace);
-                    }
+                    _workset.emplace(from, label, to, std::move(weight), trace);
+                } else if (solver_weight::less(weight, it->second.second)) {
+                    it->second = std::make_pair(trace, weight); // The lighter weight comes with the trace that gives it.
+                    _workset.emplace(from, label, to, std::move(weight), trace);
                 }
             } else {
                 if (_automaton.emplace_edge(from, label, to, edge_anno::from_trace_info(trace)).second) {
@@ -223,7 +211,7 @@ namespace pdaaal::internal {
 
         weight_t get_pautomata_edge_weight(auto from, auto label, auto to)
         {
-            if constexpr (ET && W::is_weight)
+            if constexpr (SHORTEST && W::is_weight)
                 return  _automaton.get_edge(from, label, to)->second;
             return weight_t{};
         }
@@ -236,15 +224,24 @@ namespace pdaaal::internal {
             PDAAAL_SIM_RESCHEDULE(_workset);
             auto t = _workset.top();
             _workset.pop();
+            process(t);
 
+            if constexpr (ET && SHORTEST && W::is_weight)
+            {
+                // flush the solution in case we got a trace, but the intersection has no trace shorter than the "longest shortest trace" in the pautomata
+                if(!_found && workset_empty())
+                    _found = _early_termination(t._from, t._label, t._to, *_automaton.get_edge(t._from, t._label, t._to), solver_weight::max());
+            }
+        }
+
+    private:
+        void process(const edge_t& t) {
             [[maybe_unused]] const auto w = get_pautomata_edge_weight(t._from, t._label, t._to);
 
             if constexpr (SHORTEST && W::is_weight) {
                 assert(t._weight != solver_weight::max());
-                if(!_popped[t._from])
-                    _minpath[t._from] = t._weight;
-                if(solver_weight::less(solver_weight::add(w, _minpath[t._to]), t._weight))
-                    return;
+                if(solver_weight::less(w, t._weight))
+                    return; // Same edge with a smaller weight was already processed.
                 if constexpr (ET) {
                     _found = _early_termination(t._from, t._label, t._to, std::make_pair(t._trace, w), t._weight) || _found;
                 }
@@ -320,15 +317,10 @@ namespace pdaaal::internal {
                 }
             }
             _popped[t._from] = true;
-
-            if constexpr (ET && SHORTEST && W::is_weight)
-            {
-                // flush the solution in case we got a trace, but the intersection has no trace shorter than the "longest shortest trace" in the pautomata
-                if(workset_empty())
-                    _found = _early_termination(t._from, t._label, t._to, std::make_pair(t._trace, w), solver_weight::max());
-            }
         }
 
+    public:
+
         [[nodiscard]] bool workset_empty() const {
             return _workset.empty();
         }
-- 
2.43.0


From 54347da9fdc41a6f0d207ae3da5da7050c3d05a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:08 +0000
Subject: [PATCH 08/53] fix: shortest rule traces of dual search were read from
 one automaton only

---
 src/include/pdaaal/Solver.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index baf63b1..4b9388b 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -320,7 +320,11 @@ namespace pdaaal {
             [[maybe_unused]] const bool post_star = &instance.automaton() == &instance.initial_automaton();
             if constexpr (trace_type == Trace_Type::Shortest) {
                 auto[paths, weight] = instance.template find_path<trace_type, true>();
-                return std::make_pair(_get_rule_trace_and_paths(instance.automaton(), paths, post_star), weight);
+                if constexpr (use_dual) {
+                    return std::make_pair(_get_rule_trace_and_paths(instance.initial_automaton(), instance.final_automaton(), paths), weight);
+                } else {
+                    return std::make_pair(_get_rule_trace_and_paths(instance.automaton(), paths, post_star), weight);
+                }
             } else if constexpr(use_dual) {
                 auto paths = instance.template find_path<trace_type, true>();
                 return _get_rule_trace_and_paths(instance.initial_automaton(), instance.final_automaton(), paths);
-- 
2.43.0


From 3beb2466782957b1219334d914e5b99cd778ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:10 +0000
Subject: [PATCH 09/53] fix: shortest accepting path of a stack dropped the
 control state when the automaton has epsilon edges

---
 src/include/pdaaal/internal/PAutomaton.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/include/pdaaal/internal/PAutomaton.h b/src/include/pdaaal/internal/PAutomaton.h
index 6416467..1afa383 100644
--- a/src/include/pdaaal/internal/PAutomaton.h
+++ b/src/include/pdaaal/internal/PAutomaton.h
@@ -604,10 +604,8 @@ namespace pdaaal::internal {
                                 search_queue.emplace(solver_weight<W,trace_type>::add(current._weight, label->second), to, current._stack_index + 1, pointer);
                             }
                         }
-                        auto eps_label = labels.get(epsilon);
-                        if (eps_label != nullptr) {
-                            search_queue.emplace(solver_weight<W,trace_type>::add(current._weight, eps_label->second), to, current._stack_index, pointer->_back_pointer);
-                        }
+                        // An epsilon edge (made by post*) needs no special care: saturation also adds the edges that bypass it.
+                        // (The path must have one edge per stack symbol, so the epsilon edge could not be part of it.)
                     }
                 }
                 return std::make_pair(std::vector<size_t>(), solver_weight<W,trace_type>::max());
-- 
2.43.0


From 847a70ef6b10f449d8bf18736cbec8560ab2a3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:45 +0000
Subject: [PATCH 10/53] fix: fixed-point searches aborted on witness paths
 through epsilon edges of post*

---
 src/include/pdaaal/internal/PAutomatonAlgorithms.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/include/pdaaal/internal/PAutomatonAlgorithms.h b/src/include/pdaaal/internal/PAutomatonAlgorithms.h
index 4fb2725..b13f229 100644
--- a/src/include/pdaaal/internal/PAutomatonAlgorithms.h
+++ b/src/include/pdaaal/internal/PAutomatonAlgorithms.h
@@ -129,7 +129,6 @@ namespace pdaaal::internal {
             AutomatonPath path(state_map(_min_accepting_state));
             size_t state = _min_accepting_state;
             while (_states[state].predecessor != no_state) {
-                assert(_states[state].label != std::numeric_limits<uint32_t>::max());
                 path.emplace(state_map(_states[state].predecessor), _states[state].label);
                 state = _states[state].predecessor;
                 assert(path.edges_size() <= _states.size()); // There should be no loop here - covered elsewhere.
@@ -163,7 +162,6 @@ namespace pdaaal::internal {
                     _current_state = _states[_current_state].predecessor;
                 }
                 if (_current_state == no_state) return std::nullopt; // Done searching.
-                assert(label != std::numeric_limits<uint32_t>::max());
                 assert(_current_state != uninitialized_state);
                 _path.emplace(_state_map(_current_state), label);
                 return label;
-- 
2.43.0


From d9d6a07b478cda2430b622bafdc65198ad9ee11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:51 +0000
Subject: [PATCH 11/53] fix: fixed-point search stopped in the middle of its
 last round and forged infinite weights

---
 src/include/pdaaal/utils/workset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/utils/workset.h b/src/include/pdaaal/utils/workset.h
index b1cb10f..72e62a0 100644
--- a/src/include/pdaaal/utils/workset.h
+++ b/src/include/pdaaal/utils/workset.h
@@ -76,7 +76,7 @@ namespace pdaaal {
             }
         }
         [[nodiscard]] bool done() const {
-            return _done || _rounds == _round_limit;
+            return _done || (_workset.empty() && _rounds >= _round_limit); // A round that has been started must be completed.
         }
         void run() {
             while(!done()) {
-- 
2.43.0


From 852897644ac5614f7a887ebd537bba4f88fcd78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:48 +0000
Subject: [PATCH 12/53] fix: pre* skipped PUSH rules of the first label with
 negative weight

---
 src/include/pdaaal/internal/PdaSaturation.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index e9a5174..1b3b68e 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -139,7 +139,7 @@ namespace pdaaal::internal {
             if(_popped[state]) return;
             for (auto pre_state : _pda_states[state]._pre_states) {
                 const auto& rules = _pda_states[pre_state]._rules;
-                auto lb = rules.lower_bound(pda_rule_t<W>{state});
+                auto lb = rules.lower_bound(pda_rule_t<W>{state, op_t{}});
                 while (lb != rules.end() && lb->first._to == state) {
                     const auto& [rule, labels] = *lb;
                     size_t rule_id = lb - rules.begin();
@@ -265,7 +265,7 @@ namespace pdaaal::internal {
             if (t._from >= _n_pda_states) { return; }
             for (auto pre_state : _pda_states[t._from]._pre_states) {
                 const auto& rules = _pda_states[pre_state]._rules;
-                auto lb = rules.lower_bound(pda_rule_t<W>{t._from});
+                auto lb = rules.lower_bound(pda_rule_t<W>{t._from, op_t{}});
                 while (lb != rules.end() && lb->first._to == t._from) {
                     const auto& [rule, labels] = *lb;
                     size_t rule_id = lb - rules.begin();
@@ -808,7 +808,7 @@ namespace pdaaal::internal {
                 _added_pop[state] = true;
                 for (auto pre_state : _pda_states[state]._pre_states) {
                     const auto &rules = _pda_states[pre_state]._rules;
-                    auto lb = rules.lower_bound(pda_rule_t<W>{state});
+                    auto lb = rules.lower_bound(pda_rule_t<W>{state, op_t{}});
                     while (lb != rules.end() && lb->first._to == state) {
                         const auto& [rule, labels] = *lb;
                         size_t rule_id = lb - rules.begin();
@@ -860,7 +860,7 @@ namespace pdaaal::internal {
             if (t._from >= _n_pda_states) { return true; }
             for (auto pre_state : _pda_states[t._from]._pre_states) {
                 const auto &rules = _pda_states[pre_state]._rules;
-                auto lb = rules.lower_bound(pda_rule_t<W>{t._from});
+                auto lb = rules.lower_bound(pda_rule_t<W>{t._from, op_t{}});
                 while (lb != rules.end() && lb->first._to == t._from) {
                     const auto &[rule, labels] = *lb;
                     size_t rule_id = lb - rules.begin();
-- 
2.43.0


From 13ab6c95e368371fa36558a401726293343bfe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:35 +0000
Subject: [PATCH 13/53] fix: weight addition overflowed instead of saturating,
 so diverging fixed-point searches wrapped around

---
 src/include/pdaaal/Weight.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index 668dfd6..ed02c25 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -136,7 +136,16 @@ namespace pdaaal {
                 if constexpr (bottom_val != 0) {
                     if (lhs == bottom_val || rhs == bottom_val) return bottom_val;
                 }
-                return lhs + rhs;
+                if constexpr (std::is_integral_v<type>) {
+                    // Saturate on overflow: at bottom in one direction, and in the other direction just short of max (which means no path).
+                    constexpr type limit = (maximize && is_signed) ? max_val + 1 : max_val - 1;
+                    if (rhs > 0 && lhs > std::numeric_limits<type>::max() - rhs) return maximize ? bottom_val : limit;
+                    if (rhs < 0 && lhs < std::numeric_limits<type>::min() - rhs) return maximize ? limit : bottom_val;
+                    const type result = lhs + rhs;
+                    return result == max_val ? limit : result;
+                } else {
+                    return lhs + rhs;
+                }
             };
         };
         template<typename Inner, std::size_t N, bool maximize>
-- 
2.43.0


From 76183d5d37ef4d7452ca35c00bd9fd0052a5e5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:58 +0000
Subject: [PATCH 14/53] fix: pre* without early termination could not be
 instantiated

---
 src/include/pdaaal/Solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 4b9388b..f469881 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -248,7 +248,7 @@ namespace pdaaal {
         template <typename pda_t, typename automaton_t, typename W>
         static bool pre_star_accepts_no_ET(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
             instance.enable_pre_star();
-            pre_star<W,false>(instance.automaton());
+            pre_star<Trace_Type::Any,W,false>(instance.automaton());
             return instance.template initialize_product<false,false>();
         }
         template <Trace_Type trace_type = Trace_Type::Any, typename pda_t, typename automaton_t, typename W>
-- 
2.43.0


From 2a1805afac3eda2c4becdde6940cc0d388cba56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:17 +0000
Subject: [PATCH 15/53] fix: insert_or_assign of tuple sets could not be
 instantiated

---
 src/include/pdaaal/utils/fut_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/utils/fut_set.h b/src/include/pdaaal/utils/fut_set.h
index 37e2782..5000991 100644
--- a/src/include/pdaaal/utils/fut_set.h
+++ b/src/include/pdaaal/utils/fut_set.h
@@ -150,7 +150,7 @@ namespace pdaaal::fut {
 
             template <typename... Args>
             auto insert_or_assign(Args &&... args) { // In set_containers insert_or_assign is just emplace. Provide it here, to have consistent interface.
-                return emplace(std::forward<Args>(args)...);
+                return this->emplace(std::forward<Args>(args)...);
             }
         };
 
-- 
2.43.0


From d3a2312c99827e9990b5061da8bcf3d79b5fd5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:09 +0000
Subject: [PATCH 16/53] fix: priority_set delivered an element again when it
 was inserted after being popped

---
 src/include/pdaaal/utils/more_algorithms.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/include/pdaaal/utils/more_algorithms.h b/src/include/pdaaal/utils/more_algorithms.h
index 53eeebf..ec9126e 100644
--- a/src/include/pdaaal/utils/more_algorithms.h
+++ b/src/include/pdaaal/utils/more_algorithms.h
@@ -101,11 +101,15 @@ namespace pdaaal {
     public:
         template<typename... Args>
         void emplace(const Weight& weight, Args... args) {
-            _queue.emplace(weight, Elem(std::forward<Args>(args)...));
+            Elem elem(std::forward<Args>(args)...);
+            if (_seen.contains(elem)) return; // Already popped, so it must not get on top again.
+            _queue.emplace(weight, std::move(elem));
         }
         template<typename... Args>
         void emplace(Weight&& weight, Args... args) {
-            _queue.emplace(std::move(weight), Elem(std::forward<Args>(args)...));
+            Elem elem(std::forward<Args>(args)...);
+            if (_seen.contains(elem)) return; // Already popped, so it must not get on top again.
+            _queue.emplace(std::move(weight), std::move(elem));
         }
         void pop() {
             assert(!_seen.contains(_queue.top().second)); // This should be the class invariant.
-- 
2.43.0


From 6dbd6d079bc6ec5186831a0d3c8b0a34565e97c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:31 +0000
Subject: [PATCH 17/53] fix: copies of an NFA lost the order of their initial
 states, and assignment kept the old language

---
 src/include/pdaaal/NFA.h | 45 ++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index 3544662..e5a2d23 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -173,7 +173,29 @@ namespace pdaaal {
         NFA(NFA&&) noexcept = default;
         NFA& operator=(NFA&&) noexcept = default;
         NFA(const NFA& other) {
-            (*this) = other;
+            std::unordered_map<state_t*, state_t*> indir;
+            for(auto& s : other._states) {
+                _states.emplace_back(std::make_unique<state_t>(*s));
+                indir[s.get()] = _states.back().get();
+            }
+            // fix links
+            for(auto& s : _states) {
+                for(auto& e : s->_edges) {
+                    e._destination = indir[e._destination];
+                }
+                for(auto& e : s->_backedges) {
+                    e.first = indir[e.first];
+                }
+            }
+            for(auto& s : other._accepting) {
+                _accepting.push_back(indir[s]);
+            }
+            for(auto& s : other._initial) {
+                _initial.push_back(indir[s]);
+            }
+            // The copied states are ordered differently.
+            std::sort(_accepting.begin(), _accepting.end());
+            std::sort(_initial.begin(), _initial.end());
         }
 
         [[nodiscard]] bool empty_accept() const {
@@ -291,25 +313,8 @@ namespace pdaaal {
 
         
         NFA& operator=(const NFA& other) {
-            std::unordered_map<state_t*, state_t*> indir;
-            for(auto& s : other._states) {
-                _states.emplace_back(std::make_unique<state_t>(*s));
-                indir[s.get()] = _states.back().get();
-            }     
-            // fix links
-            for(auto& s : _states) {
-                for(auto& e : s->_edges) {
-                    e._destination = indir[e._destination];
-                }
-                for(auto& e : s->_backedges) {
-                    e.first = indir[e.first];
-                }
-            }
-            for(auto& s : other._accepting) {
-                _accepting.push_back(indir[s]);
-            }
-            for(auto& s : other._initial) {
-                _initial.push_back(indir[s]);
+            if (this != &other) {
+                *this = NFA(other);
             }
             return *this;
         }
-- 
2.43.0


From a7cb7a97cac4afe003335f2982904ee23c3c50cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:26 +0000
Subject: [PATCH 18/53] fix: optional and starred sub-expressions accepted too
 much, and NFA states leaked when an allocation failed

---
 src/include/pdaaal/NFA.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index e5a2d23..0534647 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -323,7 +323,7 @@ namespace pdaaal {
         // construction from regex
         void concat(NFA&& other) {
             for(auto& s : other._states) {
-                _states.emplace_back(s.release());
+                _states.emplace_back(std::move(s)); // If this throws, the state must still be owned.
             }
             for(auto& sa : _accepting) {
                 for(auto& s : other._initial) {
@@ -335,6 +335,15 @@ namespace pdaaal {
         }
         
         void question_extend() {
+            if (_initial.empty() || std::any_of(_initial.begin(), _initial.end(), [](const state_t* s){ return !s->_accepting && !s->_backedges.empty(); })) {
+                // An initial state can be reached again, so making it accepting would accept more than the empty word.
+                _states.emplace_back(std::make_unique<state_t>(false));
+                auto initial = _states.back().get();
+                for(auto& i : _initial) {
+                    initial->add_epsilon_edge(i);
+                }
+                _initial = {initial};
+            }
             for(auto s : _initial) {
                 if(!s->_accepting) {
                     s->_accepting = true;
@@ -372,7 +381,7 @@ namespace pdaaal {
 
         void or_extend(NFA&& other) {
             for(auto& s : other._states) {
-                _states.emplace_back(s.release());
+                _states.emplace_back(std::move(s)); // If this throws, the state must still be owned.
             }
             _states.emplace_back(std::make_unique<state_t>(false));
             auto initial = _states.back().get();
-- 
2.43.0


From db034dfdc322d8db0a65edf6619b9d4fe0e20f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:26 +0000
Subject: [PATCH 19/53] fix: a regular expression ending in | crashed the
 parser instead of being rejected

---
 src/include/pdaaal/parsing/NfaParserGrammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/parsing/NfaParserGrammar.h b/src/include/pdaaal/parsing/NfaParserGrammar.h
index bdec27f..b606df8 100644
--- a/src/include/pdaaal/parsing/NfaParserGrammar.h
+++ b/src/include/pdaaal/parsing/NfaParserGrammar.h
@@ -55,7 +55,7 @@ namespace pdaaal {
     template<typename L, typename C>
     struct seq_expr : pegtl::seq<unary_expr<L, C>, pegtl::star<pegtl::seq<pegtl::star<ignored<C>>,unary_expr<L, C>>>> {};
     template<typename L, typename C>
-    struct nfa_expr : pegtl::list<seq_expr<L, C>, or_symbol, ignored < C>> {};
+    struct nfa_expr : pegtl::list_must<seq_expr<L, C>, or_symbol, ignored < C>> {};
     template<typename L, typename C>
     struct nfa_expr_or_empty : pegtl::opt<nfa_expr<L,C>> {};
 
-- 
2.43.0


From 6e7d6af105160fa41bece036d3186766dfb5dd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:47 +0000
Subject: [PATCH 20/53] fix: shortest pre* query of a one-label stack stopped
 at the first accepting edge, not the lightest

---
 src/include/pdaaal/Solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index f469881..4bbf835 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -167,7 +167,7 @@ namespace pdaaal {
 
         template <Trace_Type trace_type, typename W>
         static bool pre_star_accepts(internal::PAutomaton<W> &automaton, size_t state, const std::vector<uint32_t> &stack) {
-            if (stack.size() == 1) {
+            if (trace_type != Trace_Type::Shortest && stack.size() == 1) { // The first edge that accepts the stack is not necessarily the one with the smallest weight.
                 auto s_label = stack[0];
                 return automaton.accepts(state, stack) ||
                         pre_star<trace_type, W,true>(automaton, [&automaton, state, s_label](size_t from, uint32_t label, size_t to, internal::edge_annotation_t<W>, const auto&) -> bool {
-- 
2.43.0


From 88ebe0eb091892c139b54fba08b837de14a08074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:03 +0000
Subject: [PATCH 21/53] fix: rules and automata over sets of labels were wrong
 when label ids are not in label order

---
 src/include/pdaaal/PAutomaton.h |  2 +-
 src/include/pdaaal/PDA.h        | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/include/pdaaal/PAutomaton.h b/src/include/pdaaal/PAutomaton.h
index f87dc8a..298c0da 100644
--- a/src/include/pdaaal/PAutomaton.h
+++ b/src/include/pdaaal/PAutomaton.h
@@ -52,7 +52,7 @@ namespace pdaaal {
         // Construct a PAutomaton that accepts a configuration <p,w> iff states contains p and nfa accepts w.
         PAutomaton(const pda_t& pda, const NFA<label_t>& nfa, const std::vector<size_t>& states)
         : parent_t(static_cast<const internal_pda_t&>(pda), states, nfa.empty_accept()), _pda(pda) {
-            this->template construct<label_t>(nfa, states, [&pda](const auto& e){ return pda.encode_pre(e._symbols); });
+            this->template construct<label_t>(nfa, states, [&pda](const auto& e){ return pda.encode_pre_sorted(e._symbols); });
         }
         // Same, but where the NFA contains the symbols mapped to ids already.
         PAutomaton(const pda_t& pda, const NFA<uint32_t>& nfa, const std::vector<size_t>& states)
diff --git a/src/include/pdaaal/PDA.h b/src/include/pdaaal/PDA.h
index bcf8ed5..4c086b6 100644
--- a/src/include/pdaaal/PDA.h
+++ b/src/include/pdaaal/PDA.h
@@ -182,6 +182,14 @@ namespace pdaaal {
             return tpre;
         }
 
+        // For sets of labels, where ids need to be sorted. (The order of ids is the order of label insertion, which may not be the order of labels.)
+        std::vector<uint32_t> encode_pre_sorted(const std::vector<label_t> &pre) const {
+            auto tpre = encode_pre(pre);
+            std::sort(tpre.begin(), tpre.end());
+            tpre.erase(std::unique(tpre.begin(), tpre.end()), tpre.end());
+            return tpre;
+        }
+
         // Enable incremental construction of label (and state) set.
         std::pair<bool,size_t> exists_label(const label_t& label) const {
             return _label_map.exists(label);
@@ -253,12 +261,12 @@ namespace pdaaal {
 
         template<typename WT, typename = std::enable_if_t<!is_weighted<WT>>>
         void add_rule_(size_t from, size_t to, op_t op, label_t op_label, bool wildcard, const std::vector<label_t>& pre_labels) {
-            this->add_untyped_rule_impl(from, {to, op, find_labelid(op, op_label)}, wildcard, encode_pre(pre_labels));
+            this->add_untyped_rule_impl(from, {to, op, find_labelid(op, op_label)}, wildcard, encode_pre_sorted(pre_labels));
         }
 
         template<typename WT, typename = std::enable_if_t<is_weighted<WT>>>
         void add_rule_(size_t from, size_t to, op_t op, label_t op_label, bool wildcard, const std::vector<label_t>& pre_labels, typename WT::type weight = WT::zero()) {
-            this->add_untyped_rule_impl(from, {to, op, weight, find_labelid(op, op_label)}, wildcard, encode_pre(pre_labels));
+            this->add_untyped_rule_impl(from, {to, op, weight, find_labelid(op, op_label)}, wildcard, encode_pre_sorted(pre_labels));
         }
 
         template<typename WT, typename = std::enable_if_t<!is_weighted<WT>>>
-- 
2.43.0


From 41c0f8c7b8a395d0ea0b5cf12427241a50789be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:54 +0000
Subject: [PATCH 22/53] fix: a quoted state that the PDA does not have was
 silently ignored in P-automaton expressions

---
 src/pdaaal-bin/parsing/PAutomatonParser.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pdaaal-bin/parsing/PAutomatonParser.h b/src/pdaaal-bin/parsing/PAutomatonParser.h
index 624d53c..a643527 100644
--- a/src/pdaaal-bin/parsing/PAutomatonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonParser.h
@@ -41,8 +41,10 @@ namespace pdaaal::parsing {
         template<typename ParseInput, typename... States >
         explicit string_state(const ParseInput&, States&&...) { }
         template<typename ParseInput, typename... States >
-        void success(const ParseInput&, States&&... st) {
-            (st.accept_string(*this), ...);
+        void success(const ParseInput& in, States&&... st) {
+            if (!(st.accept_string(*this) && ...)) {
+                throw pegtl::parse_error("state is not found in the PDA.", in);
+            }
         }
     };
     struct string_literal : pegtl::state<string_state, pegtl::one< '"' >, pegtl::until< pegtl::one< '"' >, character > > {};
@@ -83,8 +85,8 @@ namespace pdaaal::parsing {
             }
             return found;
         }
-        void accept_string(const std::string& s) {
-            add_state(s);
+        bool accept_string(const std::string& s) {
+            return add_state(s);
         }
         [[nodiscard]] const std::function<uint32_t(const std::string&)>& get_label_map() const {
             return _label_mapping;
-- 
2.43.0


From ea12d3c95dc64fecf106fa829056026a2ee82c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:23 +0000
Subject: [PATCH 23/53] fix: a failing allocation while adding a rule lost
 labels of other rules or the predecessor entry

---
 src/include/pdaaal/internal/PDA.cpp | 10 +++++-----
 src/include/pdaaal/internal/PDA.h   |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/include/pdaaal/internal/PDA.cpp b/src/include/pdaaal/internal/PDA.cpp
index 84468cc..c73a269 100644
--- a/src/include/pdaaal/internal/PDA.cpp
+++ b/src/include/pdaaal/internal/PDA.cpp
@@ -40,12 +40,12 @@ namespace pdaaal::internal {
 
         assert(std::is_sorted(_labels.begin(), _labels.end()));
         assert(std::is_sorted(other.begin(), other.end()));
-        std::vector<uint32_t> temp_labels;
-        temp_labels.swap(_labels);
-        _labels.reserve(std::max(temp_labels.size(), other.size()));
-        std::set_union(temp_labels.begin(), temp_labels.end(),
+        std::vector<uint32_t> temp_labels; // Only replace _labels when done, so nothing is lost if an allocation fails.
+        temp_labels.reserve(std::max(_labels.size(), other.size()));
+        std::set_union(_labels.begin(), _labels.end(),
                        other.begin(), other.end(),
-                       std::back_inserter(_labels));
+                       std::back_inserter(temp_labels));
+        temp_labels.swap(_labels);
         assert(std::is_sorted(_labels.begin(), _labels.end()));
     }
 
diff --git a/src/include/pdaaal/internal/PDA.h b/src/include/pdaaal/internal/PDA.h
index c5216d2..aa7c902 100644
--- a/src/include/pdaaal/internal/PDA.h
+++ b/src/include/pdaaal/internal/PDA.h
@@ -306,8 +306,8 @@ namespace pdaaal::internal {
         }
         void add_untyped_rule_impl(size_t from, rule_t r, bool wildcard, const std::vector<uint32_t>& pre_labels) {
             add_state(std::max(from, r._to));
+            _states[r._to]._pre_states.emplace(from); // First, so no rule is without its predecessor if adding the rule fails.
             _states[from]._rules.emplace(r, labels_t()).first->second.merge(wildcard, pre_labels);
-            _states[r._to]._pre_states.emplace(from);
         }
 
     private:
-- 
2.43.0


From 106cfaf5158f7afde92fc5b27a31208457915b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:44 +0000
Subject: [PATCH 24/53] fix: the labels between sets of NFA states were wrong
 when several edges lead to the target

---
 src/include/pdaaal/NFA.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index 0534647..2eb84ee 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -292,6 +292,7 @@ namespace pdaaal {
                     result.reserve(labels.size());
                     temp_union.reserve(labels.size());
                     temp.reserve(labels.size());
+                    temp.clear();
                     if (e._negated) {
                         std::set_difference(labels.begin(), labels.end(), e._symbols.begin(), e._symbols.end(), std::back_inserter(temp));
                     } else {
-- 
2.43.0


From 9080662b888d36860cd3d5fafa780cd32bdd746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:11 +0000
Subject: [PATCH 25/53] fix: text that is not a number was taken for a numbered
 state, or escaped as a conversion error

---
 src/pdaaal-bin/parsing/PAutomatonParser.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pdaaal-bin/parsing/PAutomatonParser.h b/src/pdaaal-bin/parsing/PAutomatonParser.h
index a643527..bf5018f 100644
--- a/src/pdaaal-bin/parsing/PAutomatonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonParser.h
@@ -30,6 +30,8 @@
 #include <pdaaal/parsing/NfaParserGrammar.h>
 #include <pdaaal/PAutomaton.h>
 #include <tao/pegtl/contrib/unescape.hpp>
+#include <charconv>
+#include <limits>
 
 namespace pdaaal::parsing {
 
@@ -165,7 +167,12 @@ namespace pdaaal::parsing {
         }
         template <TraceInfoType trace_info_type, typename Input, typename W, bool ssm>
         static PAutomaton<std::string,W,size_t,ssm,trace_info_type> parse(Input& in, PDA<std::string,W,fut::type::vector, size_t, ssm>& pda) {
-            return parse<trace_info_type, size_t>(in, pda, [](const std::string& s) -> size_t { return std::stoul(s); });
+            return parse<trace_info_type, size_t>(in, pda, [](const std::string& s) -> size_t {
+                // Anything but a number is not a state of the PDA.
+                size_t id = std::numeric_limits<size_t>::max();
+                auto [end, error] = std::from_chars(s.data(), s.data() + s.size(), id);
+                return error == std::errc() && end == s.data() + s.size() ? id : std::numeric_limits<size_t>::max();
+            });
         }
         template <TraceInfoType trace_info_type, typename state_t, typename Input, typename pda_t>
         static auto parse(Input& in, pda_t& pda, const std::function<state_t(const std::string&)>& state_mapping) {
-- 
2.43.0


From f5b4b87a955f62abd3698910a6ec8293719d7c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:11 +0000
Subject: [PATCH 26/53] fix: reduction with a terminal state other than 0
 removed every rule into the terminal state

---
 src/include/pdaaal/internal/Reducer.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/include/pdaaal/internal/Reducer.h b/src/include/pdaaal/internal/Reducer.h
index f2a8be4..426e4cd 100644
--- a/src/include/pdaaal/internal/Reducer.h
+++ b/src/include/pdaaal/internal/Reducer.h
@@ -138,8 +138,8 @@ namespace pdaaal::internal {
                 }
             }
             // DO PRUNING!
-            for (size_t i = 1; i < pda.states().size(); ++i) {
-                if(i == initial_id) continue;
+            for (size_t i = 0; i < pda.states().size(); ++i) {
+                if(i == initial_id || i == terminal_id) continue;
                 auto& app = approximation[i];
                 auto& state = pda.states_mutable()[i];
                 size_t br = 0;
@@ -290,7 +290,8 @@ namespace pdaaal::internal {
             size_t cnt = 1;
             // lets start by the initial transitions
             cnt += pda.states()[initial_id]._rules.size();
-            for (size_t sid = 1; sid < pda.states().size(); ++sid) {
+            for (size_t sid = 0; sid < pda.states().size(); ++sid) {
+                if (sid == terminal_id) continue;
                 for (auto& [r,labels] : pda.states()[sid]._rules) {
                     if (r._to == terminal_id) {
                         ++cnt;
-- 
2.43.0


From 0b44c1522e23f7753d568391114d8c35d9553929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:29 +0000
Subject: [PATCH 27/53] fix: a failing allocation during reduction left rules
 out of order

---
 src/include/pdaaal/internal/PDA.h     | 2 +-
 src/include/pdaaal/internal/Reducer.h | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/include/pdaaal/internal/PDA.h b/src/include/pdaaal/internal/PDA.h
index aa7c902..8045862 100644
--- a/src/include/pdaaal/internal/PDA.h
+++ b/src/include/pdaaal/internal/PDA.h
@@ -274,7 +274,7 @@ namespace pdaaal::internal {
                 for (; rit != std::end(_states[p]._rules); ++rit) {
                     if (rit->first._to != s) {
                         if (wit != rit)
-                            *wit = *rit;
+                            *wit = std::move(*rit); // Cannot fail, so rules stay in order.
                         ++wit;
                     }
                 }
diff --git a/src/include/pdaaal/internal/Reducer.h b/src/include/pdaaal/internal/Reducer.h
index 426e4cd..3751a05 100644
--- a/src/include/pdaaal/internal/Reducer.h
+++ b/src/include/pdaaal/internal/Reducer.h
@@ -142,11 +142,14 @@ namespace pdaaal::internal {
                 if(i == initial_id || i == terminal_id) continue;
                 auto& app = approximation[i];
                 auto& state = pda.states_mutable()[i];
+                for (auto& [rule,labels] : state._rules) { // First, since this may fail to allocate.
+                    if (rule._to != terminal_id) labels.intersect(app._tos, pda.number_of_labels());
+                }
                 size_t br = 0;
                 for (size_t r = 0; r < state._rules.size(); ++r) {
                     // check rule
                     auto& [rule,labels] = state._rules[r];
-                    if (rule._to == terminal_id || labels.intersect(app._tos, pda.number_of_labels())) {
+                    if (rule._to == terminal_id || !labels.empty()) {
                         if (br != r) {
                             std::swap(state._rules[br], state._rules[r]);
                         }
-- 
2.43.0


From 1eaad387ba07cc13e36d3ffa10734b2787baa685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:48 +0000
Subject: [PATCH 28/53] fix: early-termination callbacks were called after
 their lifetime (dangling reference to a temporary)

---
 src/include/pdaaal/internal/PdaSaturation.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 1b3b68e..3fafc35 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -114,7 +114,7 @@ namespace pdaaal::internal {
         // http://www.lsv.fr/Publis/PAPERS/PDF/schwoon-phd02.pdf (page 42)
 
         p_automaton_t& _automaton;
-        const early_termination_fn2<W>& _early_termination;
+        const early_termination_fn2<W> _early_termination; // A copy, since the argument may be a temporary.
         const std::vector<typename PDA<W>::state_t>& _pda_states;
         const size_t _n_pda_states;
         const size_t _n_automaton_states;
@@ -349,7 +349,7 @@ namespace pdaaal::internal {
         // http://www.lsv.fr/Publis/PAPERS/PDF/schwoon-phd02.pdf (page 48)
 
         p_automaton_t& _automaton;
-        const early_termination_fn<W>& _early_termination;
+        const early_termination_fn<W> _early_termination; // A copy, since the argument may be a temporary.
         const std::vector<typename PDA<W>::state_t>& _pda_states;
         const size_t _n_pda_states;
         const size_t _n_Q;
@@ -520,7 +520,7 @@ namespace pdaaal::internal {
 
     private:
         p_automaton_t& _automaton;
-        const early_termination_fn2<W>& _early_termination;
+        const early_termination_fn2<W> _early_termination; // A copy, since the argument may be a temporary.
         const std::vector<typename PDA<W>::state_t>& _pda_states;
         const size_t _n_pda_states;
         const size_t _n_Q;
-- 
2.43.0


From bd92b6447a1a339e0e0e98cb583616e4f6429cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:41 +0000
Subject: [PATCH 29/53] fix: numbered states without rules were dropped when a
 pushdown system was read from JSON

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 80985c6..8d18e5b 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -435,6 +435,7 @@ namespace pdaaal::parsing {
             switch (current_context_type()) {
                 case context_type::state:
                     if constexpr (!use_state_names) {
+                        build_pda.insert_state(current_from_state); // Also states without rules are states.
                         ++current_from_state;
                     }
                     break;
-- 
2.43.0


From 844c2cec876a9acc5e6c3e096d9cda3479692866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:53 +0000
Subject: [PATCH 30/53] fix: the size in a weight-type array was never
 accepted, and nested weight-type arrays were

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 8d18e5b..0a3b356 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -569,11 +569,10 @@ namespace pdaaal::parsing {
         bool handle_index(const value_t& value) {
             if (current_context().get_index() != index) {
                 auto& s = (errors() << "error: value ");
-                print_value(s, value) << "at index " << current_context().get_index() << " in " << type << " was expected to be at index " << index << "." << std::endl;
+                print_value(s, value) << " at index " << current_context().get_index() << " in " << type << " was expected to be at index " << index << "." << std::endl;
                 return false;
             }
-            current_context().increment_index();
-            return true;
+            return true; // The index is incremented by element_done().
         }
 
         template<typename T> struct weight_to_pda_sax_handler;
@@ -657,7 +656,7 @@ namespace pdaaal::parsing {
             return error_unexpected("integer", value);
         }
         bool number_unsigned(number_unsigned_t value) {
-            if (current_context_type() == context_type::weight_array) {
+            if (!no_context() && current_context_type() == context_type::weight_array) {
                 if (!handle_index<context_type::weight_array,1>(value)) return false;
                 weight_array_size.emplace(value);
                 return element_done();
@@ -724,7 +723,7 @@ namespace pdaaal::parsing {
                 errors() << "error: Encountered start of array, but must start with an object." << std::endl;
                 return false;
             }
-            if (last_key == keys::weight_type) {
+            if (last_key == keys::weight_type && current_context_type() == context_type::initial) {
                 push_context(weight_array_context);
                 use_weight_array = true;
                 return true;
-- 
2.43.0


From e5ffe9a01e4cd8a3d906c2722ccbb9ac62f6879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:03 +0000
Subject: [PATCH 31/53] fix: a P-automaton with both named and numbered extra
 states was read with wrong states

---
 src/pdaaal-bin/parsing/PAutomatonJsonParser.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
index 14eb04f..eb4c44e 100644
--- a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
@@ -129,6 +129,7 @@ namespace pdaaal::parsing {
         automaton_t automaton;
 
         std::unordered_map<size_t,size_t> extra_state_map;
+        std::unordered_map<std::string,size_t> extra_name_map;
 
         std::string current_label;
         size_t current_from_state = 0;
@@ -172,12 +173,21 @@ namespace pdaaal::parsing {
             if constexpr(std::is_same_v<pda_state_t,std::string>) {
                 auto [exists, id] = automaton.exists_state(state);
                 if (!exists) {
-                    id = automaton.add_state(false, false); // accepting is set later.
+                    if (extra_state_map.empty()) {
+                        id = automaton.add_state(false, false); // accepting is set later.
 #ifndef NDEBUG
-                    auto id2 =
+                        auto id2 =
 #endif
-                            automaton.insert_state(state);
-                    assert(id == id2);
+                                automaton.insert_state(state);
+                        assert(id == id2);
+                    } else { // The names recorded in the automaton are for its first extra states, so after an unnamed one we use an auxiliary mapping.
+                        auto it = extra_name_map.find(state);
+                        if (it != extra_name_map.end()) {
+                            return it->second;
+                        }
+                        id = automaton.add_state(false, false); // accepting is set later.
+                        extra_name_map.emplace(state, id);
+                    }
                 }
                 return id;
             } else {
-- 
2.43.0


From 1a189f35ed59101a2cee69cfe77d0e44b5614ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:33 +0000
Subject: [PATCH 32/53] fix: additional properties with nested values were
 rejected when a pushdown system was read from JSON

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 39 +++++++++++++++++---------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 0a3b356..85064d6 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -165,6 +165,7 @@ namespace pdaaal::parsing {
         static constexpr bool expect_weight = W::is_weight;
 
         static constexpr context_t unknown_context = context_object<context_type::unknown, 0>();
+        static constexpr context_t unknown_array = context_array<context_type::unknown>();
         static constexpr context_t initial_context = context_object<context_type::initial, 1>();
         static constexpr context_t pda_context = context_object<context_type::pda, 1>();
         static constexpr context_t state_array = context_array<context_type::state_array>();
@@ -187,6 +188,11 @@ namespace pdaaal::parsing {
                 last_key = keys::pda;
             }
         }
+
+        // Is the current value (part of) an additional property?
+        [[nodiscard]] bool in_unknown() const {
+            return last_key == keys::unknown || (!no_context() && current_context_type() == context_type::unknown);
+        }
     public:
 
         explicit PdaSaxHandler(std::ostream& errors = std::cerr) : parent_t(errors) { init(); };
@@ -197,10 +203,10 @@ namespace pdaaal::parsing {
         }
 
         bool null() {
-            return last_key == keys::unknown ? element_done() : error_unexpected("null value");
+            return in_unknown() ? element_done() : error_unexpected("null value");
         }
         bool boolean(bool value) {
-            return last_key == keys::unknown ? element_done() : error_unexpected("boolean", value);
+            return in_unknown() ? element_done() : error_unexpected("boolean", value);
         }
         bool number_integer(number_integer_t value) {
             if constexpr (expect_weight && W::is_vector && W::is_signed) {
@@ -217,9 +223,10 @@ namespace pdaaal::parsing {
                     return element_done();
                 }
             }
+            if (in_unknown()) {
+                return element_done();
+            }
             switch (last_key) {
-                case keys::unknown:
-                    break;
                 case keys::weight:
                     if constexpr (expect_weight && !W::is_vector && W::is_signed) {
                         if (value >= std::numeric_limits<typename W::type>::max()) {
@@ -249,6 +256,9 @@ namespace pdaaal::parsing {
                     return element_done();
                 }
             }
+            if (in_unknown()) {
+                return element_done();
+            }
             switch (last_key) {
                 case keys::to:
                     if constexpr(use_state_names) {
@@ -267,20 +277,21 @@ namespace pdaaal::parsing {
                         current_rule._weight = value;
                     }
                     break;
-                case keys::unknown:
-                    break;
                 default:
                     return error_unexpected("unsigned", value);
             }
             return element_done();
         }
         bool number_float(number_float_t value, const string_t& /*unused*/) {
-            return last_key == keys::unknown ? element_done() : error_unexpected("float", value);
+            return in_unknown() ? element_done() : error_unexpected("float", value);
         }
         bool string(string_t& value) {
             if (no_context()) {
                 return error_unexpected("string", value);
             }
+            if (in_unknown()) {
+                return element_done();
+            }
             switch (last_key) {
                 case keys::to:
                     if constexpr (use_state_names) {
@@ -308,8 +319,6 @@ namespace pdaaal::parsing {
                     current_rule._operation = op_t::PUSH;
                     current_rule._op_label = build_pda.insert_label(value);
                     break;
-                case keys::unknown:
-                    break;
                 default:
                 case keys::none:
                     return error_unexpected("string", value);
@@ -317,7 +326,7 @@ namespace pdaaal::parsing {
             return element_done();
         }
         bool binary(binary_t& /*val*/) {
-            return last_key == keys::unknown ? element_done() : error_unexpected("binary value");
+            return in_unknown() ? element_done() : error_unexpected("binary value");
         }
         bool start_object(std::size_t /*unused*/ = std::size_t(-1)) {
             if (no_context()) {
@@ -331,6 +340,9 @@ namespace pdaaal::parsing {
                 case context_type::rule_array:
                     push_context(rule_context);
                     return true;
+                case context_type::unknown:
+                    push_context(unknown_context);
+                    return true;
                 default:
                     break;
             }
@@ -459,6 +471,10 @@ namespace pdaaal::parsing {
                 errors() << "error: Encountered start of array, but must start with an object." << std::endl;
                 return false;
             }
+            if (in_unknown()) {
+                push_context(unknown_array);
+                return true;
+            }
             switch (last_key) {
                 case keys::states:
                     if constexpr (use_state_names) {
@@ -472,9 +488,6 @@ namespace pdaaal::parsing {
                 case keys::from_label:
                     push_context(rule_array);
                     break;
-                case keys::unknown:
-                    push_context(unknown_context);
-                    break;
                 case keys::weight:
                     if constexpr (expect_weight && W::is_vector) {
                         push_context(weight_array);
-- 
2.43.0


From 2bb1000aba91b5530b9e71c16d73f82ba647501c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:48 +0000
Subject: [PATCH 33/53] fix: P-automaton edges without three elements and
 nested arrays were accepted from JSON

---
 src/pdaaal-bin/parsing/PAutomatonJsonParser.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
index eb4c44e..39bc86c 100644
--- a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
@@ -209,6 +209,9 @@ namespace pdaaal::parsing {
         bool boolean(bool value) { return error_unexpected("boolean", value); }
         bool number_integer(number_integer_t value) { return error_unexpected("integer", value); }
         bool number_unsigned(number_unsigned_t value) {
+            if (no_context()) {
+                return error_unexpected("unsigned", value);
+            }
             switch (current_context_type()) {
                 case context_type::initial_array:
                     if constexpr(std::is_same_v<pda_state_t,size_t>) {
@@ -364,6 +367,9 @@ namespace pdaaal::parsing {
                 current_label.clear();
                 return true;
             }
+            if (current_context().is_array()) { // last_key belongs to the enclosing array, not to this one.
+                return error_unexpected("start of array");
+            }
             switch (last_key) {
                 case keys::initial:
                     push_context(initial_array);
@@ -387,6 +393,10 @@ namespace pdaaal::parsing {
             }
             switch (current_context_type()) {
                 case context_type::edge_context:
+                    if (current_context().get_index() != 3) {
+                        errors() << "error: An edge should contain exactly three elements." << std::endl;
+                        return false;
+                    }
                     assert(current_from_state != std::numeric_limits<size_t>::max());
                     assert(current_to_state != std::numeric_limits<size_t>::max());
                     if (current_label.empty()) {
-- 
2.43.0


From 5d0ae273299c9a5f869d291f99e4e5153836dbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:48 +0000
Subject: [PATCH 34/53] fix: nested arrays of states, rules and weights were
 accepted from JSON

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 85064d6..f391fd7 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -475,6 +475,9 @@ namespace pdaaal::parsing {
                 push_context(unknown_array);
                 return true;
             }
+            if (current_context().is_array()) { // last_key belongs to the enclosing array, not to this one.
+                return error_unexpected("start of array");
+            }
             switch (last_key) {
                 case keys::states:
                     if constexpr (use_state_names) {
-- 
2.43.0


From 6626fe79c933902b4f3fb4a753c29c99749901f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:07 +0000
Subject: [PATCH 35/53] fix: printed P-automata without accepting states could
 not be read back

---
 src/include/pdaaal/PAutomaton.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/pdaaal/PAutomaton.h b/src/include/pdaaal/PAutomaton.h
index 298c0da..751a257 100644
--- a/src/include/pdaaal/PAutomaton.h
+++ b/src/include/pdaaal/PAutomaton.h
@@ -140,6 +140,10 @@ namespace pdaaal {
         j = json::object();
         size_t num_pda_states = automaton.pda().states().size();
         json j_edges = json::array();
+        j["accepting"] = json::array();
+        if constexpr(with_initial) {
+            j["initial"] = json::array();
+        }
         for (const auto& state : automaton.states()) {
             json j_from;
             if constexpr (skip_state_mapping) {
-- 
2.43.0


From 71d07df75071c5bafb11f962c88a40664d5dafd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:07 +0000
Subject: [PATCH 36/53] fix: a nested array was accepted after the last element
 of an instance

---
 src/pdaaal-bin/parsing/SolverInstanceJsonParser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdaaal-bin/parsing/SolverInstanceJsonParser.h b/src/pdaaal-bin/parsing/SolverInstanceJsonParser.h
index 58aab77..3e0a86b 100644
--- a/src/pdaaal-bin/parsing/SolverInstanceJsonParser.h
+++ b/src/pdaaal-bin/parsing/SolverInstanceJsonParser.h
@@ -213,7 +213,7 @@ namespace pdaaal::parsing {
                 errors() << "error: Encountered start of array, but must start with an object." << std::endl;
                 return false;
             }
-            if (last_key == keys::instance) {
+            if (last_key == keys::instance && current_context_type() == context_type::initial) {
                 push_context(instance_context);
                 return false; // Trigger callback.
             }
-- 
2.43.0


From 699a57746201903522c4229d188a32ab40e7f92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:22 +0000
Subject: [PATCH 37/53] fix: a pop operation with a label in JSON was an
 assertion failure instead of an error

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index f391fd7..97f4506 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -302,7 +302,9 @@ namespace pdaaal::parsing {
                         return false;
                     }
                 case keys::pop:
-                    assert(value.empty()); // TODO: Should this be error?
+                    if (!value.empty()) {
+                        return error_unexpected("string", value, "A pop operation has no label.");
+                    }
                     current_rule._operation = op_t::POP;
                     current_rule._op_label = std::numeric_limits<uint32_t>::max();
                     break;
-- 
2.43.0


From 7c54c31e7f4aab60eeab81fba99772bb07251d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:22 +0000
Subject: [PATCH 38/53] fix: a number was silently dropped where JSON rules
 need a vector as weight

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 97f4506..ae5050d 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -275,8 +275,8 @@ namespace pdaaal::parsing {
                             return false;
                         }
                         current_rule._weight = value;
-                    }
-                    break;
+                        break;
+                    } // Otherwise, a number is not a weight: fall through to the error.
                 default:
                     return error_unexpected("unsigned", value);
             }
-- 
2.43.0


From c21e1191586ab6f7ef2185bdf903a8b50f73a8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:55 +0000
Subject: [PATCH 39/53] fix: a rule destination near the maximal number made
 the JSON reader write out of bounds

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index ae5050d..6a4583e 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -265,6 +265,10 @@ namespace pdaaal::parsing {
                         errors() << "error: Rule destination was numeric: " << value << ", but string state names are used." << std::endl;
                         return false;
                     } else {
+                        if (value >= std::numeric_limits<uint32_t>::max()) { // States are created up to this index.
+                            errors() << "error: Rule destination " << value << " is too large. Maximum value is: " << std::numeric_limits<uint32_t>::max()-1 << std::endl;
+                            return false;
+                        }
                         current_rule._to = value;
                         break;
                     }
-- 
2.43.0


From e0644e193fe578a6362d488f9b2ba11f857cc996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:58 +0000
Subject: [PATCH 40/53] fix: states that no rule mentions exist in compiled
 instances

---
 src/include/pdaaal/PDAFactory.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/include/pdaaal/PDAFactory.h b/src/include/pdaaal/PDAFactory.h
index 15c71cd..8dfe262 100644
--- a/src/include/pdaaal/PDAFactory.h
+++ b/src/include/pdaaal/PDAFactory.h
@@ -58,6 +58,8 @@ namespace pdaaal {
         // NFAs must be already compiled before passing them to this function.
         solver_instance_t compile(const NFA<label_t>& initial_headers, const NFA<label_t>& final_headers) {
             build_pda();
+            ensure_states(initial()); // Also states that no rule mentions must exist.
+            ensure_states(accepting());
             return solver_instance_t{pda_t{std::move(_temp_pda)}, initial_headers, initial(), final_headers, accepting()};
         }
     protected:
@@ -74,6 +76,15 @@ namespace pdaaal {
         }
 
         builder_pda_t _temp_pda;
+
+    private:
+        void ensure_states(const std::vector<size_t>& states) {
+            for (auto s : states) {
+                if (s >= _temp_pda.states().size()) {
+                    _temp_pda.states_mutable().resize(s + 1);
+                }
+            }
+        }
     };
 
     template<typename T, typename W = weight<void>, TraceInfoType trace_info_type = TraceInfoType::Single>
-- 
2.43.0


From ab9766104f65fce8caad2c23ee4835cf174f9c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:11 +0000
Subject: [PATCH 41/53] fix: abstract complements of label sets by the labels
 they fully cover

---
 src/include/pdaaal/cegar/AbstractionPDA.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/cegar/AbstractionPDA.h b/src/include/pdaaal/cegar/AbstractionPDA.h
index 5b9bd18..87c106b 100644
--- a/src/include/pdaaal/cegar/AbstractionPDA.h
+++ b/src/include/pdaaal/cegar/AbstractionPDA.h
@@ -65,7 +65,7 @@ namespace pdaaal {
                 abstract_labels.erase(std::remove_if(abstract_labels.begin(), abstract_labels.end(), [this, &labels](const auto& abstract_label){
                     auto concrete = _label_abstraction.get_concrete_values(abstract_label);
                     std::sort(concrete.begin(), concrete.end());
-                    return std::includes(labels.begin(), labels.end(), concrete.begin(), concrete.end());
+                    return !std::includes(labels.begin(), labels.end(), concrete.begin(), concrete.end());
                 }), abstract_labels.end());
             }
             return std::vector<uint32_t>(abstract_labels.begin(), abstract_labels.end()); // TODO: This is not optimal. Label type in PDA should be size_t instead of uint32_t. This is a change many places...
-- 
2.43.0


From 3f81a065acd62caee636018f9c24a81efbd9d26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:36 +0000
Subject: [PATCH 42/53] fix: moved abstract solver instances keep referring to
 their own pushdown system

---
 src/include/pdaaal/cegar/AbstractionPAutomaton.h     | 6 ++++++
 src/include/pdaaal/cegar/AbstractionSolverInstance.h | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/include/pdaaal/cegar/AbstractionPAutomaton.h b/src/include/pdaaal/cegar/AbstractionPAutomaton.h
index 082ba6e..82468a6 100644
--- a/src/include/pdaaal/cegar/AbstractionPAutomaton.h
+++ b/src/include/pdaaal/cegar/AbstractionPAutomaton.h
@@ -44,6 +44,12 @@ namespace pdaaal {
                     [this](const auto& n, size_t n_id){ this->_pautomaton_to_nfastate_map.emplace(n_id, n); });
         }
 
+        AbstractionPAutomaton(AbstractionPAutomaton&& other, const AbstractionPDA<T,W>& pda) noexcept // Move constructor, but update reference to PDA.
+        : internal::PAutomaton<W>(std::move(other), pda), _pautomaton_to_nfastate_map(std::move(other._pautomaton_to_nfastate_map)) {}
+
+        AbstractionPAutomaton(AbstractionPAutomaton&&) noexcept = default;
+        AbstractionPAutomaton(const AbstractionPAutomaton&) = default;
+
         const nfastate_t* get_nfastate(size_t pautomaton_state_id) const {
             auto it = _pautomaton_to_nfastate_map.find(pautomaton_state_id);
             return it != _pautomaton_to_nfastate_map.end() ? it->second : nullptr;
diff --git a/src/include/pdaaal/cegar/AbstractionSolverInstance.h b/src/include/pdaaal/cegar/AbstractionSolverInstance.h
index 5ab6113..cac138c 100644
--- a/src/include/pdaaal/cegar/AbstractionSolverInstance.h
+++ b/src/include/pdaaal/cegar/AbstractionSolverInstance.h
@@ -44,6 +44,9 @@ namespace pdaaal {
                                   const NFA<T>& final_nfa,   const std::vector<size_t>& final_states)
                 : _pda(std::move(pda)), _product(_pda, initial_nfa, initial_states, final_nfa, final_states) {};
 
+        AbstractionSolverInstance(AbstractionSolverInstance&& other) noexcept // The product must refer to the moved PDA.
+        : _pda(std::move(other._pda)), _product(std::move(other._product), _pda) {};
+
         auto move_pda_refinement_mapping() {
             return _pda.move_label_map();
         }
-- 
2.43.0


From d9d648483c5a0127bf1b87e6f49a8fc1d8f74f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:42 +0000
Subject: [PATCH 43/53] fix: a failed insertion leaves no half-known value in
 an abstraction mapping

insert() put the key in the map before calling the mapping function and growing
the list of abstract values. When one of those threw, the key stayed behind,
mapped to abstract value 0 (or to one that does not exist) and missing from
the list of concrete values, and every later lookup believed it.
---
 src/include/pdaaal/cegar/AbstractionMapping.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/include/pdaaal/cegar/AbstractionMapping.h b/src/include/pdaaal/cegar/AbstractionMapping.h
index 27cb430..f03f030 100644
--- a/src/include/pdaaal/cegar/AbstractionMapping.h
+++ b/src/include/pdaaal/cegar/AbstractionMapping.h
@@ -177,19 +177,25 @@ namespace pdaaal {
         // returns whether a new abstract_value was added, and the id of the abstract value (new or old) corresponding to the concrete key.
         // optionally don't insert the concrete value in the backward map.
         std::pair<bool,size_t> insert(const ConcreteType& key, bool ignore_concrete = false) {
-            size_t key_id;
             if (!ignore_concrete) {
-                bool fresh_key;
-                std::tie(fresh_key, key_id) = this->_many_to_one_map.insert(key);
-                if (!fresh_key) return {false, this->_many_to_one_map.get_data(key_id)};
+                auto [found, key_id] = this->_many_to_one_map.exists(key);
+                if (found) return {false, this->_many_to_one_map.get_data(key_id)};
             }
             auto [fresh_value, value_id] = _abstract_values.insert(_map_fn(key));
             if (value_id >= this->_one_to_many_ids.size()) {
                 this->_one_to_many_ids.resize(value_id + 1);
             }
             if (!ignore_concrete) {
-                this->_many_to_one_map.get_data(key_id) = value_id;
-                this->_one_to_many_ids[value_id].push_back(key_id);
+                auto& ids = this->_one_to_many_ids[value_id];
+                ids.emplace_back(); // The key is inserted last, so that it is only in the map if all of this succeeds.
+                try {
+                    auto key_id = this->_many_to_one_map.insert(key).second;
+                    this->_many_to_one_map.get_data(key_id) = value_id;
+                    ids.back() = key_id;
+                } catch (...) {
+                    ids.pop_back();
+                    throw;
+                }
             }
             return {fresh_value, value_id};
         }
-- 
2.43.0


From 10ce997025920572da83006c345b92fbc52fd3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:44 +0000
Subject: [PATCH 44/53] fix: reports stay well-formed JSON whatever is written
 to them

Keys were written without escaping. A value or key that cannot be written
(text that is not UTF-8, a failed allocation) was found out after the entry
had been started, which left a key without a value, or an object open. And
the destructor ended the program when the output stream throws.
---
 src/pdaaal-bin/utils/json_stream.h | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/pdaaal-bin/utils/json_stream.h b/src/pdaaal-bin/utils/json_stream.h
index 7bf3db6..77c0614 100644
--- a/src/pdaaal-bin/utils/json_stream.h
+++ b/src/pdaaal-bin/utils/json_stream.h
@@ -31,6 +31,8 @@
 
 #include <nlohmann/json.hpp>
 #include <string>
+#include <utility>
+#include <vector>
 #include <iostream>
 #include <iomanip>
 
@@ -40,11 +42,13 @@ class json_stream {
 public:
     explicit json_stream(size_t indent_size = 4, std::ostream &out = std::cout) : _indent_size(indent_size), _out(out) { };
     virtual ~json_stream() {
-        close();
+        try {
+            close();
+        } catch (...) { } // The stream can be set to throw when the device fails; a destructor must not.
     }
 
     void begin_object(const std::string& key) {
-        start_entry(key);
+        start_entry(quote(key));
         _started = false;
     }
     void end_object(){
@@ -59,16 +63,25 @@ public:
     }
 
     void entry(const std::string& key, const json& value) {
-        start_entry(key) << value.dump();
+        auto name = quote(key);
+        auto text = value.dump(); // Before anything is written: this throws for text that is not UTF-8.
+        start_entry(name) << text;
     }
 
     void entry_object(const std::string& key, const json& value) {
         if (!value.is_object()) {
             entry(key,value);
         } else {
-            begin_object(key);
+            auto name = quote(key);
+            std::vector<std::pair<std::string,std::string>> members;
             for (const auto& [k, v] : value.items()) {
-                entry(k,v);
+                auto text = v.dump();
+                members.emplace_back(quote(k), std::move(text));
+            }
+            start_entry(name);
+            _started = false;
+            for (const auto& [member, text] : members) {
+                start_entry(member) << text;
             }
             end_object();
         }
@@ -85,7 +98,10 @@ private:
     std::ostream& indent() {
         return _out << std::setw(_indent * _indent_size) << "";
     }
-    std::ostream& start_entry(const std::string& key){
+    static std::string quote(const std::string& key) {
+        return json(key).dump();
+    }
+    std::ostream& start_entry(const std::string& quoted_key){
         if (!_started) {
             _out << "{" << std::endl;
             _started = true;
@@ -93,7 +109,7 @@ private:
         } else {
             _out << ',' << std::endl;
         }
-        return indent() << "\"" << key << "\" : ";
+        return indent() << quoted_key << " : ";
     }
 
     bool _started = false;
-- 
2.43.0


From e2671f6a8c0e28352f3feafd8bcc0237035fdb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:08 +0000
Subject: [PATCH 45/53] fix: measured durations follow the wall clock when it
 is set

high_resolution_clock is the system clock here: setting it back while the
stopwatch ran gave negative durations.
---
 src/pdaaal-bin/utils/stopwatch.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdaaal-bin/utils/stopwatch.h b/src/pdaaal-bin/utils/stopwatch.h
index 7fbf17c..3110725 100644
--- a/src/pdaaal-bin/utils/stopwatch.h
+++ b/src/pdaaal-bin/utils/stopwatch.h
@@ -23,7 +23,7 @@
 #include <chrono>
 
 class stopwatch {
-    using clock = std::chrono::high_resolution_clock;
+    using clock = std::chrono::steady_clock; // Not a clock that can be set: durations would jump with it.
     bool _running = false;
 
     clock::time_point _start;
-- 
2.43.0


From aa94d0c1d5e00e9ad4d73cc2a60abd490d8d6afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:08 +0000
Subject: [PATCH 46/53] fix: the duration of a running stopwatch is the time it
 has run

It was the difference to the last stop, so zero before the first one, and
negative after a restart. A stopwatch that never ran showed the time
between two clock readings.
---
 src/pdaaal-bin/utils/stopwatch.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdaaal-bin/utils/stopwatch.h b/src/pdaaal-bin/utils/stopwatch.h
index 3110725..dbd54a5 100644
--- a/src/pdaaal-bin/utils/stopwatch.h
+++ b/src/pdaaal-bin/utils/stopwatch.h
@@ -33,7 +33,7 @@ public:
     [[nodiscard]] auto started() const { return _start; }
     [[nodiscard]] auto stopped() const { return _stop; }
     [[nodiscard]] bool running() const { return _running; }
-    explicit stopwatch(bool r = true) : _running(r), _start(clock::now()), _stop(clock::now()){}
+    explicit stopwatch(bool r = true) : _running(r), _start(clock::now()), _stop(_start){}
     void start() {
         if(!_running)
         {
@@ -49,7 +49,7 @@ public:
         }
     }
 
-    [[nodiscard]] double duration() const { return std::chrono::duration_cast<std::chrono::duration<double>>(_stop-_start).count(); }
+    [[nodiscard]] double duration() const { return std::chrono::duration_cast<std::chrono::duration<double>>((_running ? clock::now() : _stop)-_start).count(); }
 
     std::ostream &operator<<(std::ostream &os) const {
         os << duration() << " s";
-- 
2.43.0


From 552dbfcac330f14cf03c01d34d8931be2286d038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:55 +0000
Subject: [PATCH 47/53] fix: the command-line tool claims success when a file
 it was asked to write is lost

---
 src/pdaaal-bin/main.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pdaaal-bin/main.cpp b/src/pdaaal-bin/main.cpp
index 41684bb..853ec15 100644
--- a/src/pdaaal-bin/main.cpp
+++ b/src/pdaaal-bin/main.cpp
@@ -57,6 +57,11 @@ public:
                 exit(-1);
             }
             out << instance->pda().to_json().dump() << std::endl;
+            out.close();
+            if (!out) {
+                std::cerr << "Could not write --print-pda-json \"" << pda_json_output << "\"" << std::endl;
+                exit(-1);
+            }
         }
         if (!solver_instance_output.empty()) {
             std::ofstream out(solver_instance_output);
@@ -65,6 +70,11 @@ public:
                 exit(-1);
             }
             out << instance->to_json().dump() << std::endl;
+            out.close();
+            if (!out) {
+                std::cerr << "Could not write --print-solver-instance \"" << solver_instance_output << "\"" << std::endl;
+                exit(-1);
+            }
         }
     }
 
-- 
2.43.0


From 3e723b7e1e508d2ead766a17fd1db96c05700830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:55 +0000
Subject: [PATCH 48/53] fix: the command-line tool claims success when its
 report is lost

---
 src/pdaaal-bin/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pdaaal-bin/main.cpp b/src/pdaaal-bin/main.cpp
index 853ec15..918a623 100644
--- a/src/pdaaal-bin/main.cpp
+++ b/src/pdaaal-bin/main.cpp
@@ -132,5 +132,10 @@ int main(int argc, const char** argv) {
         run<TraceInfoType::Single>(parsing, verifier, output);
     }
 
+    std::cout.flush();
+    if (!std::cout) {
+        std::cerr << "Could not write the result to standard output" << std::endl;
+        return -1;
+    }
     return 0;
 }
-- 
2.43.0


From ba311e60ec727944f31d94fa7c5cdd29555e75be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:14 +0000
Subject: [PATCH 49/53] fix: comparing weight vectors of different lengths
 reads beyond the shorter one

---
 src/include/pdaaal/Weight.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index ed02c25..4fd9b01 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -187,7 +187,7 @@ namespace pdaaal {
                     auto l1 = lhs.end(), l2 = rhs.end();
                     bool exhaust1 = (f1 == l1);
                     bool exhaust2 = (f2 == l2);
-                    for (; !exhaust1 || !exhaust2; exhaust1 = (++f1 == l1), exhaust2 = (++f2 == l2)) {
+                    for (; !exhaust1 || !exhaust2; exhaust1 = exhaust1 || (++f1 == l1), exhaust2 = exhaust2 || (++f2 == l2)) {
                         auto v1 = exhaust1 ? weight<Inner>::zero() : *f1; // Missing elements are implicitly zero.
                         auto v2 = exhaust2 ? weight<Inner>::zero() : *f2;
                         if (weight_impl<Inner, maximize>::less(v1, v2)) return true;
-- 
2.43.0


From ad3e70c9e1ede866cb5ed1a3f9a7cefaaeb2eafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:57 +0000
Subject: [PATCH 50/53] fix: the parsing duration leaves out the automata given
 in separate files

---
 src/pdaaal-bin/parsing/Parsing.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdaaal-bin/parsing/Parsing.h b/src/pdaaal-bin/parsing/Parsing.h
index 5e17220..7ae3f11 100644
--- a/src/pdaaal-bin/parsing/Parsing.h
+++ b/src/pdaaal-bin/parsing/Parsing.h
@@ -75,6 +75,7 @@ namespace pdaaal::parsing {
                 // Parse from separate PDA and P-automata files.
                 parsing_stopwatch.start();
                 auto pda = parse_pda();
+                parsing_stopwatch.start(); // parse_pda() stops the stopwatch.
                 auto value = std::visit([this](auto&& pda){
                     auto initial_p_automaton = json_automata ?
                                                PAutomatonJsonParser::parse<trace_info_type>(initial_pa_file, pda) :
-- 
2.43.0


From e29c3af8d2f21d5647b919b99e140534aeb72e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:55 +0000
Subject: [PATCH 51/53] fix: negative floating-point weights lie below the
 bottom weight, so diverging searches never end

---
 src/include/pdaaal/Weight.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index 4fd9b01..a10c781 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -114,8 +114,8 @@ namespace pdaaal {
             static constexpr bool is_signed = parent_t::is_signed;
         private:
             static constexpr type bottom_val = maximize ? std::numeric_limits<type>::max() - (is_signed ? 0 : 1)
-                                                        : std::numeric_limits<type>::min();
-            static constexpr type max_val = (maximize && is_signed) ? std::numeric_limits<type>::min()
+                                                        : std::numeric_limits<type>::lowest();
+            static constexpr type max_val = (maximize && is_signed) ? std::numeric_limits<type>::lowest()
                                                                     : std::numeric_limits<type>::max();
         public:
             static constexpr auto bottom = []() -> type { return bottom_val; };
-- 
2.43.0


From c8b525cfe51622d84cc37260fc70a1428a610c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:10 +0000
Subject: [PATCH 52/53] fix: post_star_accepts_no_ET with Trace_Type::Shortest
 searches for a shortest trace

The trace type was accepted but not passed on, so the search was an any-trace
search and the weight reported by get_trace<Shortest> was always zero.
---
 src/include/pdaaal/Solver.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 4bbf835..4125a10 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -253,8 +253,13 @@ namespace pdaaal {
         }
         template <Trace_Type trace_type = Trace_Type::Any, typename pda_t, typename automaton_t, typename W>
         static bool post_star_accepts_no_ET(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
-            post_star(instance.automaton());
-            return instance.template initialize_product<false,false>();
+            post_star<trace_type>(instance.automaton());
+            if constexpr (is_weighted<W> && trace_type == Trace_Type::Shortest) {
+                instance.template initialize_product<false,false,trace_type>();
+                return instance.product_automaton().has_accepting_state();
+            } else {
+                return instance.template initialize_product<false,false>();
+            }
         }
 
         template <Trace_Type trace_type = Trace_Type::Any, typename pda_t, typename automaton_t, typename W, TraceInfoType trace_info_type>
-- 
2.43.0


From 2b483858715345eb2d2284e64ca718cadd6fc347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:29 +0000
Subject: [PATCH 53/53] fix: sums of floating-point weights overflow beyond the
 bottom weight, so diverging searches give an infinite number

---
 src/include/pdaaal/Weight.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index a10c781..373b7fe 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -144,7 +144,12 @@ namespace pdaaal {
                     const type result = lhs + rhs;
                     return result == max_val ? limit : result;
                 } else {
-                    return lhs + rhs;
+                    // Likewise for floating-point weights, which would become infinite.
+                    constexpr type limit = max_val * (1 - std::numeric_limits<type>::epsilon());
+                    const type result = lhs + rhs;
+                    if (result >= std::numeric_limits<type>::max()) return maximize ? bottom_val : limit;
+                    if (result <= std::numeric_limits<type>::lowest()) return maximize ? limit : bottom_val;
+                    return result;
                 }
             };
         };
-- 
2.43.0

