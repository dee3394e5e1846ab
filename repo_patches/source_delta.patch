From e851647de526fdf3753aefe57fbffcbb48368909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 01/61] fix: to_nd swapped dimension sizes for three- and
 four-dimensional indices

---
 include/utils/utils.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index 55350c9..cab6c37 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -216,19 +216,19 @@ namespace chdr {
                 const auto w2 = _index % w1;
 
                 result = {
-                    w2 % _sizes[1U],
-                    w2 / _sizes[1U],
+                    w2 % _sizes[0U],
+                    w2 / _sizes[0U],
                     _index / w1
                 };
             }
             else if constexpr (Kd == 4U) {
-                const auto w1 = _sizes[2U] * _sizes[1U];
-                const auto w2 = w1 * _sizes[0U];
+                const auto w1 = _sizes[0U] * _sizes[1U];
+                const auto w2 = w1 * _sizes[2U];
                 const auto w3 = _index % w2;
 
                 result = {
-                    (w3 % w1) % _sizes[2U],
-                    (w3 % w1) / _sizes[2U],
+                    (w3 % w1) % _sizes[0U],
+                    (w3 % w1) / _sizes[0U],
                      w3 / w1,
                     _index / w2,
                 };
-- 
2.43.0


From f26aea06a4ae3d4d217e196aafd07028aba9264d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 02/61] fix: backtracked paths contained padding whenever path
 cost and path length differ

---
 include/solvers/base/solver.hpp | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index 0218432..18eb392 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -602,29 +602,20 @@ namespace chdr::solvers {
              *          through its parent pointers, converting each node's index into a coordinate
              *          using the dimensions provided in `_size`. The resulting path is stored in reverse order,
              *          where the first element corresponds to the root node and the last element corresponds
-             *          to the provided `_node`. The depth of the path is static, provided using the `_depth` parameter.
+             *          to the provided `_node`. The `_depth` parameter is a hint, and does not affect the result.
              *
              * @param [in] _node The node to begin backtracking from. This is assumed to be part of a structure
              *                   where nodes possess a parent pointer (`m_parent`) for traversal.
              * @param [in] _size The coordinate dimensions, used to convert an index to n-dimensional coordinates.
              *
-             * @param _depth The depth of the hierarchy, which determines the length of the resulting vector.
+             * @param _depth The expected depth of the hierarchy.
              *
              * @return A vector of n-dimensional coordinates representing the path from the root node
              *         to the provided `_node`.
              */
             template<typename node_t, typename coord_t>
-            static constexpr auto rbacktrack(const node_t& _node, const coord_t& _size, size_t _depth) {
-
-                std::vector<coord_t> result(_depth);
-
-                size_t i = 0U;
-                for (const auto* RESTRICT t = &_node; t->m_parent != nullptr; t = static_cast<const node_t*>(t->m_parent)) {
-                    result[(result.size() - 1U) - i] = utils::to_nd(static_cast<typename coord_t::value_type>(t->m_index), _size);
-                    ++i;
-                }
-
-                return result;
+            static constexpr auto rbacktrack(const node_t& _node, const coord_t& _size, [[maybe_unused]] size_t _depth) {
+                return rbacktrack(_node, _size); // The cost of a path only equals its length if every edge costs exactly one.
             }
 
             /**
@@ -633,27 +624,20 @@ namespace chdr::solvers {
              * @details This function iteratively backtracks from the specified node `_node` to its root
              *          through its parent pointers, converting each node's index into a coordinate
              *          using the dimensions provided in `_size`.
-             *          The depth of the path is static, provided using the `_depth` parameter.
+             *          The `_depth` parameter is a hint, and does not affect the result.
              *
              * @param [in] _node The node to begin backtracking from. This is assumed to be part of a structure
              *                   where nodes possess a parent pointer (`m_parent`) for traversal.
              * @param [in] _size The coordinate dimensions, used to convert an index to n-dimensional coordinates.
             *
-             * @param _depth The depth of the hierarchy, which determines the length of the resulting vector.
+             * @param _depth The expected depth of the hierarchy.
              *
              * @return A vector of n-dimensional coordinates representing the path from the root node
              *         to the provided `_node`.
              */
             template<typename node_t, typename coord_t>
-            static constexpr auto rbacktrack_noreverse(const node_t& _node, const coord_t& _size, size_t _depth) {
-
-                std::vector<coord_t> result(_depth);
-
-                for (const auto* RESTRICT t = &_node; t->m_parent != nullptr; t = static_cast<const node_t*>(t->m_parent)) {
-                    result.emplace_back(utils::to_nd(static_cast<typename coord_t::value_type>(t->m_index), _size));
-                }
-
-                return result;
+            static constexpr auto rbacktrack_noreverse(const node_t& _node, const coord_t& _size, [[maybe_unused]] size_t _depth) {
+                return rbacktrack_noreverse(_node, _size); // The cost of a path only equals its length if every edge costs exactly one.
             }
 
             /**
-- 
2.43.0


From 2f8e73e1c83079b32d5ba5da8eb7b151ec56a1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 03/61] fix: iddfs and eiddfs kept a stack whose memory was
 reset between iterations

---
 include/solvers/eiddfs.hpp | 5 +++--
 include/solvers/iddfs.hpp  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/solvers/eiddfs.hpp b/include/solvers/eiddfs.hpp
index 831296d..876b424 100644
--- a/include/solvers/eiddfs.hpp
+++ b/include/solvers/eiddfs.hpp
@@ -127,10 +127,11 @@ namespace chdr::solvers {
 
             _open.emplace_back(s, 0U);
 
-            stack<state<neighbours_t>> stack(_params.monotonic_pmr);
-
             for (size_t bound = 0U; bound < std::numeric_limits<size_t>::max(); ++bound) {
 
+                // The memory behind the stack is reset after every iteration, so it cannot outlive one.
+                stack<state<neighbours_t>> stack(_params.monotonic_pmr);
+
                 stack.emplace(_open.back(), _params);
 
                 // Main loop:
diff --git a/include/solvers/iddfs.hpp b/include/solvers/iddfs.hpp
index bbde518..92bb8a9 100644
--- a/include/solvers/iddfs.hpp
+++ b/include/solvers/iddfs.hpp
@@ -128,10 +128,11 @@ namespace chdr::solvers {
 
             _open.emplace_back(s, 0U);
 
-            stack<state<neighbours_t>> stack(_params.monotonic_pmr);
-
             for (size_t bound = 0U; bound < std::numeric_limits<size_t>::max(); ++bound) {
 
+                // The memory behind the stack is reset after every iteration, so it cannot outlive one.
+                stack<state<neighbours_t>> stack(_params.monotonic_pmr);
+
                 stack.emplace(_open.back(), _params);
 
                 // Main loop:
-- 
2.43.0


From b47c3f0800286e13ddee0d3ac2ef5bddc3ec8c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 04/61] fix: iddfs and eiddfs never terminated when no route
 exists

---
 include/solvers/eiddfs.hpp | 10 ++++++++++
 include/solvers/iddfs.hpp  | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/include/solvers/eiddfs.hpp b/include/solvers/eiddfs.hpp
index 876b424..d182bd2 100644
--- a/include/solvers/eiddfs.hpp
+++ b/include/solvers/eiddfs.hpp
@@ -134,6 +134,8 @@ namespace chdr::solvers {
 
                 stack.emplace(_open.back(), _params);
 
+                bool exhausted = true; // Whether every node was expanded without exceeding the bound.
+
                 // Main loop:
                 while (!stack.empty()) {
 
@@ -162,6 +164,10 @@ namespace chdr::solvers {
                         }
                     }
                     else {
+                        if (curr.m_depth > bound) {
+                            exhausted = false;
+                        }
+
                         if (_open.size() > 1U) {
                             _open.pop_back();
                         }
@@ -170,6 +176,10 @@ namespace chdr::solvers {
                     }
                 }
 
+                if (exhausted) { // NO SOLUTION...
+                    break;
+                }
+
                 if constexpr (solver_t::solver_utils::template has_method_reset_v<std::remove_pointer_t<std::decay_t<decltype(_params.monotonic_pmr)>>>) {
                     _params.monotonic_pmr->reset();
                 }
diff --git a/include/solvers/iddfs.hpp b/include/solvers/iddfs.hpp
index 92bb8a9..08635fa 100644
--- a/include/solvers/iddfs.hpp
+++ b/include/solvers/iddfs.hpp
@@ -135,6 +135,8 @@ namespace chdr::solvers {
 
                 stack.emplace(_open.back(), _params);
 
+                bool exhausted = true; // Whether every node was expanded without exceeding the bound.
+
                 // Main loop:
                 while (!stack.empty()) {
 
@@ -159,6 +161,10 @@ namespace chdr::solvers {
                         }
                     }
                     else {
+                        if (curr.m_depth > bound) {
+                            exhausted = false;
+                        }
+
                         if (_open.size() > 1U) {
                             _open.pop_back();
                         }
@@ -166,6 +172,10 @@ namespace chdr::solvers {
                     }
                 }
 
+                if (exhausted) { // NO SOLUTION...
+                    break;
+                }
+
                 if constexpr (solver_t::solver_utils::template has_method_reset_v<std::remove_pointer_t<std::decay_t<decltype(_params.monotonic_pmr)>>>) {
                     _params.monotonic_pmr->reset();
                 }
-- 
2.43.0


From a604fd9dc5593a842c5e950c52ad114a2f9e68b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 05/61] fix: eiddfs accessed a node after its removal

---
 include/solvers/eiddfs.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/solvers/eiddfs.hpp b/include/solvers/eiddfs.hpp
index d182bd2..7f6a089 100644
--- a/include/solvers/eiddfs.hpp
+++ b/include/solvers/eiddfs.hpp
@@ -168,11 +168,12 @@ namespace chdr::solvers {
                             exhausted = false;
                         }
 
+                        _closed.erase(curr.m_index);
+
                         if (_open.size() > 1U) {
                             _open.pop_back();
                         }
                         stack.pop();
-                        _closed.erase(curr.m_index);
                     }
                 }
 
-- 
2.43.0


From 39566a98adac6254a85198b0226ce0f88e336d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 06/61] fix: idbest_first removed the root of the search when
 raising its bound

---
 include/solvers/idbest_first.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/solvers/idbest_first.hpp b/include/solvers/idbest_first.hpp
index eb853d3..29850e1 100644
--- a/include/solvers/idbest_first.hpp
+++ b/include/solvers/idbest_first.hpp
@@ -172,13 +172,17 @@ namespace chdr::solvers {
                             }
                         }
                         else {
-                            _open.pop_back();
+                            if (_open.size() > 1U) {
+                                _open.pop_back();
+                            }
                             stack.pop();
                         }
                     }
                     else {
                         min = utils::min(min, curr.m_hScore);
-                        _open.pop_back();
+                        if (_open.size() > 1U) {
+                            _open.pop_back();
+                        }
                         stack.pop();
                     }
                 }
-- 
2.43.0


From 4bd033de047ccb903e832844c0f2994956c697c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 07/61] fix: fringe dropped nodes whose successors lay beyond
 the threshold and could loop forever

---
 include/solvers/fringe.hpp | 47 ++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/include/solvers/fringe.hpp b/include/solvers/fringe.hpp
index ee0cb5c..26c0c3e 100644
--- a/include/solvers/fringe.hpp
+++ b/include/solvers/fringe.hpp
@@ -128,31 +128,36 @@ namespace chdr::solvers {
 
             auto max_threshold = _params.h(start, end) * _params.weight;
 
+            auto next_threshold = std::numeric_limits<scalar_t>::max();
+
+            // Nodes with at least one successor beyond the current threshold.
+            open_set_t deferred(_open.get_allocator());
+
               _open.emplace_back(s, static_cast<scalar_t>(0), max_threshold);
             _closed.emplace(s);
 
             // Main loop:
             while (LIKELY(!_open.empty())) {
 
-                auto next_threshold = std::numeric_limits<scalar_t>::max();
-
                 for (auto& curr : _open) {
 
                     if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
                         node* RESTRICT curr_ptr(nullptr);
 
+                        bool defer(false);
+
                         for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(curr.m_index)) {
 
                             if (const auto& n = solver_t::get_data(n_data, _params); n.active) {
 
-                                const auto g = curr.m_gScore + n.distance;
-                                const auto f = g + (_params.h(n.coord, end) * _params.weight);
+                                // Check if node is not already visited:
+                                if (!_closed.contains(n.index)) {
 
-                                if (f <= max_threshold) {
+                                    const auto g = curr.m_gScore + n.distance;
+                                    const auto f = g + (_params.h(n.coord, end) * _params.weight);
 
-                                    // Check if node is not already visited:
-                                    if (!_closed.contains(n.index)) {
+                                    if (f <= max_threshold) {
 
                                         solver_t::solver_utils::preallocate_emplace(_closed, n.index, _capacity, _params.maze.count());
 
@@ -180,13 +185,17 @@ namespace chdr::solvers {
                                             );
                                         }
                                     }
-                                }
-                                else {
-                                    next_threshold = utils::min(next_threshold, f);
-                                    break;
+                                    else {
+                                        next_threshold = utils::min(next_threshold, f);
+                                        defer = true;
+                                    }
                                 }
                             }
                         }
+
+                        if (defer) {
+                            deferred.emplace_back(curr.m_index, curr.m_gScore, curr.m_fScore, curr.m_parent);
+                        }
                     }
                     else { // SOLUTION REACHED...
 
@@ -202,12 +211,16 @@ namespace chdr::solvers {
                     }
                 }
 
-                if (!_next.empty()) {
-                    std::swap(_open, _next);
-                    _next.clear();
-                }
+                std::swap(_open, _next);
+                _next.clear();
 
-                max_threshold = next_threshold;
+                // Raise the threshold once there is nothing left to expand within it.
+                if (_open.empty()) {
+                    std::swap(_open, deferred);
+
+                    max_threshold  = next_threshold;
+                    next_threshold = std::numeric_limits<scalar_t>::max();
+                }
             }
 
             return std::vector<coord_t>{};
@@ -228,7 +241,7 @@ namespace chdr::solvers {
 
             std::pmr::vector<node> next(_params.heterogeneous_pmr);
             try {
-                open.reserve(capacity / 8U);
+                next.reserve(capacity / 8U);
             }
             catch (...) {} // NOLINT(*-empty-catch)
 
-- 
2.43.0


From 91b6bed6c54a6b1e7a499af6cc51533885556f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 08/61] fix: building a graph from a grid skipped adjacent
 junctions and repeated stale edges

---
 include/mazes/graph.hpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index a9f83a0..3e9729f 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -193,6 +193,7 @@ namespace chdr::mazes {
                                         const auto nIdx1 = static_cast<index_t>(utils::to_1d(nCoord1, size));
 
                                         local_closed.clear();
+                                        thread_connections.clear();
                                         stack.emplace(std::make_pair(nIdx1, static_cast<scalar_t>(1)));
 
                                         while (!stack.empty()) {
@@ -203,29 +204,25 @@ namespace chdr::mazes {
                                             if (local_closed.find(currIdx) == local_closed.end()) {
 
                                                  local_closed.insert(currIdx);
-                                                global_closed.insert(currIdx);
 
-                                                for (const auto& n3 : _grid.get_neighbours(currIdx)) {
+                                                if (_grid.is_transitory(currIdx)) {
+                                                    global_closed.insert(currIdx);
 
-                                                    if (const auto& [sActive3, sCoord3] = n3; sActive3) {
+                                                    for (const auto& n3 : _grid.get_neighbours(currIdx)) {
 
-                                                        if (const auto s = static_cast<index_t>(utils::to_1d(sCoord3, size));
-                                                            global_closed.find(s) == global_closed.end()
-                                                        ) {
+                                                        if (const auto& [sActive3, sCoord3] = n3; sActive3) {
 
-                                                            const edge_t next = std::make_pair(s, currDistance + static_cast<scalar_t>(1));
-
-                                                            if (_grid.is_transitory(s)) {
-                                                                stack.emplace(std::move(next));
-                                                            }
-                                                            else {
-                                                                thread_connections[nIdx1].emplace_back(std::move(next));
-                                                                stack.clear();
-                                                                break;
+                                                            if (const auto s = static_cast<index_t>(utils::to_1d(sCoord3, size));
+                                                                global_closed.find(s) == global_closed.end()
+                                                            ) {
+                                                                stack.emplace(std::make_pair(s, currDistance + static_cast<scalar_t>(1)));
                                                             }
                                                         }
                                                     }
                                                 }
+                                                else {
+                                                    thread_connections[nIdx1].emplace_back(currIdx, currDistance);
+                                                }
                                             }
                                         }
 
-- 
2.43.0


From 9c53e104495e23591a0faa4ab8e953d407717329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 09/61] fix: graph pruning left edges to removed nodes and
 could remove every node of a cycle

---
 include/mazes/graph.hpp | 46 +++++++++++++++--------------------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index 3e9729f..18a2d9d 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -367,51 +367,39 @@ namespace chdr::mazes {
 
                 for (const auto& entry : m_entries) {
 
-                    if (m_entries.size() > 2U) {
+                    if (m_entries.size() - nodesToRemove.size() > 2U) {
 
                         if (auto& [node, neighbours] = entry; neighbours.size() == 2U) {
 
-                            dirty = ConsolidateAfterPrune;
-
                             auto it = neighbours.begin();
 
-                            auto& [n1_id, n1_cost] = *it;
-                            auto& [n2_id, n2_cost] = *(++it);
+                            const auto [n1_id, n1_cost] = *it;
+                            const auto [n2_id, n2_cost] = *(++it);
 
                             auto s1 = m_entries.find(n1_id);
                             auto s2 = m_entries.find(n2_id);
 
-                            // Merge the connections from the current node with its neighbours:
+                            // Only nodes which connect two other, distinct nodes can be merged.
+                            if (n1_id != n2_id && n1_id != node && n2_id != node && s1 != m_entries.end() && s2 != m_entries.end()) {
 
-                            if (s1 != m_entries.end() && n1_id != n2_id) {
-                                auto& set = s1->second;
-                                auto  sn  = std::find(set.begin(), set.end(), std::make_pair(node, n1_cost));
+                                auto& set1 = s1->second;
+                                auto& set2 = s2->second;
 
-                                if (sn != set.end()) {
+                                auto sn1 = std::find(set1.begin(), set1.end(), std::make_pair(node, n1_cost));
+                                auto sn2 = std::find(set2.begin(), set2.end(), std::make_pair(node, n2_cost));
 
-                                    if (neighbour_t new_vertex { n2_id, sn->second + n2_cost };
-                                        std::find(set.begin(), set.end(), new_vertex) == set.end()
-                                    ) {
-                                        set.emplace_back(new_vertex);
-                                    }
-                                }
-                            }
+                                if (sn1 != set1.end() && sn2 != set2.end()) {
 
-                            if (s2 != m_entries.end() && n1_id != n2_id) {
-                                auto& set = s2->second;
-                                auto  sn  = std::find(set.begin(), set.end(), std::make_pair(node, n2_cost));
+                                    dirty = ConsolidateAfterPrune;
 
-                                if (sn != set.end()) {
-                                    neighbour_t new_vertex{n1_id, sn->second + n1_cost};
-                                    set.erase(sn);
-                                    if (std::find(set.begin(), set.end(), new_vertex) == set.end()) {
-                                        set.emplace_back(new_vertex);
-                                    }
+                                    // Merge the connections from the current node with its neighbours:
+                                    *sn1 = neighbour_t { n2_id, n1_cost + n2_cost };
+                                    *sn2 = neighbour_t { n1_id, n1_cost + n2_cost };
+
+                                    // Remove the current node from the graph.
+                                    nodesToRemove.emplace_back(node);
                                 }
                             }
-
-                            // Remove the current node from the graph.
-                            nodesToRemove.emplace_back(node);
                         }
                     }
                     else {
-- 
2.43.0


From 20c1030fef4174874243b1479bc2eca11fbf6944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 10/61] fix: graph adjacency lists dropped vertices without
 outgoing edges

---
 include/mazes/graph.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index 18a2d9d..9ebfa5d 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -109,6 +109,8 @@ namespace chdr::mazes {
 
             for (const auto& entry : _adjacency_list) {
 
+                add(index);
+
                 for (const auto& edge : entry) {
                     add(index, edge);
                 }
-- 
2.43.0


From b1711582b43b03f76809dfbb5c42d02b66d0d1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 11/61] fix: pushing to stack and queue did not compile

---
 include/types/containers/queue.hpp | 4 ++--
 include/types/containers/stack.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/types/containers/queue.hpp b/include/types/containers/queue.hpp
index fbfac29..61ead62 100644
--- a/include/types/containers/queue.hpp
+++ b/include/types/containers/queue.hpp
@@ -203,13 +203,13 @@ namespace chdr {
          * @brief Adds an element to the queue.
          * @param [in] _value  A constant reference to the value to add to the queue.
          */
-        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push(_value); }
+        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push_back(_value); }
 
         /**
          * @brief Adds an element to the queue, using move semantics.
          * @param [in] _value  A constant reference to the value to add to the queue.
          */
-        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push(std::move(_value)); }
+        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push_back(std::move(_value)); }
 
         /**
          * @brief Constructs an element in place, adding it to the queue.
diff --git a/include/types/containers/stack.hpp b/include/types/containers/stack.hpp
index 6db33cb..e4df76e 100644
--- a/include/types/containers/stack.hpp
+++ b/include/types/containers/stack.hpp
@@ -213,13 +213,13 @@ namespace chdr {
          * @brief Adds an element to the stack.
          * @param [in] _value  A constant reference to the value to add to the stack.
          */
-        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push(_value); }
+        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push_back(_value); }
 
         /**
          * @brief Adds an element to the stack, using move semantics.
          * @param [in] _value  A constant reference to the value to add to the stack.
          */
-        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push(std::move(_value)); }
+        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push_back(std::move(_value)); }
 
         /**
          * @brief Constructs an element in place, adding it to the stack.
-- 
2.43.0


From 289dc5b788c1d152861c180417edaf2caeb89a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 12/61] fix: iterating an existence_set did not compile

---
 include/types/containers/existence_set.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/types/containers/existence_set.hpp b/include/types/containers/existence_set.hpp
index eb4d009..4b5ccc7 100644
--- a/include/types/containers/existence_set.hpp
+++ b/include/types/containers/existence_set.hpp
@@ -410,10 +410,10 @@ namespace chdr {
          */
         [[maybe_unused, nodiscard]] constexpr auto capacity() const noexcept { return c.capacity(); }
 
-        using iterator_t               = typename std::vector<width_t>::              iterator;
-        using const_iterator_t         = typename std::vector<width_t>::        const_iterator;
-        using reverse_iterator_t       = typename std::vector<width_t>::      reverse_iterator;
-        using const_reverse_iterator_t = typename std::vector<width_t>::const_reverse_iterator;
+        using iterator_t               = typename std::pmr::vector<width_t>::              iterator;
+        using const_iterator_t         = typename std::pmr::vector<width_t>::        const_iterator;
+        using reverse_iterator_t       = typename std::pmr::vector<width_t>::      reverse_iterator;
+        using const_reverse_iterator_t = typename std::pmr::vector<width_t>::const_reverse_iterator;
 
         [[maybe_unused, nodiscard]] constexpr       iterator_t  begin()       noexcept { return c.begin();  }
         [[maybe_unused, nodiscard]] constexpr const_iterator_t  begin() const noexcept { return c.begin();  }
-- 
2.43.0


From 0104b3b42fb0aa8fa10efe050cd0f43e811e6c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 13/61] fix: heap only maintained its order for binary heaps

---
 include/types/containers/heap.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index a715c37..108c42e 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -191,7 +191,7 @@ namespace chdr {
             );
 
             if (!empty()) {
-                for (size_t i = size() / Kd; i >= 1U; --i) {
+                for (size_t i = (size() + Kd - 2U) / Kd; i >= 1U; --i) {
                     sort_down(c[i]);
                 }
             }
@@ -216,7 +216,7 @@ namespace chdr {
             );
 
             if (!empty()) {
-                for (size_t i = size() / Kd; i >= 1U; --i) {
+                for (size_t i = (size() + Kd - 2U) / Kd; i >= 1U; --i) {
                     sort_down(c[i]);
                 }
             }
@@ -538,7 +538,7 @@ namespace chdr {
                 auto value_to_insert = std::move(c[i]);
 
                 while (i > 1U) {
-                    const auto p = i / Kd;
+                    const auto p = ((i - 2U) / Kd) + 1U;
 
                     if (comp(c[p], value_to_insert)) {
                         c[i] = std::move(c[p]);
@@ -573,8 +573,8 @@ namespace chdr {
 
                 while (true) {
 
-                    const size_t c0 = i * Kd;         // First child index
-                    const size_t cn = c0 + (Kd - 1U); // Last child index in range
+                    const size_t c0 = ((i - 1U) * Kd) + 2U; // First child index
+                    const size_t cn = c0 + (Kd - 1U);       // Last child index in range
 
                     if (c0 < c.size()) {
 
-- 
2.43.0


From e41553c1697af2a825e86595122c4abcd3abbef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 14/61] fix: erasing from a heap could break its order or
 ignore the last element

---
 include/types/containers/heap.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index 108c42e..51e325c 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -429,9 +429,9 @@ namespace chdr {
 
             assert(i < c.size() && "(Out of Bounds) Item does not exist in Heap.");
 
-            if (i < size()) {
+            if (i <= size()) {
 
-                if (i == size() - 1U) {
+                if (i == size()) {
                     c.pop_back(); // If the item to remove is the last item, just remove it.
                 }
                 else {
@@ -441,7 +441,7 @@ namespace chdr {
                     // Restore heap property:
                     if (size() > 1U) {
 
-                        if (i > 1U && comp(c[i], c[i / Kd])) {
+                        if (i > 1U && comp(c[((i - 2U) / Kd) + 1U], c[i])) {
                             sort_up(c[i]);
                         }
                         else {
@@ -872,7 +872,7 @@ namespace chdr {
                     c[distance_from_start] = std::move(c.back());
                     c.pop_back();
                     if (size_before > 1U) {
-                        if (distance_from_start > 1U && comp(c[distance_from_start], c[distance_from_start / Kd])) {
+                        if (distance_from_start > 1U && comp(c[((distance_from_start - 2U) / Kd) + 1U], c[distance_from_start])) {
                             sort_up(c[distance_from_start]);
                         }
                         else {
-- 
2.43.0


From 586b675f7366d03c5849adaf49da78e6ce71d14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 15/61] fix: dequeue accessed a removed element when emptying a
 heap

---
 include/types/containers/heap.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index 51e325c..a730d7d 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -470,12 +470,7 @@ namespace chdr {
 
             T result(std::move(top()));
 
-            if (size() > 0U) {
-                c[1U] = std::move(c.back());
-            }
-            c.pop_back();
-
-            sort_down(c[1U]);
+            pop();
 
             return result;
         }
-- 
2.43.0


From 13c39f50eaaf1d16c0c04449d7fc2fa51dac3577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 16/61] fix: back of a heap was read past its end

---
 include/types/containers/heap.hpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index a730d7d..6a19fb4 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -301,12 +301,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(end().base());
-            }
-            else {
-                return *end();
-            }
+            return c.back();
         }
 
         /**
@@ -318,12 +313,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(end().base());
-            }
-            else {
-                return *end();
-            }
+            return c.back();
         }
 
         /**
-- 
2.43.0


From 37cc770d61feca553bd24eadff1747e114fff9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 17/61] fix: reverse iteration over a heap visited its
 uninitialised super element

---
 include/types/containers/heap.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index 6a19fb4..6534c46 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -916,9 +916,9 @@ namespace chdr {
         [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t  rbegin() const noexcept { return c.rbegin();  }
         [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t crbegin() const noexcept { return c.crbegin(); }
 
-        [[maybe_unused, nodiscard]] constexpr reverse_iterator_t        rend()       noexcept { return c.rend();  }
-        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t  rend() const noexcept { return c.rend();  }
-        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t crend() const noexcept { return c.crend(); }
+        [[maybe_unused, nodiscard]] constexpr reverse_iterator_t        rend()       noexcept { return c.rend() - 1U;  }
+        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t  rend() const noexcept { return c.rend() - 1U;  }
+        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t crend() const noexcept { return c.crend() - 1U; }
 
     };
 
-- 
2.43.0


From f8effcdf26ec8b4aba0d414de5f7e3c8252b14c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 18/61] fix: erasing a range from a heap ran past its end

---
 include/types/containers/heap.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index 6534c46..ee29ca0 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -892,8 +892,12 @@ namespace chdr {
          * @param _last Iterator to the element past the last one to erase.
          */
         constexpr void erase(iterator_t _first, iterator_t _last) {
-            for (auto it = _first; it != _last;) {
-                it = erase(it); // Keep erasing until the last element is removed.
+            c.erase(_first, _last);
+
+            if (!empty()) {
+                for (size_t i = (size() + Kd - 2U) / Kd; i >= 1U; --i) {
+                    sort_down(c[i]);
+                }
             }
         }
 
-- 
2.43.0


From 4d4f829934b6fe257b0a46c5d32aedb7b1aa40a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 19/61] fix: inserting into a heap by position broke its order

---
 include/types/containers/heap.hpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index ee29ca0..1b06bcb 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -511,14 +511,15 @@ namespace chdr {
          *
          * @param _item [in] The item to be sorted upwards within the heap. The item's new position
          *                    will adhere to the heap's rules after execution.
+         * @return The index of the item's new position within the underlying container.
          */
-        HOT constexpr void sort_up(const T& _item) noexcept {
+        HOT constexpr size_t sort_up(const T& _item) noexcept {
 
-            if (size() > 1U) {
+            auto i = index_of(_item);
 
-                auto i = index_of(_item);
+            assert(i < c.size() && "(Out of Bounds) Item does not exist in Heap.");
 
-                assert(i < c.size() && "(Out of Bounds) Item does not exist in Heap.");
+            if (size() > 1U) {
 
                 auto value_to_insert = std::move(c[i]);
 
@@ -536,6 +537,8 @@ namespace chdr {
 
                 c[i] = std::move(value_to_insert);
             }
+
+            return i;
         }
 
         /**
@@ -816,10 +819,9 @@ namespace chdr {
          * @return iterator_t An iterator pointing to the inserted element.
          */
         constexpr iterator_t insert(iterator_t _position, const T& _value) {
-            auto distance_from_start = std::distance(c.begin(), _position) - 1U; // Adjust for super element.
-            c.insert(_position, _value);
-            sort_up(c[distance_from_start]);
-            return c.begin() + distance_from_start + 1U; // Return iterator to inserted element
+            (void)_position; // The position of an element is determined by the order of the heap.
+            c.push_back(_value);
+            return c.begin() + sort_up(c.back()); // Return iterator to inserted element
         }
 
         /**
@@ -830,10 +832,9 @@ namespace chdr {
          * @return iterator_t An iterator pointing to the inserted element.
          */
         constexpr iterator_t insert(iterator_t _position, T&& _value) {
-            auto distance_from_start = std::distance(c.begin(), _position) - 1U; // Adjust for super element.
-            c.insert(_position, std::move(_value));
-            sort_up(c[distance_from_start]);
-            return c.begin() + distance_from_start + 1U; // Return iterator to inserted element
+            (void)_position; // The position of an element is determined by the order of the heap.
+            c.push_back(std::move(_value));
+            return c.begin() + sort_up(c.back()); // Return iterator to inserted element
         }
 
         /**
-- 
2.43.0


From ed885e5665f69f9d2268159a6bf1b1e0bea70ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 20/61] fix: testing whether a grid contains a coordinate did
 not compile

---
 include/mazes/grid.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/mazes/grid.hpp b/include/mazes/grid.hpp
index 7eba226..e273fd8 100644
--- a/include/mazes/grid.hpp
+++ b/include/mazes/grid.hpp
@@ -298,7 +298,13 @@ namespace chdr::mazes {
          * @return `true` if the provided coordinate lies within the bounds of the grid. Otherwise, `false`.
          */
         [[nodiscard]] constexpr bool contains(const coord_t& _id) const noexcept {
-            return std::all_of(0U, s_rank, [&](size_t _i) noexcept { return _id[_i] < m_size[_i]; });
+            bool result = true;
+
+            for (size_t i = 0U; i < s_rank && result; ++i) {
+                result = _id[i] < m_size[i];
+            }
+
+            return result;
         }
 
         /**
@@ -759,7 +765,13 @@ namespace chdr::mazes {
          * @return `true` if the provided coordinate lies within the bounds of the grid. Otherwise, `false`.
          */
         [[nodiscard]] constexpr bool contains(const coord_t& _id) const noexcept {
-            return std::all_of(0U, s_rank, [&](size_t _i) noexcept { return _id[_i] < m_size[_i]; });
+            bool result = true;
+
+            for (size_t i = 0U; i < s_rank && result; ++i) {
+                result = _id[i] < m_size[i];
+            }
+
+            return result;
         }
 
         /**
-- 
2.43.0


From 85373ba9f30ef6281389c2e9d1506ad889b4dae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:46 +0000
Subject: [PATCH 21/61] fix: solving from a list of arguments did not compile

---
 include/solvers/base/solver.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index 18eb392..fa841cb 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -831,7 +831,8 @@ namespace chdr::solvers {
         constexpr
 #endif // __cplusplus >= 202003L
         static auto solve(Args&&... _args) {
-            return solve(std::forward<Args>(_args)...);
+            const params_t params { std::forward<Args>(_args)... };
+            return solve(params);
         }
 
         /**
-- 
2.43.0


From c2861e5909e5d0103b55fb5739b3aef6691951f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:13 +0000
Subject: [PATCH 22/61] fix: iddfs, eiddfs, eidastar and eidbest_first did not
 compile for graphs

---
 include/solvers/eidastar.hpp      | 4 ++--
 include/solvers/eidbest_first.hpp | 4 ++--
 include/solvers/eiddfs.hpp        | 4 ++--
 include/solvers/iddfs.hpp         | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/solvers/eidastar.hpp b/include/solvers/eidastar.hpp
index 4973aff..ac25aee 100644
--- a/include/solvers/eidastar.hpp
+++ b/include/solvers/eidastar.hpp
@@ -106,8 +106,8 @@ namespace chdr::solvers {
 
             node curr;
 
-                     neighbours_t            neighbours;
-            typename neighbours_t::size_type neighbours_idx;
+            neighbours_t neighbours;
+            size_t       neighbours_idx;
 
             [[nodiscard]] state(node& _curr, const params_t& _params) :
                 curr(_curr.m_index, _curr.m_gScore, _curr.m_fScore),
diff --git a/include/solvers/eidbest_first.hpp b/include/solvers/eidbest_first.hpp
index 9a40b7f..3bea134 100644
--- a/include/solvers/eidbest_first.hpp
+++ b/include/solvers/eidbest_first.hpp
@@ -99,8 +99,8 @@ namespace chdr::solvers {
 
             node curr;
 
-                     neighbours_t            neighbours;
-            typename neighbours_t::size_type neighbours_idx;
+            neighbours_t neighbours;
+            size_t       neighbours_idx;
 
             [[nodiscard]] state(const node& _curr, const params_t& _params) :
                 curr(_curr.m_index, _curr.m_hScore),
diff --git a/include/solvers/eiddfs.hpp b/include/solvers/eiddfs.hpp
index 7f6a089..e3664cc 100644
--- a/include/solvers/eiddfs.hpp
+++ b/include/solvers/eiddfs.hpp
@@ -97,8 +97,8 @@ namespace chdr::solvers {
         template <typename neighbours_t>
         struct state final {
 
-                     neighbours_t            neighbours;
-            typename neighbours_t::size_type neighbours_idx;
+            neighbours_t neighbours;
+            size_t       neighbours_idx;
 
             [[nodiscard]] state(const node& _curr, const params_t& _params) :
                 neighbours(_params.maze.template get_neighbours<params_t::octile_neighbours::value>(_curr.m_index)),
diff --git a/include/solvers/iddfs.hpp b/include/solvers/iddfs.hpp
index 08635fa..1cb5c28 100644
--- a/include/solvers/iddfs.hpp
+++ b/include/solvers/iddfs.hpp
@@ -98,8 +98,8 @@ namespace chdr::solvers {
         template <typename neighbours_t>
         struct state final {
 
-                     neighbours_t            neighbours;
-            typename neighbours_t::size_type neighbours_idx;
+            neighbours_t neighbours;
+            size_t       neighbours_idx;
 
             [[nodiscard]] state(const node& _curr, const params_t& _params) :
                 neighbours(_params.maze.template get_neighbours<params_t::octile_neighbours::value>(_curr.m_index)),
-- 
2.43.0


From 9e49bf22ad58a94da71be0ff9375fe31fa5a84b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:31 +0000
Subject: [PATCH 23/61] fix: eidbest_first and eidastar revisited the root of
 the search once its bound was raised

---
 include/solvers/eidastar.hpp      | 2 +-
 include/solvers/eidbest_first.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/solvers/eidastar.hpp b/include/solvers/eidastar.hpp
index ac25aee..980da6c 100644
--- a/include/solvers/eidastar.hpp
+++ b/include/solvers/eidastar.hpp
@@ -151,7 +151,7 @@ namespace chdr::solvers {
 
             do {
                 stack.emplace(_open.back(), _params);
-                transposition_table[_open.back().m_index] = bound;
+                transposition_table[_open.back().m_index] = _open.back().m_fScore;
 
                 auto min = std::numeric_limits<scalar_t>::max();
 
diff --git a/include/solvers/eidbest_first.hpp b/include/solvers/eidbest_first.hpp
index 3bea134..ea53600 100644
--- a/include/solvers/eidbest_first.hpp
+++ b/include/solvers/eidbest_first.hpp
@@ -141,7 +141,7 @@ namespace chdr::solvers {
             do {
 
                 stack.emplace(_open.back(), _params);
-                transposition_table[_open.back().m_index] = bound;
+                transposition_table[_open.back().m_index] = _open.back().m_hScore;
 
                 auto min = std::numeric_limits<scalar_t>::max();
 
-- 
2.43.0


From aa084268eb24ce5fa5734f2da1589c7ef0588abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:31 +0000
Subject: [PATCH 24/61] fix: idastar and eidastar accepted a goal beyond the
 bound, returning costlier routes

---
 include/solvers/eidastar.hpp | 2 +-
 include/solvers/idastar.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/solvers/eidastar.hpp b/include/solvers/eidastar.hpp
index 980da6c..d30cdbc 100644
--- a/include/solvers/eidastar.hpp
+++ b/include/solvers/eidastar.hpp
@@ -176,7 +176,7 @@ namespace chdr::solvers {
 
                                     _open.emplace_back(n.index, g, f);
 
-                                    if (n.index != e) { // SEARCH FOR SOLUTION...
+                                    if (n.index != e || f > bound) { // SEARCH FOR SOLUTION...
                                         stack.emplace(_open.back(), _params);
                                     }
                                     else { // SOLUTION REACHED...
diff --git a/include/solvers/idastar.hpp b/include/solvers/idastar.hpp
index 9432266..5db6286 100644
--- a/include/solvers/idastar.hpp
+++ b/include/solvers/idastar.hpp
@@ -167,7 +167,7 @@ namespace chdr::solvers {
 
                                     _open.emplace_back(n.index, g, f);
 
-                                    if (n.index != e) { // SEARCH FOR SOLUTION...
+                                    if (n.index != e || f > bound) { // SEARCH FOR SOLUTION...
                                         stack.emplace(_open.back(), _params);
                                     }
                                     else { // SOLUTION REACHED...
-- 
2.43.0


From b95aacef5b11a00eeb673dc22208feae86c6bce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:31 +0000
Subject: [PATCH 25/61] fix: astar estimated distances to the start of the
 search rather than to its goal

---
 include/solvers/astar.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/solvers/astar.hpp b/include/solvers/astar.hpp
index 7c113bd..005464c 100644
--- a/include/solvers/astar.hpp
+++ b/include/solvers/astar.hpp
@@ -119,13 +119,11 @@ namespace chdr::solvers {
         template <typename open_set_t, typename closed_set_t>
         [[nodiscard]] HOT static constexpr auto solve_internal(open_set_t& _open, closed_set_t& _closed, size_t _capacity, const params_t& _params) {
 
-            constexpr bool do_reverse = !solver_t::solver_utils::template is_graph_v<decltype(_params.maze)> && params_t::reverse_equivalence::value;
+            const auto&   end = _params.end;
+            const auto& start = _params.start;
 
-            const auto&   end = do_reverse ? _params.start : _params.end;
-            const auto& start = do_reverse ? _params.end   : _params.start;
-
-            const auto s = utils::to_1d(_params.start, _params.size);
-            const auto e = utils::to_1d(_params.end,   _params.size);
+            const auto s = utils::to_1d(start, _params.size);
+            const auto e = utils::to_1d(end,   _params.size);
 
               _open.emplace_nosort(s, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
             _closed.emplace(s);
-- 
2.43.0


From 5a8e8d2968304f32f8d7295253b03946c200de2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 26/61] fix: astar and gstar closed nodes on first sight,
 returning costlier routes through weighted mazes

---
 include/solvers/astar.hpp |  9 +++++++--
 include/solvers/gstar.hpp | 10 ++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/solvers/astar.hpp b/include/solvers/astar.hpp
index 005464c..02f7886 100644
--- a/include/solvers/astar.hpp
+++ b/include/solvers/astar.hpp
@@ -126,7 +126,6 @@ namespace chdr::solvers {
             const auto e = utils::to_1d(end,   _params.size);
 
               _open.emplace_nosort(s, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
-            _closed.emplace(s);
 
             // Main loop:
             while (LIKELY(!_open.empty())) {
@@ -136,6 +135,13 @@ namespace chdr::solvers {
 
                 if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
+                    // Skip nodes which were already expanded via a route that is no longer.
+                    if (_closed.contains(curr.m_index)) {
+                        continue;
+                    }
+
+                    solver_t::solver_utils::preallocate_emplace(_closed, curr.m_index, _capacity, _params.maze.count());
+
                     node* RESTRICT curr_ptr(nullptr);
 
                     for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(curr.m_index)) {
@@ -144,7 +150,6 @@ namespace chdr::solvers {
 
                             // Check if node is not already visited:
                             if (!_closed.contains(n.index)) {
-                                solver_t::solver_utils::preallocate_emplace(_closed, n.index, _capacity, _params.maze.count());
 
                                 if (curr_ptr == nullptr) {
                                     curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
diff --git a/include/solvers/gstar.hpp b/include/solvers/gstar.hpp
index cbdc538..22d6654 100644
--- a/include/solvers/gstar.hpp
+++ b/include/solvers/gstar.hpp
@@ -126,7 +126,6 @@ namespace chdr::solvers {
             const auto e = utils::to_1d(end,   _params.size);
 
               _open.emplace_nosort(s, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
-            _closed.emplace(s);
 
             // Main loop:
             while (LIKELY(!_open.empty())) {
@@ -136,6 +135,14 @@ namespace chdr::solvers {
 
                 if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
+                    // Skip nodes which were already expanded via a route that is no longer.
+                    if (_closed.contains(curr.m_index)) {
+                        curr.expunge(_params.homogeneous_pmr);
+                        continue;
+                    }
+
+                    solver_t::solver_utils::preallocate_emplace(_closed, curr.m_index, _capacity, _params.maze.count());
+
                     node* RESTRICT curr_ptr(nullptr);
 
                     for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(curr.m_index)) {
@@ -144,7 +151,6 @@ namespace chdr::solvers {
 
                             // Check if node is not already visited:
                             if (!_closed.contains(n.index)) {
-                                solver_t::solver_utils::preallocate_emplace(_closed, n.index, _capacity, _params.maze.count());
 
                                 if (curr_ptr == nullptr) {
                                     curr_ptr = new (_params.homogeneous_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
-- 
2.43.0


From 719b2d58d8ee7ae9ac996e1bc44ad5a119d2be23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 27/61] fix: jps and gjps closed jump points on first sight,
 returning costlier or invalid routes

---
 include/solvers/gjps.hpp | 10 ++++++++--
 include/solvers/jps.hpp  |  9 +++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/solvers/gjps.hpp b/include/solvers/gjps.hpp
index c9cceee..b6e5db5 100644
--- a/include/solvers/gjps.hpp
+++ b/include/solvers/gjps.hpp
@@ -316,7 +316,6 @@ namespace chdr::solvers {
                 const auto e = utils::to_1d(end,   _params.size);
 
                   _open.emplace_nosort(s, ZZ, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
-                _closed.emplace(s);
 
                 // Main loop:
                 while (LIKELY(!_open.empty())) {
@@ -326,6 +325,14 @@ namespace chdr::solvers {
 
                     if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
+                        // Skip nodes which were already expanded via a route that is no longer.
+                        if (_closed.contains(curr.m_index)) {
+                            curr.expunge(_params.homogeneous_pmr);
+                            continue;
+                        }
+
+                        solver_t::solver_utils::preallocate_emplace(_closed, curr.m_index, _capacity, _params.maze.count());
+
                         node* RESTRICT curr_ptr(nullptr);
 
                         const auto coord = utils::to_nd(curr.m_index, _params.size);
@@ -339,7 +346,6 @@ namespace chdr::solvers {
                                 const scalar_t nDistance = heuristics::octile_distance<scalar_t>(coord, nCoord);
 
                                 if (!_closed.contains(n)) {
-                                    solver_t::solver_utils::preallocate_emplace(_closed, n, _capacity, _params.maze.count());
 
                                     if (curr_ptr == nullptr) {
                                         curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
diff --git a/include/solvers/jps.hpp b/include/solvers/jps.hpp
index ec4f83a..f529a2e 100644
--- a/include/solvers/jps.hpp
+++ b/include/solvers/jps.hpp
@@ -336,7 +336,6 @@ namespace chdr::solvers {
                 const auto e = utils::to_1d(end,   _params.size);
 
                   _open.emplace_nosort(s, ZZ, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
-                _closed.emplace(s);
 
                 // Main loop:
                 while (LIKELY(!_open.empty())) {
@@ -346,6 +345,13 @@ namespace chdr::solvers {
 
                     if (curr.m_index != e) { // SEARCH FOR SOLUTION...
 
+                        // Skip nodes which were already expanded via a route that is no longer.
+                        if (_closed.contains(curr.m_index)) {
+                            continue;
+                        }
+
+                        solver_t::solver_utils::preallocate_emplace(_closed, curr.m_index, _capacity, _params.maze.count());
+
                         node* RESTRICT curr_ptr(nullptr);
 
                         const auto coord = utils::to_nd(curr.m_index, _params.size);
@@ -359,7 +365,6 @@ namespace chdr::solvers {
                                 const scalar_t nDistance = heuristics::octile_distance<scalar_t>(coord, nCoord);
 
                                 if (!_closed.contains(n)) {
-                                    solver_t::solver_utils::preallocate_emplace(_closed, n, _capacity, _params.maze.count());
 
                                     if (curr_ptr == nullptr) {
                                         curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
-- 
2.43.0


From 0d1ee9d880378a9ec0e66fe3e11d993f2086adf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 28/61] fix: jps and gjps reached the goal diagonally between
 two obstacles

---
 include/solvers/gjps.hpp | 13 ++++++++-----
 include/solvers/jps.hpp  | 13 ++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/solvers/gjps.hpp b/include/solvers/gjps.hpp
index b6e5db5..484b6aa 100644
--- a/include/solvers/gjps.hpp
+++ b/include/solvers/gjps.hpp
@@ -252,14 +252,17 @@ namespace chdr::solvers {
         template <typename maze_t>
         [[nodiscard]] static constexpr neighbour_t jump(const maze_t& _maze, const coord_t& _current, const direction_t& _direction, const coord_t& _end) {
 
-            if (UNLIKELY(_current == _end)) { // SOLUTION REACHED...
+            const auto& neighbours = _maze.template get_neighbours<true>(_current);
+            const auto& map = s_lookup[static_cast<size_t>(_direction)];
+
+            if (!is_straight(_direction) && !neighbours[map[TM]].first && !neighbours[map[ML]].first) { // BLOCKED...
+                return { false, _current };
+            }
+            else if (UNLIKELY(_current == _end)) { // SOLUTION REACHED...
                 return { true, _current };
             }
             else { // SEARCH FOR SOLUTION...
 
-                const auto& neighbours = _maze.template get_neighbours<true>(_current);
-                const auto& map = s_lookup[static_cast<size_t>(_direction)];
-
                 const auto check_forced = [&neighbours, &map](const size_t _a, const size_t _b) ALWAYS_INLINE {
                     return neighbours[map[_a]].first && !neighbours[map[_b]].first;
                 };
@@ -273,7 +276,7 @@ namespace chdr::solvers {
                         return jump(_maze, neighbours[map[MR]].second, _direction, _end);
                     }
                 }
-                else if (neighbours[map[TM]].first || neighbours[map[ML]].first) { // DIAGONAL (if not blocked)...
+                else { // DIAGONAL...
 
                     if (check_forced(TR, TM) || check_forced(BL, ML)) { // FORCED:
                         return { true, _current };
diff --git a/include/solvers/jps.hpp b/include/solvers/jps.hpp
index f529a2e..5f3ca5d 100644
--- a/include/solvers/jps.hpp
+++ b/include/solvers/jps.hpp
@@ -272,14 +272,17 @@ namespace chdr::solvers {
         template <typename maze_t>
         [[nodiscard]] static constexpr neighbour_t jump(const maze_t& _maze, const coord_t& _current, const direction_t& _direction, const coord_t& _end) {
 
-            if (UNLIKELY(_current == _end)) { // SOLUTION REACHED...
+            const auto& neighbours = _maze.template get_neighbours<true>(_current);
+            const auto& map = s_lookup[static_cast<size_t>(_direction)];
+
+            if (!is_straight(_direction) && !neighbours[map[TM]].first && !neighbours[map[ML]].first) { // BLOCKED...
+                return { false, _current };
+            }
+            else if (UNLIKELY(_current == _end)) { // SOLUTION REACHED...
                 return { true, _current };
             }
             else { // SEARCH FOR SOLUTION...
 
-                const auto& neighbours = _maze.template get_neighbours<true>(_current);
-                const auto& map = s_lookup[static_cast<size_t>(_direction)];
-
                 const auto check_forced = [&neighbours, &map](const size_t _a, const size_t _b) ALWAYS_INLINE {
                     return neighbours[map[_a]].first && !neighbours[map[_b]].first;
                 };
@@ -293,7 +296,7 @@ namespace chdr::solvers {
                         return jump(_maze, neighbours[map[MR]].second, _direction, _end);
                     }
                 }
-                else if (neighbours[map[TM]].first || neighbours[map[ML]].first) { // DIAGONAL (if not blocked)...
+                else { // DIAGONAL...
 
                     if (check_forced(TR, TM) || check_forced(BL, ML)) { // FORCED:
                         return { true, _current };
-- 
2.43.0


From dade5cac486b9158481ed2d2353d50160b621c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 29/61] fix: octile_distance overestimated distances along all
 but the first axis and off the diagonals

---
 include/utils/heuristics.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/utils/heuristics.hpp b/include/utils/heuristics.hpp
index 9798c0c..234ac8f 100644
--- a/include/utils/heuristics.hpp
+++ b/include/utils/heuristics.hpp
@@ -97,24 +97,25 @@ namespace chdr {
 
             constexpr auto Kd = std::tuple_size_v<std::decay_t<coord_t>>;
 
-            scalar_t result = chebyshev_distance<scalar_t, coord_t>(_a, _b);
+            // The longest axis is travelled diagonally for as far as the second longest axis extends.
+            scalar_t  longest{0};
+            scalar_t diagonal{0};
 
-            bool straight = false;
             for (size_t i = 0U; i < Kd; ++i) {
 
-                if (_a[0] == _b[0]) {
-                    straight = true;
-
-                    if constexpr (Kd > 4U) { break; }
+                const auto val = static_cast<scalar_t>(utils::abs(static_cast<signed>(_b[i]) - static_cast<signed>(_a[i])));
+                if (val > longest) {
+                    diagonal = longest;
+                    longest  = val;
+                }
+                else if (val > diagonal) {
+                    diagonal = val;
                 }
             }
 
-            if (!straight) {
-                constexpr auto sqrt2 = utils::sqrt<scalar_t>(2.0);
-                result *= sqrt2;
-            }
+            constexpr auto sqrt2 = utils::sqrt<scalar_t>(2.0);
 
-            return result;
+            return longest + (diagonal * (sqrt2 - static_cast<scalar_t>(1)));
         }
 
         /**
-- 
2.43.0


From bcf192c2b22d8a1ba6a8f5acb243671106aa3957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 30/61] fix: smastar and osmastar discarded every open node
 comparing equal to an improved one

---
 include/solvers/osmastar.hpp | 9 ++++++++-
 include/solvers/smastar.hpp  | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/solvers/osmastar.hpp b/include/solvers/osmastar.hpp
index d61b899..cd57177 100644
--- a/include/solvers/osmastar.hpp
+++ b/include/solvers/osmastar.hpp
@@ -13,6 +13,7 @@
  * @file osmastar.hpp
  */
 
+#include <algorithm>
 #include <limits>
 #include <set>
 #include <type_traits>
@@ -271,7 +272,13 @@ namespace chdr::solvers {
                                         if (const auto g = curr.m_gScore + n.distance; g < search->second.m_gScore) {
                                             const auto h = _params.h(n.coord, _params.end) * _params.weight;
 
-                                            _open.erase(search->second);
+                                            // Other nodes may compare equal to this one, so find it by its index.
+                                            const auto [first, last] = _open.equal_range(search->second);
+                                            const auto it = std::find_if(first, last, [&n](const node& _other) ALWAYS_INLINE { return _other.m_index == n.index; });
+                                            if (it != last) {
+                                                _open.erase(it);
+                                            }
+
                                             _open.emplace(all_nodes[n.index] = node(n.index, g, g + h, curr.m_index));
 
                                             complete = false;
diff --git a/include/solvers/smastar.hpp b/include/solvers/smastar.hpp
index 8bffa96..e500607 100644
--- a/include/solvers/smastar.hpp
+++ b/include/solvers/smastar.hpp
@@ -13,6 +13,7 @@
  * @file smastar.hpp
  */
 
+#include <algorithm>
 #include <limits>
 #include <set>
 #include <type_traits>
@@ -272,7 +273,13 @@ namespace chdr::solvers {
                                         if (const auto g = curr.m_gScore + n.distance; g < search->second.m_gScore) {
                                             const auto h = _params.h(n.coord, _params.end) * _params.weight;
 
-                                            _open.erase(search->second);
+                                            // Other nodes may compare equal to this one, so find it by its index.
+                                            const auto [first, last] = _open.equal_range(search->second);
+                                            const auto it = std::find_if(first, last, [&n](const node& _other) ALWAYS_INLINE { return _other.m_index == n.index; });
+                                            if (it != last) {
+                                                _open.erase(it);
+                                            }
+
                                             _open.emplace(all_nodes[n.index] = node(n.index, g, g + h, curr.m_index));
 
                                             complete = false;
-- 
2.43.0


From 885925ecad58da471b5bebd5dab900b63d56ea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 31/61] fix: mgstar returned costlier routes through graphs,
 and routes with loops under memory pressure

---
 include/solvers/mgstar.hpp | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/solvers/mgstar.hpp b/include/solvers/mgstar.hpp
index 8eb3964..eac53c9 100644
--- a/include/solvers/mgstar.hpp
+++ b/include/solvers/mgstar.hpp
@@ -160,6 +160,16 @@ namespace chdr::solvers {
             }
         }
 
+        [[nodiscard]] HOT static bool is_ancestor(const managed_node<index_t, node>* _parent, const index_t& _index) noexcept {
+
+            bool result = false;
+            for (auto* p = _parent; p != nullptr && !result; p = p->m_parent) {
+                result = p->m_index == _index;
+            }
+
+            return result;
+        }
+
         template <typename open_set_t, typename closed_set_t, typename expunct_set_t>
         [[nodiscard]] HOT static auto desaturate(open_set_t& _open, closed_set_t& _closed, expunct_set_t& _expunct, size_t& _dynamic_allocations, const params_t& _params) {
 
@@ -189,6 +199,9 @@ namespace chdr::solvers {
             constexpr bool optimising = true;
             constexpr bool do_reverse = !solver_t::solver_utils::template is_graph_v<decltype(_params.maze)> && params_t::reverse_equivalence::value;
 
+            // In a uniform space, a node is first seen on its cheapest route. Otherwise, its route is final once expanded.
+            constexpr bool close_on_sight = !solver_t::solver_utils::template is_graph_v<decltype(_params.maze)>;
+
             const auto&   end = do_reverse ? _params.start : _params.end;
             const auto& start = do_reverse ? _params.end   : _params.start;
 
@@ -219,14 +232,21 @@ namespace chdr::solvers {
 
                     node* RESTRICT curr_ptr(nullptr);
 
-                    if (!best_solution.has_value() || curr.m_gScore < best_solution->m_gScore) {
+                    // The root is always (re)expanded; a saturated search resumes from it.
+                    const bool pending = close_on_sight || curr.m_parent == nullptr || !_closed.contains(curr.m_index);
+
+                    if (pending && (!best_solution.has_value() || curr.m_gScore < best_solution->m_gScore)) {
+
+                        if constexpr (!close_on_sight) {
+                            solver_t::solver_utils::preallocate_emplace(_closed, curr.m_index, _capacity, _params.maze.count());
+                        }
 
                         for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(curr.m_index)) {
 
                             if (const auto& n = solver_t::get_data(n_data, _params); n.active) {
 
-                                // Check if node is not already visited:
-                                if (!_closed.contains(n.index)) {
+                                // Check if node is not already visited (memory saturation may have re-opened those on the route here):
+                                if (!_closed.contains(n.index) && !is_ancestor(curr.m_parent, n.index)) {
 
                                     // Attempt to resolve the issue of memory saturation.
                                     bool full = memory_usage() >= _params.memory_limit;
@@ -235,7 +255,9 @@ namespace chdr::solvers {
                                     }
 
                                     if (!full) {
-                                        solver_t::solver_utils::preallocate_emplace(_closed, n.index, _capacity, _params.maze.count());
+                                        if constexpr (close_on_sight) {
+                                            solver_t::solver_utils::preallocate_emplace(_closed, n.index, _capacity, _params.maze.count());
+                                        }
 
                                         if (curr_ptr == nullptr) {
                                             curr_ptr = new (_params.homogeneous_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr)); dynamic_allocations++;
-- 
2.43.0


From c12cfaebc2a1bdb5f2b4531e46c49e4ec24c41a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 32/61] fix: the successor count of managed nodes overflowed
 beyond 255 successors

---
 include/solvers/base/managed_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/base/managed_node.hpp b/include/solvers/base/managed_node.hpp
index a1ccda5..a5ba2fa 100644
--- a/include/solvers/base/managed_node.hpp
+++ b/include/solvers/base/managed_node.hpp
@@ -48,7 +48,7 @@ namespace chdr::solvers {
     private:
 
         using  node_t = std::conditional_t<std::is_void_v<derived>, managed_node<index_t>, derived>;
-        using count_t = uint8_t;
+        using count_t = index_t; // A node has no more successors than there are nodes.
 
     public:
 
-- 
2.43.0


From 3ea9d4719964cfda54de6b25b3ae90486214739e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:51 +0000
Subject: [PATCH 33/61] fix: heterogeneous_pool returned misaligned memory, and
 memory past the end of its blocks

---
 include/types/pmr/heterogeneous_pool.hpp | 41 +++++++++++++++++-------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index 94b075b..ce7541f 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -106,6 +106,10 @@ namespace chdr {
         std::vector<block> m_blocks;
         std::map<size_t, block> m_free;
 
+        [[nodiscard]] HOT static size_t align_offset(const uint8_t* _p, size_t _alignment) noexcept {
+            return static_cast<size_t>(-reinterpret_cast<uintptr_t>(_p)) & (_alignment - 1U);
+        }
+
         HOT uint8_t* expand(size_t _bytes, size_t _alignment) noexcept {
 
             assert(_bytes > 0U && "Allocation size must be greater than zero.");
@@ -137,7 +141,7 @@ namespace chdr {
                     bool success = false;
                     for (size_t i = 0U; i < remaining_size; ++i) {
 
-                        if (m_free.try_emplace(remaining_size - i, remaining_size, _alignment, result + utils::max(_bytes, _alignment)).second) {
+                        if (m_free.try_emplace(remaining_size - i, remaining_size, _alignment, result + _bytes).second) {
                             success = true;
                             break;
                         }
@@ -166,30 +170,38 @@ namespace chdr {
             return result;
         }
 
-        HOT uint8_t* allocate_from_free(size_t _bytes) {
+        HOT uint8_t* allocate_from_free(size_t _bytes, size_t _alignment) {
 
             assert(_bytes > 0U && "Allocation size must be greater than zero.");
 
             uint8_t* result = nullptr;
 
-            // Find the smallest free block that fits:
+            // Find the smallest free block that fits, once aligned:
+            size_t offset = 0U;
             auto it = m_free.lower_bound(_bytes);
+            for (; it != m_free.end(); ++it) {
 
-            if (it != m_free.end() && it->second.size >= _bytes) {
+                offset = align_offset(it->second.data, _alignment);
+                if (it->second.size >= _bytes && it->second.size - _bytes >= offset) {
+                    break;
+                }
+            }
+
+            if (it != m_free.end()) {
 
                 // Extract the matching block without performing a full tree rebalance:
                 typename std::map<size_t, block>::node_type node = m_free.extract(it);
 
-                result = node.mapped().data;
+                result = node.mapped().data + offset;
 
                 // Consume block or adjust the remaining size:
-                size_t remaining_size = node.mapped().size - _bytes;
+                size_t remaining_size = node.mapped().size - offset - _bytes;
                 if (remaining_size != 0U) {
 
                     // Update with adjusted size:
                     node.key() = remaining_size;
                     node.mapped().size = remaining_size;
-                    node.mapped().data += utils::max(_bytes, node.mapped().alignment);
+                    node.mapped().data = result + _bytes;
 
                     m_free.insert(std::move(node)); // Reinsert (node is consumed otherwise).
                 }
@@ -257,18 +269,23 @@ namespace chdr {
                 uint8_t* aligned_ptr { nullptr };
 
                 // Attempt to allocate from the stack block:
-                if (aligned_bytes < MaxStackAllocationSize && m_stack_write + aligned_bytes <= s_stack_block_size) {
+                if (aligned_bytes < _bytes) {
+                    throw std::bad_alloc(); // Size is not representable.
+                }
 
-                    aligned_ptr = m_stack_block + ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U));
-                    m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + aligned_bytes;
+                if (const size_t aligned_write = m_stack_write + align_offset(m_stack_block + m_stack_write, _alignment);
+                    aligned_bytes < MaxStackAllocationSize && aligned_write <= s_stack_block_size && aligned_bytes <= s_stack_block_size - aligned_write
+                ) {
+                    aligned_ptr = m_stack_block + aligned_write;
+                    m_stack_write = aligned_write + aligned_bytes;
                 }
 
                 if (aligned_ptr == nullptr) {
 
                     // Attempt to find a free block, or create one otherwise:
-                    aligned_ptr = allocate_from_free(aligned_bytes);
+                    aligned_ptr = allocate_from_free(aligned_bytes, _alignment);
                     if (UNLIKELY(aligned_ptr == nullptr)) {
-                        aligned_ptr = expand(_bytes, _alignment);
+                        aligned_ptr = expand(aligned_bytes, _alignment);
                     }
                 }
 
-- 
2.43.0


From 7810a4f894ab3f97ff774f0a18d599fe7ca71152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:54 +0000
Subject: [PATCH 34/61] fix: heterogeneous_pool never recycled deallocated
 memory, and failed on free blocks of equal size

---
 include/types/pmr/heterogeneous_pool.hpp | 81 ++++++++++++------------
 1 file changed, 42 insertions(+), 39 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index ce7541f..7283a3f 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -16,6 +16,7 @@
 #include <cassert>
 #include <cstddef>
 #include <cstdint>
+#include <iterator>
 #include <limits>
 #include <map>
 #include <new>
@@ -104,7 +105,7 @@ namespace chdr {
         size_t m_block_width;         // Size of the current block.
 
         std::vector<block> m_blocks;
-        std::map<size_t, block> m_free;
+        std::multimap<size_t, block> m_free;
 
         [[nodiscard]] HOT static size_t align_offset(const uint8_t* _p, size_t _alignment) noexcept {
             return static_cast<size_t>(-reinterpret_cast<uintptr_t>(_p)) & (_alignment - 1U);
@@ -133,23 +134,7 @@ namespace chdr {
                     remaining_size != 0U
                 ) {
 
-                    /*
-                     * Attempt to insert new block into free list.
-                     * Repeat with a smaller key upon collision.
-                     * If insertion is impossible, throw.
-                     */
-                    bool success = false;
-                    for (size_t i = 0U; i < remaining_size; ++i) {
-
-                        if (m_free.try_emplace(remaining_size - i, remaining_size, _alignment, result + _bytes).second) {
-                            success = true;
-                            break;
-                        }
-                    }
-
-                    if (UNLIKELY(!success)) {
-                        throw std::bad_alloc();
-                    }
+                    m_free.emplace(remaining_size, block(remaining_size, _alignment, result + _bytes));
                 }
 
                 m_block_width = utils::min((m_block_width * 3U) / 2U, s_max_heap_block_size);
@@ -190,7 +175,7 @@ namespace chdr {
             if (it != m_free.end()) {
 
                 // Extract the matching block without performing a full tree rebalance:
-                typename std::map<size_t, block>::node_type node = m_free.extract(it);
+                typename std::multimap<size_t, block>::node_type node = m_free.extract(it);
 
                 result = node.mapped().data + offset;
 
@@ -210,6 +195,15 @@ namespace chdr {
             return result;
         }
 
+        void forget_stack_block(const heterogeneous_pool& _other) noexcept {
+
+            // Memory within the stack block of another pool cannot be recycled, as it does not outlive that pool.
+            for (auto it = m_free.begin(); it != m_free.end();) {
+                const auto* const data = it->second.data;
+                it = data >= _other.m_stack_block && data < _other.m_stack_block + s_stack_block_size ? m_free.erase(it) : std::next(it);
+            }
+        }
+
         /**
          * @brief Frees all memory blocks managed by the memory pool.
          *
@@ -336,39 +330,45 @@ namespace chdr {
             assert(_bytes > 0U && "Allocation size must be greater than zero.");
             assert((_alignment & (_alignment - 1U)) == 0U && "Alignment must be a power of two.");
 
-            if (_bytes != 0U) {
+            if (_bytes == 0U) {
                 // No-op. (See C++17 standard.)
             }
             else {
-                if (((m_stack_write + (_bytes + _alignment - 1U)) & ~(_alignment - 1U)) > s_stack_block_size) {
+                auto* data = static_cast<uint8_t*>(_p);
+                auto  size = (_bytes + _alignment - 1U) & ~(_alignment - 1U); // Size of the block, as allocated.
 
-                    if constexpr (Coalescing) {
+                if constexpr (Coalescing) {
 
-                        auto it = m_free.lower_bound(_bytes);
+                    auto it = m_free.lower_bound(size);
 
-                        // Merge with next block if adjacent:
-                        if (it != m_free.end() && _bytes + static_cast<uint8_t*>(_p) == it->second.data) {
-                            _bytes    += it->second.size;
-                            _alignment = utils::max(it->second.alignment, _alignment);
+                    // Merge with next block if adjacent:
+                    if (it != m_free.end() && data + size == it->second.data) {
+                        size       += it->second.size;
+                        _alignment  = utils::max(it->second.alignment, _alignment);
 
-                            it = m_free.erase(it);
-                        }
+                        it = m_free.erase(it);
+                    }
 
-                        // Merge with previous block if adjacent:
-                        if (it != m_free.begin()) {
-                            --it;
+                    // Merge with previous block if adjacent:
+                    if (it != m_free.begin()) {
+                        --it;
 
-                            if (it->second.data + it->second.size == _p) {
-                                _p         = it->second.data;
-                                _bytes    += it->second.size;
-                                _alignment = utils::max(it->second.alignment, _alignment);
+                        if (it->second.data + it->second.size == data) {
+                            data        = it->second.data;
+                            size       += it->second.size;
+                            _alignment  = utils::max(it->second.alignment, _alignment);
 
-                                m_free.erase(it);
-                            }
+                            m_free.erase(it);
                         }
                     }
+                }
 
-                    m_free.try_emplace(_bytes, _bytes, _alignment, static_cast<uint8_t*>(_p));
+                try {
+                    m_free.emplace(size, block(size, _alignment, data));
+                }
+                catch (...) { // NOLINT(*-empty-catch)
+
+                    /* The memory is not recycled until the pool is reset or released. */
                 }
 
 #if CHDR_DIAGNOSTICS == 1
@@ -455,6 +455,7 @@ namespace chdr {
             m_blocks             (std::move(_other.m_blocks)  ),
             m_free               (std::move(_other.m_free  )  )
         {
+            forget_stack_block(_other);
             _other.release();
         }
 
@@ -473,6 +474,7 @@ namespace chdr {
                 m_blocks              = std::move(_other.m_blocks);
                 m_free                = std::move(_other.m_free  );
 
+                forget_stack_block(_other);
                 _other.release();
             }
             return *this;
@@ -511,6 +513,7 @@ namespace chdr {
             }
             catch (...) {
                   m_free.clear();
+                cleanup();
                 m_blocks.clear();
             }
 
-- 
2.43.0


From dee38ad97f4d81bc7f6fc41fd931a218f2b20f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:54 +0000
Subject: [PATCH 35/61] fix: pools corrupted their list of blocks when memory
 ran out

---
 include/types/pmr/heterogeneous_pool.hpp |  6 ++++--
 include/types/pmr/homogeneous_pool.hpp   |  6 ++++--
 include/types/pmr/monotonic_pool.hpp     | 10 +++++++---
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index 7283a3f..00d2156 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -147,9 +147,11 @@ namespace chdr {
                 if (result != nullptr) {
                     // ReSharper disable once CppDFAUnreachableCode
                     operator delete(result, static_cast<std::align_val_t>(_alignment));
-                    result = nullptr;
 
-                    m_blocks.pop_back();
+                    if (!m_blocks.empty() && m_blocks.back().data == result) {
+                        m_blocks.pop_back();
+                    }
+                    result = nullptr;
                 }
             }
             return result;
diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index bbe3c76..0faaa3c 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -149,9 +149,11 @@ namespace chdr {
                 if (result != nullptr) {
                     // ReSharper disable once CppDFAUnreachableCode
                     operator delete(result, static_cast<std::align_val_t>(_alignment));
-                    result = nullptr;
 
-                    m_blocks.pop_back();
+                    if (!m_blocks.empty() && m_blocks.back().data == result) {
+                        m_blocks.pop_back();
+                    }
+                    result = nullptr;
                 }
             }
 
diff --git a/include/types/pmr/monotonic_pool.hpp b/include/types/pmr/monotonic_pool.hpp
index 5bc8286..0f753c4 100644
--- a/include/types/pmr/monotonic_pool.hpp
+++ b/include/types/pmr/monotonic_pool.hpp
@@ -141,9 +141,11 @@ namespace chdr {
                 if (result != nullptr) {
                     // ReSharper disable once CppDFAUnreachableCode
                     operator delete(result, static_cast<std::align_val_t>(_alignment));
-                    result = nullptr;
 
-                    m_blocks.pop_back();
+                    if (!m_blocks.empty() && m_blocks.back().data == result) {
+                        m_blocks.pop_back();
+                    }
+                    result = nullptr;
                 }
             }
 
@@ -239,7 +241,9 @@ namespace chdr {
                     }
 
                     // Update write position.
-                    m_block_write += static_cast<size_t>(aligned_ptr + _bytes - (m_blocks[m_active_block_index].data + m_block_write));
+                    if (LIKELY(aligned_ptr != nullptr)) {
+                        m_block_write += static_cast<size_t>(aligned_ptr + _bytes - (m_blocks[m_active_block_index].data + m_block_write));
+                    }
                 }
 
                 // ReSharper disable once CppDFAConstantConditions
-- 
2.43.0


From 6e91d3f0193de4358fdf4e56d14f14737ccdf117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 36/61] fix: monotonic_pool and homogeneous_pool ignored
 alignments beyond that of their stack blocks

---
 include/types/pmr/homogeneous_pool.hpp | 17 +++++++++++------
 include/types/pmr/monotonic_pool.hpp   | 18 +++++++++++-------
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index 0faaa3c..7171fdc 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -102,6 +102,10 @@ namespace chdr {
         std::vector<block> m_blocks;
         std::vector<uint8_t*> m_free;
 
+        [[nodiscard]] HOT static size_t align_offset(const uint8_t* _p, size_t _alignment) noexcept {
+            return static_cast<size_t>(-reinterpret_cast<uintptr_t>(_p)) & (_alignment - 1U);
+        }
+
         HOT uint8_t* expand(size_t _bytes, size_t _alignment) noexcept {
 
             assert(_bytes > 0U && "Allocation size must be greater than zero.");
@@ -226,13 +230,14 @@ namespace chdr {
                 uint8_t* aligned_ptr { nullptr };
 
                 // Attempt to allocate from the stack block:
-                if (m_stack_write < StackSize) {
-
-                    if (const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
-                        aligned_bytes < MaxStackAllocationSize && m_stack_write + aligned_bytes <= s_stack_block_size
+                if (const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
+                    aligned_bytes >= _bytes && aligned_bytes < MaxStackAllocationSize
+                ) {
+                    if (const size_t aligned_write = m_stack_write + align_offset(m_stack_block + m_stack_write, _alignment);
+                        aligned_write <= s_stack_block_size && aligned_bytes <= s_stack_block_size - aligned_write
                     ) {
-                        aligned_ptr = m_stack_block + ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U));
-                        m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + aligned_bytes;
+                        aligned_ptr = m_stack_block + aligned_write;
+                        m_stack_write = aligned_write + aligned_bytes;
                     }
                 }
 
diff --git a/include/types/pmr/monotonic_pool.hpp b/include/types/pmr/monotonic_pool.hpp
index 0f753c4..3d1fe39 100644
--- a/include/types/pmr/monotonic_pool.hpp
+++ b/include/types/pmr/monotonic_pool.hpp
@@ -97,6 +97,10 @@ namespace chdr {
 
         std::vector<block> m_blocks;
 
+        [[nodiscard]] HOT static size_t align_offset(const uint8_t* _p, size_t _alignment) noexcept {
+            return static_cast<size_t>(-reinterpret_cast<uintptr_t>(_p)) & (_alignment - 1U);
+        }
+
         HOT uint8_t* expand(size_t _bytes, size_t _alignment) {
 
             assert(_bytes > 0U && "Allocation size must be greater than zero.");
@@ -207,14 +211,14 @@ namespace chdr {
                 uint8_t* aligned_ptr { nullptr };
 
                 // Attempt to allocate from the stack block:
-                if (m_stack_write < StackSize) {
-
-                    if (const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
-                        aligned_bytes < MaxStackAllocationSize &&
-                        m_stack_write + aligned_bytes <= s_stack_block_size
+                if (const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
+                    aligned_bytes >= _bytes && aligned_bytes < MaxStackAllocationSize
+                ) {
+                    if (const size_t aligned_write = m_stack_write + align_offset(m_stack_block + m_stack_write, _alignment);
+                        aligned_write <= s_stack_block_size && aligned_bytes <= s_stack_block_size - aligned_write
                     ) {
-                        aligned_ptr = m_stack_block + ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U));
-                        m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + aligned_bytes;
+                        aligned_ptr = m_stack_block + aligned_write;
+                        m_stack_write = aligned_write + aligned_bytes;
                     }
                 }
 
-- 
2.43.0


From 6d19656ea49140e0556e302a58ec2489a4ed2c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 37/61] fix: homogeneous_pool returned misaligned memory once
 reset

---
 include/types/pmr/homogeneous_pool.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index 7171fdc..322a75a 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -115,7 +115,7 @@ namespace chdr {
             uint8_t* result { nullptr };
 
             try {
-                const auto allocate_bytes = utils::max(m_block_width, utils::max(_bytes, _alignment));
+                const auto allocate_bytes = (utils::max(m_block_width, _bytes) + _alignment - 1U) & ~(_alignment - 1U);
 
                 result = static_cast<uint8_t*>(operator new(allocate_bytes, static_cast<std::align_val_t>(_alignment)));
 
@@ -458,18 +458,20 @@ namespace chdr {
                 for (auto& [size, data] : m_blocks) {
 
                     // Divide the block into chunks; all chunks are guaranteed aligned.
-                    const auto chunk_size = size / m_block_width;
+                    const auto chunk_width = (m_block_width + m_alignment - 1U) & ~(m_alignment - 1U);
+                    const auto chunk_size  = size / chunk_width;
 
                     const auto current_size = m_free.size();
                     m_free.resize(current_size + chunk_size);
 
                     IVDEP
                     for (size_t j = 0U; j < chunk_size; ++j) {
-                        m_free[j + current_size] = data + j * m_block_width;
+                        m_free[j + current_size] = data + j * chunk_width;
                     }
                 }
             }
             catch (...) {
+                cleanup();
                 m_blocks.clear();
                   m_free.clear();
             }
-- 
2.43.0


From 2ad3220434633ecfa4221ec4882cf2859a41f863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 38/61] fix: a moved homogeneous_pool recycled memory of the
 pool it was moved from

---
 include/types/pmr/homogeneous_pool.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index 322a75a..8958364 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -164,6 +164,17 @@ namespace chdr {
             return result;
         }
 
+        void forget_stack_block(const homogeneous_pool& _other) noexcept {
+
+            // Memory within the stack block of another pool cannot be recycled, as it does not outlive that pool.
+            m_free.erase(
+                std::remove_if(m_free.begin(), m_free.end(), [&_other](const uint8_t* const _data) ALWAYS_INLINE {
+                    return _data >= _other.m_stack_block && _data < _other.m_stack_block + s_stack_block_size;
+                }),
+                m_free.end()
+            );
+        }
+
         /**
          * @brief Frees all memory blocks managed by the memory pool.
          *
@@ -398,6 +409,7 @@ namespace chdr {
             m_blocks             (std::move(_other.m_blocks)  ),
             m_free               (std::move(_other.m_free  )  )
         {
+            forget_stack_block(_other);
             _other.m_stack_write = 0U;
             _other.m_blocks.clear();
             _other.m_free.clear();
@@ -419,6 +431,7 @@ namespace chdr {
                 m_blocks              = std::move(_other.m_blocks);
                 m_free                = std::move(_other.m_free  );
 
+                forget_stack_block(_other);
                 _other.m_stack_write = 0U;
                 _other.m_blocks.clear();
                 _other.m_free.clear();
-- 
2.43.0


From da3d9e27a9878da52af41650652560260a55bf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 39/61] fix: returning memory to a homogeneous_pool threw from
 destructors when memory ran out

---
 include/types/pmr/homogeneous_pool.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index 8958364..1e6dff8 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -319,7 +319,13 @@ namespace chdr {
             }
             else {
 
-                m_free.push_back(static_cast<uint8_t*>(_p));
+                try {
+                    m_free.push_back(static_cast<uint8_t*>(_p));
+                }
+                catch (...) { // NOLINT(*-empty-catch)
+
+                    /* The memory is not recycled until the pool is reset or released. */
+                }
 
 #if CHDR_DIAGNOSTICS == 1
 
-- 
2.43.0


From ed6f9fe186a62ab12409c54efcd5f00fdb34caf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 40/61] fix: gjps returned memory of the monotonic pool to the
 homogeneous pool

---
 include/solvers/gjps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/gjps.hpp b/include/solvers/gjps.hpp
index 484b6aa..dc12a06 100644
--- a/include/solvers/gjps.hpp
+++ b/include/solvers/gjps.hpp
@@ -351,7 +351,7 @@ namespace chdr::solvers {
                                 if (!_closed.contains(n)) {
 
                                     if (curr_ptr == nullptr) {
-                                        curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
+                                        curr_ptr = new (_params.homogeneous_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
                                     }
 
                                     if constexpr (params_t::lazy_sorting::value) {
-- 
2.43.0


From caf4066956ec4d1e78af51307b064d337d5e0d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:01 +0000
Subject: [PATCH 41/61] fix: grids contained coordinates with negative
 components

---
 include/mazes/grid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mazes/grid.hpp b/include/mazes/grid.hpp
index e273fd8..fe7c30d 100644
--- a/include/mazes/grid.hpp
+++ b/include/mazes/grid.hpp
@@ -301,7 +301,7 @@ namespace chdr::mazes {
             bool result = true;
 
             for (size_t i = 0U; i < s_rank && result; ++i) {
-                result = _id[i] < m_size[i];
+                result = static_cast<size_t>(_id[i]) < static_cast<size_t>(m_size[i]); // A negative component is out of bounds.
             }
 
             return result;
@@ -768,7 +768,7 @@ namespace chdr::mazes {
             bool result = true;
 
             for (size_t i = 0U; i < s_rank && result; ++i) {
-                result = _id[i] < m_size[i];
+                result = static_cast<size_t>(_id[i]) < static_cast<size_t>(m_size[i]); // A negative component is out of bounds.
             }
 
             return result;
-- 
2.43.0


From a4cd84d5adbe06fba5f66fd830446a78c9c618cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:01 +0000
Subject: [PATCH 42/61] fix: grid searches took endpoints out of bounds for
 cells within

---
 include/solvers/base/solver.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index fa841cb..8af5a27 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -869,7 +869,18 @@ namespace chdr::solvers {
                 const auto s = static_cast<typename params_t::index_type>(utils::to_1d(_params.start, _params.size));
                 const auto e = static_cast<typename params_t::index_type>(utils::to_1d(_params.end,   _params.size));
 
-                if (_params.maze.contains(s) && _params.maze[s].is_active() &&
+                bool in_bounds = true;
+
+                // A coordinate outside a grid may share its index with another inside it.
+                if constexpr (!solver_utils::template is_graph_v<decltype(_params.maze)>) {
+                    for (size_t i = 0U; i < std::tuple_size_v<std::decay_t<typename params_t::coord_type>> && in_bounds; ++i) {
+                        in_bounds = static_cast<size_t>(_params.start[i]) < static_cast<size_t>(_params.size[i]) &&
+                                    static_cast<size_t>(_params.end  [i]) < static_cast<size_t>(_params.size[i]);
+                    }
+                }
+
+                if (in_bounds &&
+                    _params.maze.contains(s) && _params.maze[s].is_active() &&
                     _params.maze.contains(e) && _params.maze[e].is_active()
                 ) {
                     result = s != e ?
-- 
2.43.0


From 5f681838dc6dd675301b6f07f51cd4cd415cb31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 43/61] fix: diagonal neighbours of grids with signed
 coordinates were read out of bounds

---
 include/mazes/grid.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mazes/grid.hpp b/include/mazes/grid.hpp
index fe7c30d..94b12cd 100644
--- a/include/mazes/grid.hpp
+++ b/include/mazes/grid.hpp
@@ -275,7 +275,7 @@ namespace chdr::mazes {
             for (size_t i = 0U; i < s_rank; ++i) {
                 coord[i] += (_direction[i] - 1U);
 
-                if (coord[i] >= m_size[i]) {
+                if (static_cast<size_t>(coord[i]) >= static_cast<size_t>(m_size[i])) {
                     oob = true;
                     break;
                 }
@@ -486,7 +486,7 @@ namespace chdr::mazes {
             for (size_t i = 0U; i < s_rank; ++i) {
                 coord[i] += (direction[i] - static_cast<typename coord_t::value_type>(1U));
 
-                if (coord[i] >= m_size[i]) {
+                if (static_cast<size_t>(coord[i]) >= static_cast<size_t>(m_size[i])) {
                     oob = true;
 
                     if constexpr (s_rank > 4U) {
@@ -742,7 +742,7 @@ namespace chdr::mazes {
             for (size_t i = 0U; i < s_rank; ++i) {
                 coord[i] += (_direction[i] - 1U);
 
-                if (coord[i] >= m_size[i]) {
+                if (static_cast<size_t>(coord[i]) >= static_cast<size_t>(m_size[i])) {
                     oob = true;
                     break;
                 }
@@ -951,7 +951,7 @@ namespace chdr::mazes {
             for (size_t i = 0U; i < s_rank; ++i) {
                 coord[i] += (direction[i] - static_cast<typename coord_t::value_type>(1U));
 
-                if (coord[i] >= m_size[i]) {
+                if (static_cast<size_t>(coord[i]) >= static_cast<size_t>(m_size[i])) {
                     oob = true;
 
                     if constexpr (s_rank > 4U) {
-- 
2.43.0


From fcf5a200ca7951bf2a5ace1484c77923a1621cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:49 +0000
Subject: [PATCH 44/61] fix: the top of a heap of pointers could not be
 accessed

---
 include/types/containers/heap.hpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index 1b06bcb..f47b458 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -267,12 +267,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(begin().base());
-            }
-            else {
-                return *begin();
-            }
+            return *begin();
         }
 
         /**
@@ -284,12 +279,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(begin().base());
-            }
-            else {
-                return *begin();
-            }
+            return *begin();
         }
 
         /**
-- 
2.43.0


From 3c37fa25eda3ae3c43d560ac96f63f3e4aeb85fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 45/61] fix: removing an edge a graph does not have erased
 vertices without edges

---
 include/mazes/graph.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index 9ebfa5d..0dbb368 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -323,10 +323,13 @@ namespace chdr::mazes {
             if (contains(_from_id)) {
 
                 auto& bucket = m_entries[_from_id];
-                bucket.erase(std::remove(bucket.begin(), bucket.end(), _edge), bucket.end());
 
-                if (bucket.empty()) {
-                    m_entries.erase(_from_id);
+                if (const auto it = std::remove(bucket.begin(), bucket.end(), _edge); it != bucket.end()) {
+                    bucket.erase(it, bucket.end());
+
+                    if (bucket.empty()) {
+                        m_entries.erase(_from_id);
+                    }
                 }
             }
         }
-- 
2.43.0


From c6f89df0b39c459cd80653f94357d5b5eb47de93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 46/61] fix: graphs with narrow identifiers could not be built
 from grids

---
 include/mazes/graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index 0dbb368..49fce2f 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -251,7 +251,7 @@ namespace chdr::mazes {
                     assert(i < numThreads && "Error: Index 'i' exceeds the number of initialised threads.");
 
                     const index_t start = static_cast<index_t>(i) * chunkSize;
-                    const index_t end   = utils::min(start + chunkSize, static_cast<index_t>(count));
+                    const index_t end   = static_cast<index_t>(utils::min(static_cast<size_t>(start) + static_cast<size_t>(chunkSize), count));
 
                     futures[i] = std::async(std::launch::async, worker, start, end);
                 }
-- 
2.43.0


From eefc4dce1f8b41e36f44d407cd9f0ce15e245ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 47/61] fix: powers of zero divided by zero, and powers that
 fit were taken to overflow

powui squared its base once more than needed, and its assertions divided
by a base of zero: powui(0, 2) crashed and powui<uint8_t>(16, 1) aborted.
---
 include/utils/utils.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index cab6c37..e0b87ac 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -388,9 +388,12 @@ namespace chdr {
                     assert(result <= std::numeric_limits<T>::max() / _base && "Multiplication would cause overflow.");
                     result *= _base;
                 }
-                assert(_base <= std::numeric_limits<T>::max() / _base && "Multiplication would cause overflow.");
-                _base *= _base;
-                _exp  /= 2U;
+                _exp /= 2U;
+
+                if (_exp > 0U) { // The last square is never used, and may overflow where the result does not.
+                    assert((_base == 0U || _base <= std::numeric_limits<T>::max() / _base) && "Multiplication would cause overflow.");
+                    _base *= _base;
+                }
             }
 
             return result;
-- 
2.43.0


From ed673f443ecef7ac2b11ffe166aaba9febe17fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 48/61] fix: raising zero to a power divided by zero in an
 assertion

---
 include/utils/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index e0b87ac..b68dc23 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -385,7 +385,7 @@ namespace chdr {
 
             while (_exp > 0U) {
                 if (_exp % 2U == 1U) {
-                    assert(result <= std::numeric_limits<T>::max() / _base && "Multiplication would cause overflow.");
+                    assert((_base == 0U || result <= std::numeric_limits<T>::max() / _base) && "Multiplication would cause overflow.");
                     result *= _base;
                 }
                 _exp /= 2U;
-- 
2.43.0


From 7ed9299813c9f5f6e3d32ab9b03a8bfc921d79f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 49/61] fix: trimming the trailing zeros of an integer changed
 its value

trim_trailing_zeros("100") was "1", and "0" led to accessing the last
character of an empty string.
---
 include/utils/utils.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index b68dc23..7a07097 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -597,13 +597,16 @@ namespace chdr {
          */
         [[nodiscard]] static std::string trim_trailing_zeros(std::string _str) {
 
-            auto& trimmed = _str.erase(_str.find_last_not_of('0') + 1U, std::string::npos);
+            if (_str.find('.') != std::string::npos) { // Zeroes of an integer are significant.
 
-            if (trimmed.back() == '.') {
-                trimmed.pop_back();
+                _str.erase(_str.find_last_not_of('0') + 1U, std::string::npos);
+
+                if (_str.back() == '.') {
+                    _str.pop_back();
+                }
             }
 
-            return trimmed;
+            return _str;
         }
     };
 
-- 
2.43.0


From 72223f0c15f833ca8ed33377ead95ad5e540cf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 50/61] fix: formatting durations below a nanosecond read
 beyond the list of units

---
 include/utils/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index 7a07097..c42638c 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -567,7 +567,7 @@ namespace chdr {
             constexpr std::array<const char* const, 4U> units { "s", "ms", "µs", "ns" };
 
             size_t i = 0U;
-            while (i < units.size() && abs(_duration) < 1.0L) {
+            while (i + 1U < units.size() && abs(_duration) < 1.0L) {
                 _duration *= 1000.0L;
                 ++i;
             }
-- 
2.43.0


From 39b0570cfe2f877c291ce4721f9a5a9dbed17b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 51/61] fix: durations were formatted as not-a-number at a
 scale of zero

---
 include/utils/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index c42638c..a1e6092 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -572,7 +572,7 @@ namespace chdr {
                 ++i;
             }
 
-            _scale = clamp(_scale, 0.0L, 1.0L);
+            _scale = clamp(_scale, std::numeric_limits<long double>::epsilon(), 1.0L); // A scale of zero cannot be divided by.
 
             return trim_trailing_zeros(
                 std::to_string(
-- 
2.43.0


From b3f26f98d67f040fdb34ffda4592edcb2b0f61a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 52/61] fix: square roots in constant expressions did not
 always terminate

The iteration alternated forever between two neighbouring values, e.g.
for the integers 3 and 8, so that the expression did not compile; the
largest unsigned integers made it divide by zero.
---
 include/utils/utils.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index a1e6092..86f4ad3 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -461,15 +461,18 @@ namespace chdr {
                     }
                     else {
 
-                        T x    { _value };
-                        T last {    0   };
-
-                        while (x != last) {
-                            last = x;
-                               x = (x + _value / x) / static_cast<T>(2);
+                        T x      = _value / static_cast<T>(2) + static_cast<T>(1); // Not below the root, and does not overflow.
+                        T last   { 0 };
+                        T before { 0 };
+
+                        // Rounding may make the iteration alternate between two neighbouring values.
+                        while (x != last && x != before) {
+                            before = last;
+                            last   = x;
+                            x      = (x + _value / x) / static_cast<T>(2);
                         }
 
-                        result = x;
+                        result = x < last ? x : last;
                     }
                 }
             }
-- 
2.43.0


From 7e0bf6080aaec2ff15e080732a73ce09e00f7c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:48 +0000
Subject: [PATCH 53/61] fix: queries with end points far outside a grid
 overflowed signed indices

---
 include/solvers/base/solver.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index 8af5a27..80a40f6 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -866,12 +866,9 @@ namespace chdr::solvers {
 
             try {
 
-                const auto s = static_cast<typename params_t::index_type>(utils::to_1d(_params.start, _params.size));
-                const auto e = static_cast<typename params_t::index_type>(utils::to_1d(_params.end,   _params.size));
-
                 bool in_bounds = true;
 
-                // A coordinate outside a grid may share its index with another inside it.
+                // A coordinate outside a grid may share its index with another inside it, or have none that can be represented.
                 if constexpr (!solver_utils::template is_graph_v<decltype(_params.maze)>) {
                     for (size_t i = 0U; i < std::tuple_size_v<std::decay_t<typename params_t::coord_type>> && in_bounds; ++i) {
                         in_bounds = static_cast<size_t>(_params.start[i]) < static_cast<size_t>(_params.size[i]) &&
@@ -879,13 +876,17 @@ namespace chdr::solvers {
                     }
                 }
 
-                if (in_bounds &&
-                    _params.maze.contains(s) && _params.maze[s].is_active() &&
-                    _params.maze.contains(e) && _params.maze[e].is_active()
-                ) {
-                    result = s != e ?
-                        solver_t<params_t>::invoke(_params) :
-                        std::vector<typename params_t::coord_type> { _params.end };
+                if (in_bounds) {
+                    const auto s = static_cast<typename params_t::index_type>(utils::to_1d(_params.start, _params.size));
+                    const auto e = static_cast<typename params_t::index_type>(utils::to_1d(_params.end,   _params.size));
+
+                    if (_params.maze.contains(s) && _params.maze[s].is_active() &&
+                        _params.maze.contains(e) && _params.maze[e].is_active()
+                    ) {
+                        result = s != e ?
+                            solver_t<params_t>::invoke(_params) :
+                            std::vector<typename params_t::coord_type> { _params.end };
+                    }
                 }
             }
             catch (...) { // NOLINT(*-empty-catch)
-- 
2.43.0


From cf1a350c2bca05fcb952b6a75bc4dd5d96616998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:26 +0000
Subject: [PATCH 54/61] fix: dijkstra expanded superseded entries,
 exponentially often on open grids

---
 include/solvers/dijkstra.hpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/include/solvers/dijkstra.hpp b/include/solvers/dijkstra.hpp
index a6e9610..aa2b67e 100644
--- a/include/solvers/dijkstra.hpp
+++ b/include/solvers/dijkstra.hpp
@@ -172,6 +172,17 @@ namespace chdr::solvers {
                 auto _ = std::move(_open.top());
                 _open.pop();
 
+                // Skip nodes which were already expanded via a route that is no longer.
+                if (const auto search = result.m_data.find(_.m_index); search != result.m_data.end()) {
+
+                    if (!(_.m_gScore < search->second.m_gScore)) {
+                        continue;
+                    }
+
+                    search->second.m_gScore = _.m_gScore;
+                    search->second.m_parent = _.m_parent;
+                }
+
                 auto& curr = result.m_data.emplace(_.m_index, std::move(_)).first->second;
 
                 for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(curr.m_index)) {
@@ -180,22 +191,8 @@ namespace chdr::solvers {
 
                         auto g = curr.m_gScore + n.distance;
 
-                        if (const auto search = result.m_data.find(n.index); search != result.m_data.end()) {
+                        if (const auto search = result.m_data.find(n.index); search == result.m_data.end() || g < search->second.m_gScore) {
 
-                            if (auto& child = search->second; g < child.m_gScore) {
-
-                                child.m_gScore = g;
-                                child.m_parent = &curr;
-
-                                if constexpr (params_t::lazy_sorting::value) {
-                                    _open.emplace_nosort(child);
-                                }
-                                else {
-                                    _open.emplace(child);
-                                }
-                            }
-                        }
-                        else {
                             if constexpr (params_t::lazy_sorting::value) {
                                 _open.emplace_nosort(n.index, g, &curr);
                             }
-- 
2.43.0


From 63f91ddaf20fb0cb8bfd99a6a2e847896664276b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:26 +0000
Subject: [PATCH 55/61] fix: eiddfs walked back through the start

---
 include/solvers/eiddfs.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/solvers/eiddfs.hpp b/include/solvers/eiddfs.hpp
index e3664cc..a295343 100644
--- a/include/solvers/eiddfs.hpp
+++ b/include/solvers/eiddfs.hpp
@@ -133,6 +133,7 @@ namespace chdr::solvers {
                 stack<state<neighbours_t>> stack(_params.monotonic_pmr);
 
                 stack.emplace(_open.back(), _params);
+                solver_t::solver_utils::preallocate_emplace(_closed, _open.back().m_index, _capacity, _params.maze.count());
 
                 bool exhausted = true; // Whether every node was expanded without exceeding the bound.
 
-- 
2.43.0


From ce4441b64cbb31dbf038b8d7f624546c32691a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:26 +0000
Subject: [PATCH 56/61] fix: jump point searches recursed once per cell and
 overflowed the stack on long runs

---
 include/solvers/gjps.hpp | 72 ++++++++++++++++++++++------------------
 include/solvers/jps.hpp  | 72 ++++++++++++++++++++++------------------
 2 files changed, 78 insertions(+), 66 deletions(-)

diff --git a/include/solvers/gjps.hpp b/include/solvers/gjps.hpp
index dc12a06..a61e121 100644
--- a/include/solvers/gjps.hpp
+++ b/include/solvers/gjps.hpp
@@ -252,54 +252,60 @@ namespace chdr::solvers {
         template <typename maze_t>
         [[nodiscard]] static constexpr neighbour_t jump(const maze_t& _maze, const coord_t& _current, const direction_t& _direction, const coord_t& _end) {
 
-            const auto& neighbours = _maze.template get_neighbours<true>(_current);
-            const auto& map = s_lookup[static_cast<size_t>(_direction)];
+            // Walk on instead of recursing: runs can be as long as the maze.
+            for (coord_t current(_current);;) {
 
-            if (!is_straight(_direction) && !neighbours[map[TM]].first && !neighbours[map[ML]].first) { // BLOCKED...
-                return { false, _current };
-            }
-            else if (UNLIKELY(_current == _end)) { // SOLUTION REACHED...
-                return { true, _current };
-            }
-            else { // SEARCH FOR SOLUTION...
+                const auto& neighbours = _maze.template get_neighbours<true>(current);
+                const auto& map = s_lookup[static_cast<size_t>(_direction)];
 
-                const auto check_forced = [&neighbours, &map](const size_t _a, const size_t _b) ALWAYS_INLINE {
-                    return neighbours[map[_a]].first && !neighbours[map[_b]].first;
-                };
+                if (!is_straight(_direction) && !neighbours[map[TM]].first && !neighbours[map[ML]].first) { // BLOCKED...
+                    return { false, current };
+                }
+                else if (UNLIKELY(current == _end)) { // SOLUTION REACHED...
+                    return { true, current };
+                }
+                else { // SEARCH FOR SOLUTION...
 
-                if (is_straight(_direction)) { // STRAIGHT...
+                    const auto check_forced = [&neighbours, &map](const size_t _a, const size_t _b) ALWAYS_INLINE {
+                        return neighbours[map[_a]].first && !neighbours[map[_b]].first;
+                    };
 
-                    if (check_forced(TR, TM) || check_forced(BR, BM)) { // FORCED:
-                        return { true, _current };
-                    }
-                    else if (neighbours[map[MR]].first) { // NATURAL:
-                        return jump(_maze, neighbours[map[MR]].second, _direction, _end);
-                    }
-                }
-                else { // DIAGONAL...
+                    if (is_straight(_direction)) { // STRAIGHT...
 
-                    if (check_forced(TR, TM) || check_forced(BL, ML)) { // FORCED:
-                        return { true, _current };
+                        if (check_forced(TR, TM) || check_forced(BR, BM)) { // FORCED:
+                            return { true, current };
+                        }
+                        else if (neighbours[map[MR]].first) { // NATURAL:
+                            current = coord_t(neighbours[map[MR]].second);
+                            continue;
+                        }
                     }
-                    else { // NATURAL:
+                    else { // DIAGONAL...
+
+                        if (check_forced(TR, TM) || check_forced(BL, ML)) { // FORCED:
+                            return { true, current };
+                        }
+                        else { // NATURAL:
 
-                        for (const auto& i : { MR, BM }) {
+                            for (const auto& i : { MR, BM }) {
 
-                            if (neighbours[map[i]].first) {
-                                if (jump(_maze, neighbours[map[i]].second, _current, _end).first) {
-                                    return { true, _current };
+                                if (neighbours[map[i]].first) {
+                                    if (jump(_maze, neighbours[map[i]].second, current, _end).first) {
+                                        return { true, current };
+                                    }
                                 }
                             }
-                        }
 
-                        if (neighbours[map[BR]].first) {
-                            return jump(_maze, neighbours[map[BR]].second, _direction, _end);
+                            if (neighbours[map[BR]].first) {
+                                current = coord_t(neighbours[map[BR]].second);
+                                continue;
+                            }
                         }
                     }
                 }
-            }
 
-            return { false, _current };
+                return { false, current };
+            }
         }
 
         template <typename open_set_t, typename closed_set_t>
diff --git a/include/solvers/jps.hpp b/include/solvers/jps.hpp
index 5f3ca5d..0610d23 100644
--- a/include/solvers/jps.hpp
+++ b/include/solvers/jps.hpp
@@ -272,54 +272,60 @@ namespace chdr::solvers {
         template <typename maze_t>
         [[nodiscard]] static constexpr neighbour_t jump(const maze_t& _maze, const coord_t& _current, const direction_t& _direction, const coord_t& _end) {
 
-            const auto& neighbours = _maze.template get_neighbours<true>(_current);
-            const auto& map = s_lookup[static_cast<size_t>(_direction)];
+            // Walk on instead of recursing: runs can be as long as the maze.
+            for (coord_t current(_current);;) {
 
-            if (!is_straight(_direction) && !neighbours[map[TM]].first && !neighbours[map[ML]].first) { // BLOCKED...
-                return { false, _current };
-            }
-            else if (UNLIKELY(_current == _end)) { // SOLUTION REACHED...
-                return { true, _current };
-            }
-            else { // SEARCH FOR SOLUTION...
+                const auto& neighbours = _maze.template get_neighbours<true>(current);
+                const auto& map = s_lookup[static_cast<size_t>(_direction)];
 
-                const auto check_forced = [&neighbours, &map](const size_t _a, const size_t _b) ALWAYS_INLINE {
-                    return neighbours[map[_a]].first && !neighbours[map[_b]].first;
-                };
+                if (!is_straight(_direction) && !neighbours[map[TM]].first && !neighbours[map[ML]].first) { // BLOCKED...
+                    return { false, current };
+                }
+                else if (UNLIKELY(current == _end)) { // SOLUTION REACHED...
+                    return { true, current };
+                }
+                else { // SEARCH FOR SOLUTION...
 
-                if (is_straight(_direction)) { // STRAIGHT...
+                    const auto check_forced = [&neighbours, &map](const size_t _a, const size_t _b) ALWAYS_INLINE {
+                        return neighbours[map[_a]].first && !neighbours[map[_b]].first;
+                    };
 
-                    if (check_forced(TR, TM) || check_forced(BR, BM)) { // FORCED:
-                        return { true, _current };
-                    }
-                    else if (neighbours[map[MR]].first) { // NATURAL:
-                        return jump(_maze, neighbours[map[MR]].second, _direction, _end);
-                    }
-                }
-                else { // DIAGONAL...
+                    if (is_straight(_direction)) { // STRAIGHT...
 
-                    if (check_forced(TR, TM) || check_forced(BL, ML)) { // FORCED:
-                        return { true, _current };
+                        if (check_forced(TR, TM) || check_forced(BR, BM)) { // FORCED:
+                            return { true, current };
+                        }
+                        else if (neighbours[map[MR]].first) { // NATURAL:
+                            current = coord_t(neighbours[map[MR]].second);
+                            continue;
+                        }
                     }
-                    else { // NATURAL:
+                    else { // DIAGONAL...
+
+                        if (check_forced(TR, TM) || check_forced(BL, ML)) { // FORCED:
+                            return { true, current };
+                        }
+                        else { // NATURAL:
 
-                        for (const auto& i : { MR, BM }) {
+                            for (const auto& i : { MR, BM }) {
 
-                            if (neighbours[map[i]].first) {
-                                if (jump(_maze, neighbours[map[i]].second, _current, _end).first) {
-                                    return { true, _current };
+                                if (neighbours[map[i]].first) {
+                                    if (jump(_maze, neighbours[map[i]].second, current, _end).first) {
+                                        return { true, current };
+                                    }
                                 }
                             }
-                        }
 
-                        if (neighbours[map[BR]].first) {
-                            return jump(_maze, neighbours[map[BR]].second, _direction, _end);
+                            if (neighbours[map[BR]].first) {
+                                current = coord_t(neighbours[map[BR]].second);
+                                continue;
+                            }
                         }
                     }
                 }
-            }
 
-            return { false, _current };
+                return { false, current };
+            }
         }
 
         template <typename open_set_t, typename closed_set_t>
-- 
2.43.0


From 5214454672471cdd473c1175b9d1e878ff7ee971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:25 +0000
Subject: [PATCH 57/61] fix: moving containers between memory resources ended
 the program when memory ran out

---
 include/mazes/graph.hpp                    | 3 ++-
 include/types/containers/existence_set.hpp | 2 +-
 include/types/containers/heap.hpp          | 3 ++-
 include/types/containers/queue.hpp         | 5 +++--
 include/types/containers/stack.hpp         | 3 ++-
 5 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index 49fce2f..0597f2f 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -20,6 +20,7 @@
 #include <initializer_list>
 #include <mutex>
 #include <thread>
+#include <type_traits>
 #include <unordered_map>
 #include <unordered_set>
 #include <utility>
@@ -277,7 +278,7 @@ namespace chdr::mazes {
 #if __cplusplus > 202302L
         constexpr
 #endif
-        graph& operator=(graph&&) noexcept = default;
+        graph& operator=(graph&&) noexcept(std::is_nothrow_move_assignable_v<adjacency_set_t>) = default;
 
         /**
          * @brief Adds a new vertex to the graph with the specified identifier.
diff --git a/include/types/containers/existence_set.hpp b/include/types/containers/existence_set.hpp
index 4b5ccc7..27f5428 100644
--- a/include/types/containers/existence_set.hpp
+++ b/include/types/containers/existence_set.hpp
@@ -221,7 +221,7 @@ namespace chdr {
          * @param _other The existence_set to move from.
          * @return Reference to this existence_set after the assignment.
          */
-        existence_set& operator=(existence_set&& _other) noexcept {
+        existence_set& operator=(existence_set&& _other) noexcept(std::is_nothrow_move_assignable_v<std::pmr::vector<width_t>>) {
             if (this != &_other) {
                 c = std::move(_other.c);
             }
diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index f47b458..fe18175 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -17,6 +17,7 @@
 
 #include <cstddef>
 #include <functional>
+#include <type_traits>
 #include <vector>
 
 // ReSharper disable once CppUnusedIncludeDirective
@@ -164,7 +165,7 @@ namespace chdr {
          * @param _other The heap to move from.
          * @return Reference to this heap after the assignment.
          */
-        heap& operator=(heap&& _other) noexcept {
+        heap& operator=(heap&& _other) noexcept(std::is_nothrow_move_assignable_v<Container>) {
             if (this != &_other) {
                 c    = std::move(_other.c);
                 comp = std::move(_other.comp);
diff --git a/include/types/containers/queue.hpp b/include/types/containers/queue.hpp
index 61ead62..85e445d 100644
--- a/include/types/containers/queue.hpp
+++ b/include/types/containers/queue.hpp
@@ -15,6 +15,7 @@
 
 #include <cstddef>
 #include <deque>
+#include <type_traits>
 #include <memory_resource>
 
 // ReSharper disable once CppUnusedIncludeDirective
@@ -97,7 +98,7 @@ namespace chdr {
          *
          * @param [in] _other The queue to move from.
          */
-        constexpr queue(queue&& _other) noexcept : c(std::move(_other.c)) {}
+        constexpr queue(queue&& _other) noexcept(std::is_nothrow_move_constructible_v<queue_t>) : c(std::move(_other.c)) {}
 
         /**
          * @brief Move assignment operator.
@@ -108,7 +109,7 @@ namespace chdr {
          * @param [in] _other The queue to move from.
          * @return Reference to this queue after assignment.
          */
-        constexpr queue& operator=(queue&& _other) noexcept {
+        constexpr queue& operator=(queue&& _other) noexcept(std::is_nothrow_move_assignable_v<queue_t>) {
             if (this != &_other) {
                 c = std::move(_other.c);
             }
diff --git a/include/types/containers/stack.hpp b/include/types/containers/stack.hpp
index e4df76e..088d01f 100644
--- a/include/types/containers/stack.hpp
+++ b/include/types/containers/stack.hpp
@@ -15,6 +15,7 @@
 
 #include <cstddef>
 #include <memory_resource>
+#include <type_traits>
 #include <vector>
 
 // ReSharper disable once CppUnusedIncludeDirective
@@ -122,7 +123,7 @@ namespace chdr {
          * @param [in] _other The stack to move from.
          * @return Reference to this stack after assignment.
          */
-        constexpr stack& operator=(stack&& _other) noexcept {
+        constexpr stack& operator=(stack&& _other) noexcept(std::is_nothrow_move_assignable_v<stack_t>) {
             if (this != &_other) {
                 c = std::move(_other.c);
             }
-- 
2.43.0


From f72622bc66a9d545b9e9626a34298c6eb00fc2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:48 +0000
Subject: [PATCH 58/61] fix: prune lost vertices when memory ran out halfway

---
 include/mazes/graph.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index 0597f2f..49280ec 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -365,6 +365,7 @@ namespace chdr::mazes {
             // TODO: Extend support for pruning directed graphs.
 
             std::vector<index_t> nodesToRemove;
+            nodesToRemove.reserve(m_entries.size()); // Nothing may fail between the merging and the removal of nodes.
 
             bool dirty = false;
 
-- 
2.43.0


From 9eb35e071925b5f17de5fde15ddcd268bf53243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:48 +0000
Subject: [PATCH 59/61] fix: pools ended the program when constructed without
 memory left

---
 include/types/pmr/heterogeneous_pool.hpp | 2 +-
 include/types/pmr/homogeneous_pool.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index 00d2156..6fa66b9 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -415,7 +415,7 @@ namespace chdr {
          * @param _capacity Specifies the number of blocks the pool should initially reserve.
          *                  (optional, default value is `32U`).
          */
-        explicit heterogeneous_pool(size_t _initial_block_width = s_default_heap_block_size, size_t _capacity = 32U) noexcept :
+        explicit heterogeneous_pool(size_t _initial_block_width = s_default_heap_block_size, size_t _capacity = 32U) :
             m_stack_block        (),
             m_stack_write        (0U),
             m_initial_block_width(utils::min(_initial_block_width, s_max_heap_block_size)),
diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index 1e6dff8..d32647e 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -370,7 +370,7 @@ namespace chdr {
          * @param _capacity Specifies the number of blocks the pool should initially reserve.
          *                  (optional, default value is `32U`).
          */
-        explicit homogeneous_pool(size_t _initial_block_width = s_default_heap_block_size, size_t _capacity = 32U) noexcept :
+        explicit homogeneous_pool(size_t _initial_block_width = s_default_heap_block_size, size_t _capacity = 32U) :
             m_stack_block        (),
             m_alignment          (0U),
             m_stack_write        (0U),
-- 
2.43.0


From 028ce29afd24660a13e8b90beb86ff589e3f0723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:08 +0000
Subject: [PATCH 60/61] fix: smastar and osmastar kept costlier routes to nodes
 already expanded

---
 include/solvers/osmastar.hpp | 22 ++++++++++------------
 include/solvers/smastar.hpp  | 22 ++++++++++------------
 2 files changed, 20 insertions(+), 24 deletions(-)

diff --git a/include/solvers/osmastar.hpp b/include/solvers/osmastar.hpp
index cd57177..17bb7c5 100644
--- a/include/solvers/osmastar.hpp
+++ b/include/solvers/osmastar.hpp
@@ -268,21 +268,19 @@ namespace chdr::solvers {
                                 // Check if the neighbour 'exists', or update its parent if the current route is better.
                                 auto search = all_nodes.find(n.index);
                                 if (search != all_nodes.end()) {
-                                    if (search->second.m_fScore != inf_v) {
-                                        if (const auto g = curr.m_gScore + n.distance; g < search->second.m_gScore) {
-                                            const auto h = _params.h(n.coord, _params.end) * _params.weight;
+                                    if (const auto g = curr.m_gScore + n.distance; g < search->second.m_gScore) {
+                                        const auto h = _params.h(n.coord, _params.end) * _params.weight;
 
-                                            // Other nodes may compare equal to this one, so find it by its index.
-                                            const auto [first, last] = _open.equal_range(search->second);
-                                            const auto it = std::find_if(first, last, [&n](const node& _other) ALWAYS_INLINE { return _other.m_index == n.index; });
-                                            if (it != last) {
-                                                _open.erase(it);
-                                            }
+                                        // Other nodes may compare equal to this one, so find it by its index.
+                                        const auto [first, last] = _open.equal_range(search->second);
+                                        const auto it = std::find_if(first, last, [&n](const node& _other) ALWAYS_INLINE { return _other.m_index == n.index; });
+                                        if (it != last) {
+                                            _open.erase(it);
+                                        }
 
-                                            _open.emplace(all_nodes[n.index] = node(n.index, g, g + h, curr.m_index));
+                                        _open.emplace(all_nodes[n.index] = node(n.index, g, g + h, curr.m_index));
 
-                                            complete = false;
-                                        }
+                                        complete = false;
                                     }
                                 }
                                 else {
diff --git a/include/solvers/smastar.hpp b/include/solvers/smastar.hpp
index e500607..6d48c15 100644
--- a/include/solvers/smastar.hpp
+++ b/include/solvers/smastar.hpp
@@ -269,21 +269,19 @@ namespace chdr::solvers {
                                 // Check if the neighbour 'exists', or update its parent if the current route is better.
                                 auto search = all_nodes.find(n.index);
                                 if (search != all_nodes.end()) {
-                                    if (search->second.m_fScore != inf_v) {
-                                        if (const auto g = curr.m_gScore + n.distance; g < search->second.m_gScore) {
-                                            const auto h = _params.h(n.coord, _params.end) * _params.weight;
+                                    if (const auto g = curr.m_gScore + n.distance; g < search->second.m_gScore) {
+                                        const auto h = _params.h(n.coord, _params.end) * _params.weight;
 
-                                            // Other nodes may compare equal to this one, so find it by its index.
-                                            const auto [first, last] = _open.equal_range(search->second);
-                                            const auto it = std::find_if(first, last, [&n](const node& _other) ALWAYS_INLINE { return _other.m_index == n.index; });
-                                            if (it != last) {
-                                                _open.erase(it);
-                                            }
+                                        // Other nodes may compare equal to this one, so find it by its index.
+                                        const auto [first, last] = _open.equal_range(search->second);
+                                        const auto it = std::find_if(first, last, [&n](const node& _other) ALWAYS_INLINE { return _other.m_index == n.index; });
+                                        if (it != last) {
+                                            _open.erase(it);
+                                        }
 
-                                            _open.emplace(all_nodes[n.index] = node(n.index, g, g + h, curr.m_index));
+                                        _open.emplace(all_nodes[n.index] = node(n.index, g, g + h, curr.m_index));
 
-                                            complete = false;
-                                        }
+                                        complete = false;
                                     }
                                 }
                                 else {
-- 
2.43.0


From 5a9ddddea6127fe650241ab4d11e273fdbaed28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:33 +0000
Subject: [PATCH 61/61] fix: adding a number too great to be stored wiped an
 existence set and wrote out of bounds

---
 include/types/containers/existence_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/types/containers/existence_set.hpp b/include/types/containers/existence_set.hpp
index 27f5428..f4c8f6b 100644
--- a/include/types/containers/existence_set.hpp
+++ b/include/types/containers/existence_set.hpp
@@ -110,7 +110,7 @@ namespace chdr {
         constexpr void enable(size_t _hash) {
 
             if (_hash >= c.size()) {
-                resize(_hash + 1U);
+                resize(_hash < c.max_size() ? _hash + 1U : _hash); // Throws if the hash is too great to be stored.
             }
 
             /*
-- 
2.43.0

