From c4ba17564b10d2451ab05ee14fd99c53e0ae0961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 01/17] fix: prune exact solvers with the MST weight, not twice
 the MST weight

directed_edge_weight() counts every undirected edge twice, so the bound
was not a lower bound and optimal tours could be pruned away.
---
 src/solvers/exact.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 3b5fce6..627668c 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -410,7 +410,7 @@ fn _fifth_improved_solver_rec(
         // tour the whole tour will definitely be bigger than our previous best version
         let lower_bound_graph =
             mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix);
-        let lower_bound = lower_bound_graph.directed_edge_weight();
+        let lower_bound = lower_bound_graph.undirected_edge_weight();
         if current_cost + lower_bound <= result.0 {
             _fifth_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);
         }
@@ -513,7 +513,7 @@ fn _sixth_improved_solver_rec(
         };
         let lower_bound = mst_cache.entry(hash).or_insert(
             mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix)
-                .directed_edge_weight(),
+                .undirected_edge_weight(),
         );
         if current_cost + *lower_bound <= result.0 {
             _sixth_improved_solver_rec(
@@ -1021,7 +1021,7 @@ fn _mpi_improved_solver_rec(
         // tour the whole tour will definitely be bigger than our previous best version
         let lower_bound_graph =
             mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix);
-        let lower_bound = lower_bound_graph.directed_edge_weight();
+        let lower_bound = lower_bound_graph.undirected_edge_weight();
 
         let best_known_solution = if global_best_cost < result.0 {
             global_best_cost
-- 
2.43.0


From 913ad7fa0275fbe386a60fecad913372e97f8cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 02/17] fix: do not accumulate rounding errors in the partial
 tour cost

Adding and then subtracting an edge cost does not restore a float, so
the reported cost could differ from the cost of the reported tour.
---
 src/solvers/exact.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 627668c..7b6d304 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -132,13 +132,12 @@ fn _second_improved_solver_rec<T>(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
-        current_cost += cost_last_edge;
+        let current_cost = current_cost + cost_last_edge;
 
         // rec call
         _second_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);
 
         // remove
-        current_cost -= cost_last_edge;
         current_prefix.pop();
     }
 }
@@ -203,7 +202,7 @@ fn _third_improved_solver_rec<T>(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
-        current_cost += cost_last_edge;
+        let current_cost = current_cost + cost_last_edge;
 
         // HERE IS THE BIG DIFFERENCE TO [`_second_improved_solver_rec`]!
         if current_cost <= result.0 {
@@ -211,7 +210,6 @@ fn _third_improved_solver_rec<T>(
         }
         // This was it. This is the pruning
 
-        current_cost -= cost_last_edge;
         current_prefix.pop();
     }
 }
@@ -293,7 +291,7 @@ fn _fourth_improved_solver_rec<T>(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
-        current_cost += cost_last_edge;
+        let current_cost = current_cost + cost_last_edge;
 
         // If our current sub-tour, together with a lower bound, is already bigger than the whole
         // tour the whole tour will definitely be bigger than our previous best version
@@ -303,7 +301,6 @@ fn _fourth_improved_solver_rec<T>(
         }
 
         // Remove the last edge
-        current_cost -= cost_last_edge;
         current_prefix.pop();
     }
 }
@@ -404,7 +401,7 @@ fn _fifth_improved_solver_rec(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
-        current_cost += cost_last_edge;
+        let current_cost = current_cost + cost_last_edge;
 
         // If our current sub-tour, together with a lower bound, is already bigger than the whole
         // tour the whole tour will definitely be bigger than our previous best version
@@ -416,7 +413,6 @@ fn _fifth_improved_solver_rec(
         }
 
         // Remove the last edge
-        current_cost -= cost_last_edge;
         current_prefix.pop();
     }
 }
@@ -502,7 +498,7 @@ fn _sixth_improved_solver_rec(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
-        current_cost += cost_last_edge;
+        let current_cost = current_cost + cost_last_edge;
 
         // If our current sub-tour, together with a lower bound, is already bigger than the whole
         // tour the whole tour will definitely be bigger than our previous best version
@@ -526,7 +522,6 @@ fn _sixth_improved_solver_rec(
         }
 
         // Remove the last edge
-        current_cost -= cost_last_edge;
         current_prefix.pop();
     }
 }
@@ -1015,7 +1010,7 @@ fn _mpi_improved_solver_rec(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
-        current_cost += cost_last_edge;
+        let current_cost = current_cost + cost_last_edge;
 
         // If our current sub-tour, together with a lower bound, is already bigger than the whole
         // tour the whole tour will definitely be bigger than our previous best version
@@ -1040,7 +1035,6 @@ fn _mpi_improved_solver_rec(
         }
 
         // Remove the last edge
-        current_cost -= cost_last_edge;
         current_prefix.pop();
     }
 }
-- 
2.43.0


From 1a1805dc1b085c208f8d581bba4d02e7671ccbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 03/17] fix: let the brute force solvers evaluate the initial
 permutation too

The identity was never evaluated, so one and two vertex instances had
no tour at all.
---
 src/solvers/exact.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 7b6d304..897ad0c 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -30,12 +30,15 @@ where
     let mut best_cost = f64::INFINITY;
 
     let mut current_permutation = best_permutation.clone();
-    while next_permutation(&mut current_permutation) {
+    loop {
         let cost = graph_matrix.evaluate_circle(&current_permutation);
         if cost < best_cost {
             best_cost = cost;
             best_permutation = current_permutation.clone();
         }
+        if !next_permutation(&mut current_permutation) {
+            break;
+        }
     }
     (best_cost, best_permutation)
 }
@@ -54,12 +57,15 @@ where
     let mut best_cost = f64::INFINITY;
 
     let mut current_permutation = best_permutation.clone();
-    while next_permutation(&mut current_permutation[1..]) {
+    loop {
         let cost = graph_matrix.evaluate_circle(&current_permutation);
         if cost < best_cost {
             best_cost = cost;
             best_permutation = current_permutation.clone();
         }
+        if !next_permutation(&mut current_permutation[1..]) {
+            break;
+        }
     }
     (best_cost, best_permutation)
 }
-- 
2.43.0


From 7309fe160c90410690a38877116fc89f9bfcfc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 04/17] fix: make the nearest neighbour bound of the fourth
 solver a lower bound

Only looking at neighbours with a higher index over-estimated the
remaining cost, so optimal tours could be pruned away.
---
 src/solvers/exact.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 897ad0c..306b1c8 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -328,10 +328,11 @@ where
         let mut shortest_edge_cost = f64::INFINITY;
 
         // Otherwise, we can start finding its nearest neighbour
-        for j in (i + 1)..n {
+        for j in 0..n {
             // we do not connect to ourself
-            // Also we just connect within
-            if subtour.contains(&j) {
+            // Also we just connect within, or to the end of the subtour: those are the only
+            // vertices from which the remaining tour can enter vertex `i`
+            if j == i || (subtour.contains(&j) && subtour.last() != Some(&j)) {
                 continue;
             }
 
-- 
2.43.0


From 8306f5a00e6e7d3562e956e7aa6f4dbc7e2c4675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 05/17] fix: keep all four vertices when swapping two matching
 edges

The nested case wrote v2 twice and lost v3.
---
 src/solvers/approximate/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/approximate/matching.rs b/src/solvers/approximate/matching.rs
index 253c174..60998cc 100644
--- a/src/solvers/approximate/matching.rs
+++ b/src/solvers/approximate/matching.rs
@@ -161,7 +161,7 @@ fn optimize_two_matching(edg01: &mut [usize; 2], edg23: &mut [usize; 2], graph:
     if cost_1 < cost_0 {
         if cost_2 < cost_1 {
             // case 2 is optimal
-            *edg01 = [v0, v2];
+            *edg01 = [v0, v3];
             *edg23 = [v1, v2];
         } else {
             // case 1 is optimal
-- 
2.43.0


From 33b48ed117539408406e378247ab9819ec4609d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 06/17] fix: only reconnect a queued vertex when the new edge
 is cheaper

push_increase() returns the passed priority when it changes nothing, so
the connecting vertex was overwritten on every update.
---
 src/mst.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mst.rs b/src/mst.rs
index 7b74adc..c54c0df 100644
--- a/src/mst.rs
+++ b/src/mst.rs
@@ -240,10 +240,12 @@ impl FindMinCostEdge for VerticesInPriorityQueue {
             if self.used[to] {
                 continue;
             }
-            let Reverse(OrderedFloat(old_cost)) = self.cost_queue
-            .push_increase(to, Reverse(OrderedFloat(cost)))
+            let &Reverse(OrderedFloat(old_cost)) = self.cost_queue
+            .get_priority(&to)
             .unwrap_or_else(|| panic!("Every unused unused vertex shall be contained in the queue from the beginning. Missing vertex: {}", to));
-            if cost <= old_cost {
+            if cost < old_cost {
+                self.cost_queue
+                    .change_priority(&to, Reverse(OrderedFloat(cost)));
                 self.connection_to_mst[to] = from;
             }
         }
-- 
2.43.0


From 63b294894a3ff802d37a5c2e2e08ea1a52fd3e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 07/17] fix: give VecMatrix the same zero diagonal as NAMatrix

---
 src/datastructures/vecmatrix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/datastructures/vecmatrix.rs b/src/datastructures/vecmatrix.rs
index b114e6a..7e83b40 100644
--- a/src/datastructures/vecmatrix.rs
+++ b/src/datastructures/vecmatrix.rs
@@ -9,7 +9,7 @@ pub struct VecMatrix(Vec<Vec<f64>>);
 impl From<Graph> for VecMatrix {
     fn from(graph: Graph) -> Self {
         let n: usize = graph.num_vertices();
-        let mut matrix = vec![vec![f64::INFINITY; n]; n];
+        let mut matrix = VecMatrix::from_dim(n);
         for i in 0..n {
             let vi = &graph[i];
             for edge in vi.iter() {
@@ -18,7 +18,7 @@ impl From<Graph> for VecMatrix {
                 matrix[j][i] = edge.cost;
             }
         }
-        matrix.into()
+        matrix
     }
 }
 
-- 
2.43.0


From 0cde19a57fcb14f58fbb8adf2ff5e4bd19e3f230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 08/17] fix: let the prefix chunks cover the whole prefix space

The documented range is [min, max), but the largest value of each chunk,
the first value of each chunk and the remainder of the division were
never searched.
---
 src/solvers/exact.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 306b1c8..efc97eb 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -576,7 +576,12 @@ pub fn split_up_b_ary_number_into_n_chunks(
     let chunk_size = total_values / n;
 
     let min_value = k * chunk_size;
-    let max_value = min_value + chunk_size - 1;
+    // the last chunk also gets the remainder
+    let max_value = if k + 1 == n {
+        total_values
+    } else {
+        min_value + chunk_size
+    };
 
     let min_digits = convert_to_b_ary_digits(min_value, basis, number_digits);
     let max_digits = convert_to_b_ary_digits(max_value, basis, number_digits);
@@ -585,14 +590,16 @@ pub fn split_up_b_ary_number_into_n_chunks(
 }
 
 /// Converts a decimal value into its corresponding digits in a `basis`-ary system.
+/// The first digit is not reduced, so it is `basis` for the value `basis.pow(number_digits)`.
 fn convert_to_b_ary_digits(value: usize, basis: usize, number_digits: usize) -> Vec<usize> {
     let mut digits = Vec::with_capacity(number_digits);
     let mut remainder = value;
 
-    for _ in 0..number_digits {
+    for _ in 1..number_digits {
         digits.push(remainder % basis);
         remainder /= basis;
     }
+    digits.push(remainder);
 
     digits.reverse();
     digits
@@ -674,11 +681,13 @@ fn threaded_solver_generic(
                 current_prefix.reserve(graph_matrix.dim());
 
                 // For each prefix
-                while let Some(next_value) = get_next_value(&mut min_digits, graph_matrix.dim()) {
+                let mut next_prefix = Some(min_digits.clone());
+                while let Some(next_value) = next_prefix {
                     // early return if we have finished our chunk
                     if next_value == max_digits {
                         break;
                     }
+                    next_prefix = get_next_value(&mut min_digits, graph_matrix.dim());
 
                     // if it has at least two times the same digit, its not a valid path
                     let is_unique =
@@ -901,11 +910,13 @@ fn static_mpi_solver_generic_nonroot(
     let mut min_digits = min_digits;
     let mut current_prefix: Vec<usize> = Vec::new();
     current_prefix.reserve(graph_matrix.dim());
-    while let Some(next_value) = get_next_value(&mut min_digits, graph_matrix.dim()) {
+    let mut next_prefix = Some(min_digits.clone());
+    while let Some(next_value) = next_prefix {
         // early return if we have finished our chunk
         if next_value == max_digits {
             break;
         }
+        next_prefix = get_next_value(&mut min_digits, graph_matrix.dim());
 
         // if it has at least two times the same digit, its not a valid path
         let is_unique = next_value.len() == next_value.iter().collect::<FxHashSet<_>>().len();
-- 
2.43.0


From 8524ab19503b041858b8eb5e9c7ed24315525800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 09/17] fix: solve instances smaller than the prefix length
 sequentially

---
 src/solvers/exact.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index efc97eb..e278fe4 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -655,8 +655,8 @@ fn threaded_solver_generic(
             .into(),
     };
 
-    // if (number of threads >= n) we do seq
-    if number_of_threads >= graph_matrix.dim() {
+    // if (number of threads >= n) or if there are no prefixes of this length we do seq
+    if number_of_threads >= graph_matrix.dim() || prefix_length > graph_matrix.dim() {
         return fifth_improved_solver(graph_matrix);
     }
 
-- 
2.43.0


From 82ff647409f187f2263ca2a032cb3fbe39408f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 10/17] fix: reject self loops, missing reverse edges and
 unknown targets

A graph with a self loop in place of a missing edge was accepted, and an
edge to a vertex that does not exist panicked.
---
 src/preconditions.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/preconditions.rs b/src/preconditions.rs
index 3fe6dd4..1457676 100644
--- a/src/preconditions.rs
+++ b/src/preconditions.rs
@@ -8,7 +8,9 @@ use crate::datastructures::Graph;
 /// This is a prerequisite for the TSP.
 pub fn is_fully_connected(g: &Graph) -> bool {
     let n = g.num_vertices();
-    g.iter().all(|v| v.degree() == n - 1)
+    g.iter()
+        .enumerate()
+        .all(|(i, v)| v.degree() == n - 1 && v.iter().all(|e| e.to != i))
 }
 
 /// This function checks that whether the graph has multiple edges from one vertex to another
@@ -31,18 +33,15 @@ pub fn is_undirected(graph: &Graph) -> bool {
     for i in 0..graph.num_vertices() {
         let v1 = &graph.vertices[i];
         for v1e in v1.iter() {
-            // Find the Vertex connected to the edge
-            let v2 = &graph.vertices[v1e.to];
-
-            // Find reverse edge link
-            for v2e in v2.iter() {
-                if v2e.to == i {
-                    // If not same weight => directed graph
-                    if v2e.cost != v1e.cost {
-                        return false;
-                    }
-                    break;
-                }
+            // Find the reverse edge link of the vertex connected to the edge
+            let reverse_edge = graph
+                .vertices
+                .get(v1e.to)
+                .and_then(|v2| v2.iter().find(|v2e| v2e.to == i));
+            match reverse_edge {
+                Some(v2e) if v2e.cost == v1e.cost => {}
+                // If missing or not same weight => directed graph
+                _ => return false,
             }
         }
     }
-- 
2.43.0


From 4f01122b6d924426cb3675712a803c6744b16a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 11/17] fix: report an invalid TSP instance as an error instead
 of a panic

---
 src/parser.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4ad7a2d..4d250fc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -25,14 +25,16 @@ pub struct TravellingSalesmanProblemInstance {
 impl TravellingSalesmanProblemInstance {
     /// Parse a TSP instance from an xml `str`.
     ///
-    /// This parsing does not check whether the graph is a valid TSP instance
-    /// as long as it is a valid xml document.
+    /// Returns an error if the document is no valid xml document, or if its graph is not a valid
+    /// TSP instance, see [`Self::do_conditions_hold`].
     pub fn parse_from_xml(xml: &str) -> Result<Self, quick_xml::DeError> {
-        let res: Result<Self, quick_xml::DeError> = from_str(xml);
-        if let Ok(tspi) = &res {
-            assert!(tspi.do_conditions_hold());
+        let tspi: Self = from_str(xml)?;
+        if !tspi.do_conditions_hold() {
+            return Err(quick_xml::DeError::Custom(
+                "the graph is not a valid TSP instance".to_string(),
+            ));
         }
-        res
+        Ok(tspi)
     }
 
     /// Check if the defined conditions on the graph apply.
-- 
2.43.0


From 4bf4d2667a348f36cdde6df506cf110cd7098900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 12/17] fix: do not add an infinite edge to the 1-tree of a two
 vertex graph

---
 src/one_tree.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/one_tree.rs b/src/one_tree.rs
index 214e4e6..3a3e18a 100644
--- a/src/one_tree.rs
+++ b/src/one_tree.rs
@@ -60,6 +60,11 @@ pub fn one_tree(graph: &NAMatrix, special_vertex: usize) -> Graph {
         }
     }
 
+    // with only one neighbour, a tour has to use its edge in both directions
+    if snd_min_edg.to == special_vertex {
+        snd_min_edg = fst_min_edg;
+    }
+
     // add the two edges to the mst, making it a 1-tree
     mst.add_undirected_edge(special_vertex, fst_min_edg.to, fst_min_edg.cost);
     mst.add_undirected_edge(special_vertex, snd_min_edg.to, snd_min_edg.cost);
-- 
2.43.0


From 90f39c6228a49e191ec6e0bbf017e900df7e0a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 13/17] fix: give every MPI rank a winner buffer of the tour
 length

A worker that found no tour broadcast into an empty buffer.
---
 src/solvers/exact.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index e278fe4..a79bd55 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -904,7 +904,7 @@ fn static_mpi_solver_generic_nonroot(
         (size as usize) - 1,
         (rank as usize) - 1,
     );
-    let mut local_solution = (f64::INFINITY, Vec::new());
+    let mut local_solution = (f64::INFINITY, vec![0; graph_matrix.dim()]);
     let mut global_best_cost = f64::INFINITY;
 
     let mut min_digits = min_digits;
@@ -1225,7 +1225,7 @@ fn dynamic_mpi_solver_nonroot(world: &SystemCommunicator, graph_matrix: &NAMatri
     let rank = world.rank();
     let root = world.process_at_rank(0);
 
-    let mut local_solution = (f64::INFINITY, Vec::new());
+    let mut local_solution = (f64::INFINITY, vec![0; graph_matrix.dim()]);
 
     // Tell the root our result
     // Which is rubbish, but it implicitly asks for a prefix
-- 
2.43.0


From 266992e7171494af81574050a9e81dcdec551de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 14/17] fix: let the exact MPI solvers solve small instances
 and run alone

Without workers or with fewer vertices than the prefix length there was
no tour, or an index out of bounds on the first prefix.
---
 src/solvers/exact.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index a79bd55..e94a72f 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -803,6 +803,11 @@ pub fn static_mpi_solver_generic(graph_matrix: &NAMatrix, prefix_length: usize)
     let rank = world.rank();
     let root = world.process_at_rank(0);
 
+    // without workers, or without prefixes to distribute, every rank solves the instance itself
+    if world.size() == 1 || prefix_length > graph_matrix.dim() {
+        return fifth_improved_solver(graph_matrix);
+    }
+
     // Will be used once the entire computation is done
     // Has to be available to both root and non-root as we broadcast into it
     let mut winner = MPICostRank(f64::INFINITY, 0);
@@ -1057,6 +1062,10 @@ fn _mpi_improved_solver_rec(
     }
 }
 
+/// The length of the prefixes which [`dynamic_mpi_solver`] distributes
+#[cfg(feature = "mpi")]
+const DYNAMIC_PREFIX_LENGTH: usize = 3;
+
 /// Calculating an exact solution parallelized using MPI and dynamic work allocation.
 ///
 /// See [`static_mpi_solver_generic`] for an alternative solution with static work allocation.
@@ -1127,6 +1136,11 @@ pub fn dynamic_mpi_solver(graph_matrix: &NAMatrix) -> Solution {
     let rank = world.rank();
     let root = world.process_at_rank(0);
 
+    // without workers, or without prefixes to distribute, every rank solves the instance itself
+    if world.size() == 1 || DYNAMIC_PREFIX_LENGTH > graph_matrix.dim() {
+        return fifth_improved_solver(graph_matrix);
+    }
+
     // Will be used once the entire computation is done
     // Has to be available to both root and non-root as we broadcast into it
     let mut winner = MPICostRank(f64::INFINITY, 0);
@@ -1155,8 +1169,6 @@ pub fn dynamic_mpi_solver(graph_matrix: &NAMatrix) -> Solution {
 fn dynamic_mpi_solver_root(world: &SystemCommunicator, graph_matrix: &NAMatrix) -> MPICostRank {
     let size = world.size();
     let number_of_workers = size - 1;
-    const PREFIX_LENGTH: usize = 3;
-
     let n = graph_matrix.dim();
 
     let mut current_winner = MPICostRank(f64::INFINITY, 0);
@@ -1167,7 +1179,7 @@ fn dynamic_mpi_solver_root(world: &SystemCommunicator, graph_matrix: &NAMatrix)
     let mut number_of_waiting_processes = 0;
 
     // Our root tracks the prefixes...
-    let mut current_prefix: Option<[usize; PREFIX_LENGTH]> = Some([1, 2, 3]);
+    let mut current_prefix: Option<[usize; DYNAMIC_PREFIX_LENGTH]> = Some([0, 1, 2]);
 
     while number_of_waiting_processes < number_of_workers {
         let (msg, _) = world.any_process().receive::<MPICostRank>();
-- 
2.43.0


From 6f30ea84c6d87c75bea821fec267b3a6b598a836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 15/17] fix: allow more MPI processes than vertices in nearest
 neighbour and 1-tree

---
 src/one_tree.rs                              | 8 +++++++-
 src/solvers/approximate/nearest_neighbour.rs | 3 ++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/one_tree.rs b/src/one_tree.rs
index 3a3e18a..a1548e4 100644
--- a/src/one_tree.rs
+++ b/src/one_tree.rs
@@ -123,6 +123,11 @@ fn one_tree_lower_bound_par(graph: &NAMatrix) -> f64 {
 /// if the graph is empty.
 #[cfg(feature = "mpi")]
 fn one_tree_lower_bound_mpi(graph: &NAMatrix) -> f64 {
+    assert!(
+        graph.dim() > 0,
+        "Cannot compute the 1-tree lower bound of the empty graph"
+    );
+
     fn one_tree_lower_bound_mpi_with_world(graph: &NAMatrix, world: SystemCommunicator) -> f64 {
         let rank = world.rank() as usize;
         let size = world.size() as usize;
@@ -136,7 +141,8 @@ fn one_tree_lower_bound_mpi(graph: &NAMatrix) -> f64 {
                 x.partial_cmp(y)
                     .expect("Tried to compare NaN value. Your data seems currupt.")
             })
-            .expect("Cannot compute the 1-tree lower bound of the empty graph");
+            // there might be more processes than vertices
+            .unwrap_or(f64::NEG_INFINITY);
 
         let mut global_lower_bound = f64::INFINITY;
         if rank as mpi::topology::Rank == ROOT_RANK {
diff --git a/src/solvers/approximate/nearest_neighbour.rs b/src/solvers/approximate/nearest_neighbour.rs
index 46dc1b0..efbf662 100644
--- a/src/solvers/approximate/nearest_neighbour.rs
+++ b/src/solvers/approximate/nearest_neighbour.rs
@@ -147,7 +147,8 @@ pub fn nearest_neighbour_mpi(graph_matrix: &NAMatrix) -> Solution {
     let local_solution = (start_node..end_node)
         .map(|k| single_nearest_neighbour(graph_matrix, k.try_into().unwrap()))
         .min_by_key(|&(distance, _)| OrderedFloat(distance))
-        .unwrap();
+        // there might be more processes than nodes
+        .unwrap_or((f64::INFINITY, vec![0; graph_matrix.dim()]));
 
     // ALLREDUCE all solutions
     // If two solutions have same cost, we choose lower rank
-- 
2.43.0


From a29412b20b1e3aa6390d0c7d415b60a134ec9180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:28 +0000
Subject: [PATCH 16/17] fix: write edges of cost 0 in gen_matrix_fast

---
 utils/gen_matrix_fast/src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/gen_matrix_fast/src/main.rs b/utils/gen_matrix_fast/src/main.rs
index cc25eb5..2390ee8 100644
--- a/utils/gen_matrix_fast/src/main.rs
+++ b/utils/gen_matrix_fast/src/main.rs
@@ -28,10 +28,11 @@ fn generate_xml_from_matrix(matrix: &[Vec<f64>]) {
     println!("  <ignoredDigits>{}</ignoredDigits>", ignored_digits);
     println!("  <graph>");
 
-    for (_, row) in matrix.iter().enumerate() {
+    for (row_index, row) in matrix.iter().enumerate() {
         println!("    <vertex>");
         for (col_index, &value) in row.iter().enumerate() {
-            if value == 0.0 {continue;}
+            // only the diagonal is no edge, different points may have the distance 0
+            if row_index == col_index {continue;}
             println!("      <edge cost=\"{}\">{}</edge>", value, col_index);
         }
         println!("    </vertex>");
-- 
2.43.0


From 0193d73a503f93e4409b73ccef0a4c59476b1ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:02 +0000
Subject: [PATCH 17/17] fix: initialize MPI once when an approximation is
 followed by the 1-tree bound

approx -p mpi -l one-tree initialized MPI twice (a panic), and the processes other
than 0 left before the collective computation of the bound.
---
 src/lib.rs                                   | 19 +++++++++++++++----
 src/solvers/approximate/nearest_neighbour.rs |  7 ++++---
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3b4ffa1..44a8bd4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -89,6 +89,13 @@ fn approx_run(
 ) -> Result<(), Box<dyn Error>> {
     let tsp_instance = get_tsp_instance(input_file.clone())?;
 
+    // MPI can only be initialized once, it has to live until the lower bound is computed as well
+    #[cfg(feature = "mpi")]
+    let _universe = match parallelism {
+        Parallelism::MPI => mpi::initialize(),
+        _ => None,
+    };
+
     match algorithm {
         ApproxAlgorithm::Christofides => {
             let graph = (&tsp_instance.graph).into();
@@ -104,8 +111,7 @@ fn approx_run(
                 }
                 #[cfg(feature = "mpi")]
                 Parallelism::MPI => {
-                    let universe = mpi::initialize().unwrap();
-                    let world = universe.world();
+                    let world = SystemCommunicator::world();
                     let rank = world.rank();
                     let root_process = world.process_at_rank(0);
 
@@ -122,6 +128,10 @@ fn approx_run(
                             &graph,
                         );
                         mpi_improve_matching(&graph, matching.as_mut_slice(), tries, world);
+                        // all processes are needed for the 1-tree lower bound
+                        if let Some(LowerBoundAlgorithm::OneTree) = lower_bound {
+                            lower_bound_run(LowerBoundAlgorithm::OneTree, input_file, parallelism)?;
+                        }
                         // non-root process is done here
                         return Ok(());
                     }
@@ -183,8 +193,9 @@ fn lower_bound_run(
                 }
                 #[cfg(feature = "mpi")]
                 Parallelism::MPI => {
-                    let universe = mpi::initialize().unwrap();
-                    let world = universe.world();
+                    // already initialized, if the lower bound follows an approximation
+                    let _universe = mpi::initialize();
+                    let world = SystemCommunicator::world();
                     let rank = world.rank();
                     let result =
                         one_tree_lower_bound::<{ computation_mode::MPI_COMPUTATION }>(&na_matrix);
diff --git a/src/solvers/approximate/nearest_neighbour.rs b/src/solvers/approximate/nearest_neighbour.rs
index efbf662..795ec9f 100644
--- a/src/solvers/approximate/nearest_neighbour.rs
+++ b/src/solvers/approximate/nearest_neighbour.rs
@@ -6,7 +6,7 @@ use rayon::iter::ParallelIterator;
 use rayon::prelude::IntoParallelIterator;
 
 #[cfg(feature = "mpi")]
-use mpi::{collective::UserOperation, traits::*};
+use mpi::{collective::UserOperation, topology::SystemCommunicator, traits::*};
 
 use crate::{
     computation_mode::{panic_on_invaid_mode, PAR_COMPUTATION, SEQ_COMPUTATION},
@@ -126,8 +126,9 @@ pub fn nearest_neighbour<const MODE: usize>(graph_matrix: &NAMatrix) -> Solution
 /// Now every node knows the global minimum and can successfully return it.
 #[cfg(feature = "mpi")]
 pub fn nearest_neighbour_mpi(graph_matrix: &NAMatrix) -> Solution {
-    let universe = mpi::initialize().unwrap();
-    let world = universe.world();
+    // already initialized, if the caller needs MPI for longer than this function
+    let _universe = mpi::initialize();
+    let world = SystemCommunicator::world();
     let size = world.size();
     let rank = world.rank();
 
-- 
2.43.0

