From a6caea82e182ff2cda9f0319ff4801be21e57476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 01/14] fix: matching 2-opt step keeps the matching perfect

When crossing both edges was the best of the three pairings, the step wrote
[v0, v2] and [v1, v2]: vertex v2 twice, vertex v3 lost.
---
 src/solvers/approximate/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/approximate/matching.rs b/src/solvers/approximate/matching.rs
index 253c174..60998cc 100644
--- a/src/solvers/approximate/matching.rs
+++ b/src/solvers/approximate/matching.rs
@@ -161,7 +161,7 @@ fn optimize_two_matching(edg01: &mut [usize; 2], edg23: &mut [usize; 2], graph:
     if cost_1 < cost_0 {
         if cost_2 < cost_1 {
             // case 2 is optimal
-            *edg01 = [v0, v2];
+            *edg01 = [v0, v3];
             *edg23 = [v1, v2];
         } else {
             // case 1 is optimal
-- 
2.43.0


From ac51ff778522d90e776d72d8aaa7c64b846802c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 02/14] fix: prune exact search with the MST weight, not twice
 the weight

directed_edge_weight() counts every MST edge in both directions, which is no
lower bound on the remaining tour, so v5, v6, the threaded and both MPI
solvers cut off optimal tours.
---
 src/solvers/exact.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 3b5fce6..627668c 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -410,7 +410,7 @@ fn _fifth_improved_solver_rec(
         // tour the whole tour will definitely be bigger than our previous best version
         let lower_bound_graph =
             mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix);
-        let lower_bound = lower_bound_graph.directed_edge_weight();
+        let lower_bound = lower_bound_graph.undirected_edge_weight();
         if current_cost + lower_bound <= result.0 {
             _fifth_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);
         }
@@ -513,7 +513,7 @@ fn _sixth_improved_solver_rec(
         };
         let lower_bound = mst_cache.entry(hash).or_insert(
             mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix)
-                .directed_edge_weight(),
+                .undirected_edge_weight(),
         );
         if current_cost + *lower_bound <= result.0 {
             _sixth_improved_solver_rec(
@@ -1021,7 +1021,7 @@ fn _mpi_improved_solver_rec(
         // tour the whole tour will definitely be bigger than our previous best version
         let lower_bound_graph =
             mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix);
-        let lower_bound = lower_bound_graph.directed_edge_weight();
+        let lower_bound = lower_bound_graph.undirected_edge_weight();
 
         let best_known_solution = if global_best_cost < result.0 {
             global_best_cost
-- 
2.43.0


From e9a123afb7ff20026e73c80908539e62ea35f678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 03/14] fix: v4 nearest neighbour bound considers every
 possible successor

Looking only at vertices with a higher index (and never at the way back to the
start) overestimates the remaining cost, so v4 cut off optimal tours.
---
 src/solvers/exact.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 627668c..608ca1d 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -325,10 +325,10 @@ where
         let mut shortest_edge_cost = f64::INFINITY;
 
         // Otherwise, we can start finding its nearest neighbour
-        for j in (i + 1)..n {
+        for j in 0..n {
             // we do not connect to ourself
-            // Also we just connect within
-            if subtour.contains(&j) {
+            // Also we just connect within, or back to the start of the tour
+            if j == i || (subtour.contains(&j) && j != subtour[0]) {
                 continue;
             }
 
-- 
2.43.0


From ad9095ef4a6e3e307af2f445a5a39656117f0fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 04/14] fix: v0 and v1 evaluate the initial permutation

next_permutation() already moves past it, so v0 with one and v1 with up to two
vertices reported an infinite cost.
---
 src/solvers/exact.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 608ca1d..b35f780 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -27,7 +27,7 @@ where
 {
     let n = graph_matrix.dim();
     let mut best_permutation: Path = (0..n).collect();
-    let mut best_cost = f64::INFINITY;
+    let mut best_cost = graph_matrix.evaluate_circle(&best_permutation);
 
     let mut current_permutation = best_permutation.clone();
     while next_permutation(&mut current_permutation) {
@@ -51,7 +51,7 @@ where
 {
     let n = graph_matrix.dim();
     let mut best_permutation: Path = (0..n).collect();
-    let mut best_cost = f64::INFINITY;
+    let mut best_cost = graph_matrix.evaluate_circle(&best_permutation);
 
     let mut current_permutation = best_permutation.clone();
     while next_permutation(&mut current_permutation[1..]) {
-- 
2.43.0


From 907c16a696eb75f018a324ec1fab64f2b5be8388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 05/14] fix: prefix chunks cover the whole search space

Every chunk skipped its first and its last prefix and the remainder of the
division belonged to nobody, so with many workers whole parts of the search
space (in the end all of it) were never looked at, and with more workers than
prefixes the solver panicked.
---
 src/solvers/exact.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index b35f780..51e7b37 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -563,6 +563,9 @@ pub fn next_permutation<T: Ord>(array: &mut [T]) -> bool {
 
 /// Splits the `basis`-ary space from 0...0 to (basis-1)..(basis-1) into `n` chunks of `number_digits` digits.
 /// Returns the minimum and maximum (exclusive) values for the `k`-th chunk.
+///
+/// The chunk is empty iff both are equal. The maximum of the last chunk is one more than the
+/// biggest number with `number_digits` digits, represented by a first digit of `basis`.
 pub fn split_up_b_ary_number_into_n_chunks(
     number_digits: usize,
     basis: usize,
@@ -570,14 +573,15 @@ pub fn split_up_b_ary_number_into_n_chunks(
     k: usize,
 ) -> (Vec<usize>, Vec<usize>) {
     let total_values = basis.pow(number_digits as u32);
-    assert!(total_values > n);
-    let chunk_size = total_values / n;
 
-    let min_value = k * chunk_size;
-    let max_value = min_value + chunk_size - 1;
+    let min_value = k * total_values / n;
+    let max_value = (k + 1) * total_values / n;
 
     let min_digits = convert_to_b_ary_digits(min_value, basis, number_digits);
-    let max_digits = convert_to_b_ary_digits(max_value, basis, number_digits);
+    let mut max_digits = convert_to_b_ary_digits(max_value, basis, number_digits);
+    if max_value == total_values {
+        max_digits[0] = basis;
+    }
 
     (min_digits, max_digits)
 }
@@ -667,16 +671,17 @@ fn threaded_solver_generic(
                     number_of_threads,
                     i,
                 );
-                let mut min_digits = min_digits;
+                let mut next_prefix = Some(min_digits);
                 let mut current_prefix: Vec<usize> = Vec::new();
                 current_prefix.reserve(graph_matrix.dim());
 
                 // For each prefix
-                while let Some(next_value) = get_next_value(&mut min_digits, graph_matrix.dim()) {
+                while let Some(next_value) = next_prefix {
                     // early return if we have finished our chunk
                     if next_value == max_digits {
                         break;
                     }
+                    next_prefix = get_next_value(&mut next_value.clone(), graph_matrix.dim());
 
                     // if it has at least two times the same digit, its not a valid path
                     let is_unique =
@@ -896,14 +901,15 @@ fn static_mpi_solver_generic_nonroot(
     let mut local_solution = (f64::INFINITY, Vec::new());
     let mut global_best_cost = f64::INFINITY;
 
-    let mut min_digits = min_digits;
+    let mut next_prefix = Some(min_digits);
     let mut current_prefix: Vec<usize> = Vec::new();
     current_prefix.reserve(graph_matrix.dim());
-    while let Some(next_value) = get_next_value(&mut min_digits, graph_matrix.dim()) {
+    while let Some(next_value) = next_prefix {
         // early return if we have finished our chunk
         if next_value == max_digits {
             break;
         }
+        next_prefix = get_next_value(&mut next_value.clone(), graph_matrix.dim());
 
         // if it has at least two times the same digit, its not a valid path
         let is_unique = next_value.len() == next_value.iter().collect::<FxHashSet<_>>().len();
-- 
2.43.0


From 947c7c29f4f262ed05feaea4aaed1998a5230eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 06/14] fix: parallel exact solvers handle tiny instances and a
 lone process

Fewer vertices than the prefix length gave an infinite cost (threaded, static
MPI) or an out of bounds panic (dynamic MPI); an MPI world of one process has
no worker and reported an infinite cost.
---
 src/solvers/exact.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 51e7b37..7c11403 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -650,8 +650,8 @@ fn threaded_solver_generic(
             .into(),
     };
 
-    // if (number of threads >= n) we do seq
-    if number_of_threads >= graph_matrix.dim() {
+    // if (number of threads >= n) we do seq, as well as if a path is shorter than the prefixes
+    if number_of_threads >= graph_matrix.dim() || prefix_length > graph_matrix.dim() {
         return fifth_improved_solver(graph_matrix);
     }
 
@@ -797,6 +797,11 @@ pub fn static_mpi_solver_generic(graph_matrix: &NAMatrix, prefix_length: usize)
     let rank = world.rank();
     let root = world.process_at_rank(0);
 
+    // without a worker, or if a path is shorter than the prefixes, everybody does seq
+    if world.size() == 1 || prefix_length > graph_matrix.dim() {
+        return fifth_improved_solver(graph_matrix);
+    }
+
     // Will be used once the entire computation is done
     // Has to be available to both root and non-root as we broadcast into it
     let mut winner = MPICostRank(f64::INFINITY, 0);
@@ -1121,6 +1126,11 @@ pub fn dynamic_mpi_solver(graph_matrix: &NAMatrix) -> Solution {
     let rank = world.rank();
     let root = world.process_at_rank(0);
 
+    // without a worker, or if there is no first prefix (1, 2, 3), everybody does seq
+    if world.size() == 1 || graph_matrix.dim() <= 3 {
+        return fifth_improved_solver(graph_matrix);
+    }
+
     // Will be used once the entire computation is done
     // Has to be available to both root and non-root as we broadcast into it
     let mut winner = MPICostRank(f64::INFINITY, 0);
-- 
2.43.0


From e8db4b02632d8ecc6d948bd868953d429916653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 07/14] fix: MPI workers without a tour of their own receive
 the winner's tour

They took part in the final broadcast with an empty buffer: a mismatched count,
and an empty permutation on that process.
---
 src/solvers/exact.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 7c11403..cce9c52 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -903,7 +903,8 @@ fn static_mpi_solver_generic_nonroot(
         (size as usize) - 1,
         (rank as usize) - 1,
     );
-    let mut local_solution = (f64::INFINITY, Vec::new());
+    // the path gets overwritten by the winner's, so it has to have the right length from the start
+    let mut local_solution = (f64::INFINITY, vec![0; graph_matrix.dim()]);
     let mut global_best_cost = f64::INFINITY;
 
     let mut next_prefix = Some(min_digits);
@@ -1229,7 +1230,8 @@ fn dynamic_mpi_solver_nonroot(world: &SystemCommunicator, graph_matrix: &NAMatri
     let rank = world.rank();
     let root = world.process_at_rank(0);
 
-    let mut local_solution = (f64::INFINITY, Vec::new());
+    // the path gets overwritten by the winner's, so it has to have the right length from the start
+    let mut local_solution = (f64::INFINITY, vec![0; graph_matrix.dim()]);
 
     // Tell the root our result
     // Which is rubbish, but it implicitly asks for a prefix
-- 
2.43.0


From 3880bd13e2099f6c600cc311a15516ae70a279ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 08/14] fix: MPI 1-tree bound works with more processes than
 vertices

A process without a vertex of its own panicked and took the whole job down.
---
 src/one_tree.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/one_tree.rs b/src/one_tree.rs
index 214e4e6..16fae0a 100644
--- a/src/one_tree.rs
+++ b/src/one_tree.rs
@@ -119,6 +119,10 @@ fn one_tree_lower_bound_par(graph: &NAMatrix) -> f64 {
 #[cfg(feature = "mpi")]
 fn one_tree_lower_bound_mpi(graph: &NAMatrix) -> f64 {
     fn one_tree_lower_bound_mpi_with_world(graph: &NAMatrix, world: SystemCommunicator) -> f64 {
+        assert!(
+            graph.dim() > 0,
+            "Cannot compute the 1-tree lower bound of the empty graph"
+        );
         let rank = world.rank() as usize;
         let size = world.size() as usize;
         let root_process = world.process_at_rank(ROOT_RANK);
@@ -131,7 +135,8 @@ fn one_tree_lower_bound_mpi(graph: &NAMatrix) -> f64 {
                 x.partial_cmp(y)
                     .expect("Tried to compare NaN value. Your data seems currupt.")
             })
-            .expect("Cannot compute the 1-tree lower bound of the empty graph");
+            // with more processes than vertices some have nothing to do
+            .unwrap_or(f64::NEG_INFINITY);
 
         let mut global_lower_bound = f64::INFINITY;
         if rank as mpi::topology::Rank == ROOT_RANK {
-- 
2.43.0


From 6603ce13a71f29d157b951144d3ec2fc27f2a1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 09/14] fix: MPI nearest neighbour works with more processes
 than vertices

A process without a start vertex of its own panicked and took the whole job
down.
---
 src/solvers/approximate/nearest_neighbour.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solvers/approximate/nearest_neighbour.rs b/src/solvers/approximate/nearest_neighbour.rs
index 46dc1b0..e041dfa 100644
--- a/src/solvers/approximate/nearest_neighbour.rs
+++ b/src/solvers/approximate/nearest_neighbour.rs
@@ -147,7 +147,8 @@ pub fn nearest_neighbour_mpi(graph_matrix: &NAMatrix) -> Solution {
     let local_solution = (start_node..end_node)
         .map(|k| single_nearest_neighbour(graph_matrix, k.try_into().unwrap()))
         .min_by_key(|&(distance, _)| OrderedFloat(distance))
-        .unwrap();
+        // with more processes than vertices some have nothing to do
+        .unwrap_or_else(|| (f64::INFINITY, vec![0; graph_matrix.dim()]));
 
     // ALLREDUCE all solutions
     // If two solutions have same cost, we choose lower rank
-- 
2.43.0


From df3a6b8146e43b1f29d0710624b3755ca207019f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 10/14] fix: MPI matching accepts an empty matching

Christofides on a single vertex has nothing to match and panicked.
---
 src/solvers/approximate/matching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/approximate/matching.rs b/src/solvers/approximate/matching.rs
index 60998cc..c1728db 100644
--- a/src/solvers/approximate/matching.rs
+++ b/src/solvers/approximate/matching.rs
@@ -241,7 +241,7 @@ pub fn mpi_improve_matching<C: Communicator>(
         // then matching_singletons is a slice of length 2n and type `&mut [usize]`
         // safety: the memory is valid
         let matching_singletons =
-            unsafe { from_raw_parts(&matching[0][0] as *const usize, matching.len() * 2) };
+            unsafe { from_raw_parts(matching.as_ptr() as *const usize, matching.len() * 2) };
         root_process.send_with_tag(matching_singletons, MATCHING_TAG);
     } else {
         // if rank == crate::ROOT_RANK
@@ -356,7 +356,7 @@ fn broadcast_matching<C: Communicator>(root_process: &Process<C>, matching: &mut
     //    unsafe { from_raw_parts_mut(&mut matching_vec[0][0] as *mut usize, matching.len() * 2) }
     //};
     let matching_singletons =
-        unsafe { from_raw_parts_mut(&mut matching[0][0] as *mut usize, matching.len() * 2) };
+        unsafe { from_raw_parts_mut(matching.as_mut_ptr() as *mut usize, matching.len() * 2) };
     // distribute the matching from the root process to all other processes
     root_process.broadcast_into(matching_singletons);
 }
-- 
2.43.0


From 2a3ea663bd16f44bc0487a45a2bafd6b52132b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 11/14] fix: a self loop does not replace a missing edge

A vertex with the right number of edges, one of them to itself, passed as fully
connected although one of its neighbours is missing.
---
 src/preconditions.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/preconditions.rs b/src/preconditions.rs
index 3fe6dd4..0bf0220 100644
--- a/src/preconditions.rs
+++ b/src/preconditions.rs
@@ -8,7 +8,9 @@ use crate::datastructures::Graph;
 /// This is a prerequisite for the TSP.
 pub fn is_fully_connected(g: &Graph) -> bool {
     let n = g.num_vertices();
-    g.iter().all(|v| v.degree() == n - 1)
+    g.iter()
+        .enumerate()
+        .all(|(i, v)| v.degree() == n - 1 && v.iter().all(|edge| edge.to != i))
 }
 
 /// This function checks that whether the graph has multiple edges from one vertex to another
-- 
2.43.0


From a2dfdb372f9dc639204bedbd5179848c1e9c0dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 12/14] fix: MPI approximation can be combined with the 1-tree
 lower bound

The lower bound initialized MPI a second time and panicked, and processes other
than the root left before taking part in the reduction.
---
 src/lib.rs                                   | 21 +++++++++++++++-----
 src/solvers/approximate/nearest_neighbour.rs |  7 ++++---
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3b4ffa1..44e6e94 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -89,6 +89,13 @@ fn approx_run(
 ) -> Result<(), Box<dyn Error>> {
     let tsp_instance = get_tsp_instance(input_file.clone())?;
 
+    // MPI can only be initialized once: keep it until the lower bound is computed as well
+    #[cfg(feature = "mpi")]
+    let _universe = match parallelism {
+        Parallelism::MPI => mpi::initialize(),
+        _ => None,
+    };
+
     match algorithm {
         ApproxAlgorithm::Christofides => {
             let graph = (&tsp_instance.graph).into();
@@ -104,8 +111,7 @@ fn approx_run(
                 }
                 #[cfg(feature = "mpi")]
                 Parallelism::MPI => {
-                    let universe = mpi::initialize().unwrap();
-                    let world = universe.world();
+                    let world = SystemCommunicator::world();
                     let rank = world.rank();
                     let root_process = world.process_at_rank(0);
 
@@ -122,7 +128,11 @@ fn approx_run(
                             &graph,
                         );
                         mpi_improve_matching(&graph, matching.as_mut_slice(), tries, world);
-                        // non-root process is done here
+                        // non-root process is done here, except for its share of the 1-tree
+                        // lower bound
+                        if lower_bound == Some(LowerBoundAlgorithm::OneTree) {
+                            lower_bound_run(LowerBoundAlgorithm::OneTree, input_file, parallelism)?;
+                        }
                         return Ok(());
                     }
                 }
@@ -183,8 +193,9 @@ fn lower_bound_run(
                 }
                 #[cfg(feature = "mpi")]
                 Parallelism::MPI => {
-                    let universe = mpi::initialize().unwrap();
-                    let world = universe.world();
+                    // do not drop the universe until the lower bound has been computed!
+                    let _universe = mpi::initialize();
+                    let world = SystemCommunicator::world();
                     let rank = world.rank();
                     let result =
                         one_tree_lower_bound::<{ computation_mode::MPI_COMPUTATION }>(&na_matrix);
diff --git a/src/solvers/approximate/nearest_neighbour.rs b/src/solvers/approximate/nearest_neighbour.rs
index e041dfa..fbde44d 100644
--- a/src/solvers/approximate/nearest_neighbour.rs
+++ b/src/solvers/approximate/nearest_neighbour.rs
@@ -6,7 +6,7 @@ use rayon::iter::ParallelIterator;
 use rayon::prelude::IntoParallelIterator;
 
 #[cfg(feature = "mpi")]
-use mpi::{collective::UserOperation, traits::*};
+use mpi::{collective::UserOperation, topology::SystemCommunicator, traits::*};
 
 use crate::{
     computation_mode::{panic_on_invaid_mode, PAR_COMPUTATION, SEQ_COMPUTATION},
@@ -126,8 +126,9 @@ pub fn nearest_neighbour<const MODE: usize>(graph_matrix: &NAMatrix) -> Solution
 /// Now every node knows the global minimum and can successfully return it.
 #[cfg(feature = "mpi")]
 pub fn nearest_neighbour_mpi(graph_matrix: &NAMatrix) -> Solution {
-    let universe = mpi::initialize().unwrap();
-    let world = universe.world();
+    // do not drop the universe until we are finished!
+    let _universe = mpi::initialize();
+    let world = SystemCommunicator::world();
     let size = world.size();
     let rank = world.rank();
 
-- 
2.43.0


From 38dd86fb469d6d5573a4cbfe53b3134ac142e048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:37 +0000
Subject: [PATCH 13/14] fix: approx with a lower bound reads its input only
 once

The second read could fail (or, from a pipe, find nothing) after the first
result was printed; under MPI the other processes then waited forever.
---
 src/lib.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 44e6e94..b134f2b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -87,7 +87,7 @@ fn approx_run(
     parallelism: Parallelism,
     lower_bound: Option<LowerBoundAlgorithm>,
 ) -> Result<(), Box<dyn Error>> {
-    let tsp_instance = get_tsp_instance(input_file.clone())?;
+    let tsp_instance = get_tsp_instance(input_file)?;
 
     // MPI can only be initialized once: keep it until the lower bound is computed as well
     #[cfg(feature = "mpi")]
@@ -131,7 +131,11 @@ fn approx_run(
                         // non-root process is done here, except for its share of the 1-tree
                         // lower bound
                         if lower_bound == Some(LowerBoundAlgorithm::OneTree) {
-                            lower_bound_run(LowerBoundAlgorithm::OneTree, input_file, parallelism)?;
+                            print_lower_bound(
+                                LowerBoundAlgorithm::OneTree,
+                                &tsp_instance,
+                                parallelism,
+                            );
                         }
                         return Ok(());
                     }
@@ -166,7 +170,7 @@ fn approx_run(
     };
 
     if let Some(lower_bound_algo) = lower_bound {
-        lower_bound_run(lower_bound_algo, input_file, parallelism)?
+        print_lower_bound(lower_bound_algo, &tsp_instance, parallelism);
     }
     Ok(())
 }
@@ -178,6 +182,16 @@ fn lower_bound_run(
     parallelism: Parallelism,
 ) -> Result<(), Box<dyn Error>> {
     let tsp_instance = get_tsp_instance(input_file)?;
+    print_lower_bound(algorithm, &tsp_instance, parallelism);
+    Ok(())
+}
+
+/// Computes the lower bound of an instance that has been read already, and prints it
+fn print_lower_bound(
+    algorithm: LowerBoundAlgorithm,
+    tsp_instance: &TravellingSalesmanProblemInstance,
+    parallelism: Parallelism,
+) {
     let na_matrix: NAMatrix = (&tsp_instance.graph).into();
     #[cfg(feature = "benchmarking")]
     let now = Instant::now();
@@ -201,7 +215,7 @@ fn lower_bound_run(
                         one_tree_lower_bound::<{ computation_mode::MPI_COMPUTATION }>(&na_matrix);
                     // only the root process shall write to stdout
                     if rank != ROOT_RANK {
-                        return Ok(());
+                        return;
                     }
                     result
                 }
@@ -231,7 +245,6 @@ fn lower_bound_run(
     }
     #[cfg(feature = "benchmarking")]
     println!("elapsed seconds: {}", now.elapsed().as_secs_f64());
-    Ok(())
 }
 
 /// This function calls the main logic of our program.
-- 
2.43.0


From f15778f1486d8e76025bba4e24d8ec4fc6f4ff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 14/14] fix: a panicking MPI process ends the job instead of
 blocking it

Without the abort the process finalizes MPI while unwinding, and waits there
for the others, which wait for its share of the 1-tree lower bound.
---
 src/lib.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b134f2b..cfb70e4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -32,6 +32,22 @@ use mpi::topology::*;
 #[cfg(feature = "benchmarking")]
 use std::time::Instant;
 
+/// Keeps MPI alive for several computations in a row.
+///
+/// A process that panics in between ends the whole job, because the other processes would wait
+/// for it forever.
+#[cfg(feature = "mpi")]
+struct MpiSession(mpi::environment::Universe);
+
+#[cfg(feature = "mpi")]
+impl Drop for MpiSession {
+    fn drop(&mut self) {
+        if std::thread::panicking() {
+            self.0.world().abort(1);
+        }
+    }
+}
+
 /// Extracts the TSP instance from a TSPLIB-XML file.
 fn get_tsp_instance(
     input_file: PathBuf,
@@ -92,7 +108,7 @@ fn approx_run(
     // MPI can only be initialized once: keep it until the lower bound is computed as well
     #[cfg(feature = "mpi")]
     let _universe = match parallelism {
-        Parallelism::MPI => mpi::initialize(),
+        Parallelism::MPI => mpi::initialize().map(MpiSession),
         _ => None,
     };
 
-- 
2.43.0

