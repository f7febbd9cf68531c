From 07a8958fe18ecf762ece0a3ad7e1ae1ed4b64109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:50 +0000
Subject: [PATCH 1/6] fix: saturate weight sums instead of letting them wrap
 around

Sums of huge edge or initial weights overflowed, so in release builds a
route could be reported with a weight smaller than its real one (and debug
builds panicked). A sum that reaches WEIGHT_MAX now counts as unreachable.
---
 src/node_contractor.rs |  4 +++-
 src/path_calculator.rs | 30 ++++++++++++++++++++----------
 src/witness_search.rs  |  2 +-
 3 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/node_contractor.rs b/src/node_contractor.rs
index 1d7292d..f304ee1 100644
--- a/src/node_contractor.rs
+++ b/src/node_contractor.rs
@@ -72,7 +72,9 @@ pub fn handle_shortcuts<F>(
         let in_node = graph.in_edges[node][i].adj_node;
         witness_search.init(in_node, node);
         for j in 0..graph.out_edges[node].len() {
-            let weight = graph.in_edges[node][i].weight + graph.out_edges[node][j].weight;
+            let weight = graph.in_edges[node][i]
+                .weight
+                .saturating_add(graph.out_edges[node][j].weight);
             let out_node = graph.out_edges[node][j].adj_node;
             // no need to find the actual weight of a witness path as long as we can be sure
             // that there is some witness with weight smaller or equal to the removed direct
diff --git a/src/path_calculator.rs b/src/path_calculator.rs
index 98e0115..f5cc1bd 100644
--- a/src/path_calculator.rs
+++ b/src/path_calculator.rs
@@ -93,9 +93,9 @@ impl PathCalculator {
                 if *start_node == *end_node
                     && *start_weight < WEIGHT_MAX
                     && *end_weight < WEIGHT_MAX
-                    && *start_weight + *end_weight < best_weight
+                    && start_weight.saturating_add(*end_weight) < best_weight
                 {
-                    best_weight = *start_weight + *end_weight;
+                    best_weight = start_weight.saturating_add(*end_weight);
                     meeting_node = *end_node;
                 }
             }
@@ -142,7 +142,7 @@ impl PathCalculator {
                 for edge_id in begin..end {
                     let adj = graph.edges_fwd[edge_id].adj_node;
                     let edge_weight = graph.edges_fwd[edge_id].weight;
-                    let weight = curr.weight + edge_weight;
+                    let weight = curr.weight.saturating_add(edge_weight);
                     if weight < self.get_weight_fwd(adj) {
                         self.update_node_fwd(adj, weight, curr.node_id, edge_id);
                         self.heap_fwd.push(HeapItem::new(weight, adj));
@@ -150,9 +150,14 @@ impl PathCalculator {
                 }
                 self.data_fwd[curr.node_id].settled = true;
                 if self.valid_flags_bwd.is_valid(curr.node_id)
-                    && curr.weight + self.get_weight_bwd(curr.node_id) < best_weight
+                    && curr
+                        .weight
+                        .saturating_add(self.get_weight_bwd(curr.node_id))
+                        < best_weight
                 {
-                    best_weight = curr.weight + self.get_weight_bwd(curr.node_id);
+                    best_weight = curr
+                        .weight
+                        .saturating_add(self.get_weight_bwd(curr.node_id));
                     meeting_node = curr.node_id;
                 }
                 break;
@@ -178,7 +183,7 @@ impl PathCalculator {
                 for edge_id in begin..end {
                     let adj = graph.edges_bwd[edge_id].adj_node;
                     let edge_weight = graph.edges_bwd[edge_id].weight;
-                    let weight = curr.weight + edge_weight;
+                    let weight = curr.weight.saturating_add(edge_weight);
                     if weight < self.get_weight_bwd(adj) {
                         self.update_node_bwd(adj, weight, curr.node_id, edge_id);
                         self.heap_bwd.push(HeapItem::new(weight, adj));
@@ -186,9 +191,14 @@ impl PathCalculator {
                 }
                 self.data_bwd[curr.node_id].settled = true;
                 if self.valid_flags_fwd.is_valid(curr.node_id)
-                    && curr.weight + self.get_weight_fwd(curr.node_id) < best_weight
+                    && curr
+                        .weight
+                        .saturating_add(self.get_weight_fwd(curr.node_id))
+                        < best_weight
                 {
-                    best_weight = curr.weight + self.get_weight_fwd(curr.node_id);
+                    best_weight = curr
+                        .weight
+                        .saturating_add(self.get_weight_fwd(curr.node_id));
                     meeting_node = curr.node_id;
                 }
                 break;
@@ -220,7 +230,7 @@ impl PathCalculator {
                 continue;
             }
             let edge_weight = graph.edges_bwd[edge_id].weight;
-            if adj_weight + edge_weight < curr.weight {
+            if adj_weight.saturating_add(edge_weight) < curr.weight {
                 return true;
             }
         }
@@ -237,7 +247,7 @@ impl PathCalculator {
                 continue;
             }
             let edge_weight = graph.edges_fwd[edge_id].weight;
-            if adj_weight + edge_weight < curr.weight {
+            if adj_weight.saturating_add(edge_weight) < curr.weight {
                 return true;
             }
         }
diff --git a/src/witness_search.rs b/src/witness_search.rs
index c64ffdd..dab91a1 100644
--- a/src/witness_search.rs
+++ b/src/witness_search.rs
@@ -131,7 +131,7 @@ impl WitnessSearch {
                     continue;
                 }
                 let edge_weight = graph.out_edges[curr.node_id][i].weight;
-                let weight = curr.weight + edge_weight;
+                let weight = curr.weight.saturating_add(edge_weight);
                 if weight < self.get_current_weight(adj) {
                     self.update_node(adj, weight);
                     self.heap.push(HeapItem::new(weight, adj));
-- 
2.43.0


From 2fe873a4b3f1a2a8b520acbc30adf5a05a718396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:50 +0000
Subject: [PATCH 2/6] fix: refuse u32::MAX when converting to the 32bit
 representation

u32::MAX stands for usize::MAX there, so a weight of 2^32 - 1 silently
became WEIGHT_MAX (unreachable) when the graph was loaded again.
---
 src/fast_graph32.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/fast_graph32.rs b/src/fast_graph32.rs
index fcb12a5..f6c0cf8 100644
--- a/src/fast_graph32.rs
+++ b/src/fast_graph32.rs
@@ -42,7 +42,8 @@ pub struct FastGraph32 {
 impl FastGraph32 {
     /// Creates a 32bit Graph from a given `FastGraph`. All (potentially 64bit) `usize` integers are
     /// simply converted to u32 and if a value exceeds the 32bit limit an error is thrown. The only
-    /// exception is `std::u32::MAX`, which is converted to `std::usize::MAX`.
+    /// exception is `std::usize::MAX`, which is converted to `std::u32::MAX`. Since `std::u32::MAX`
+    /// is reserved for this purpose it is not accepted as a value.
     pub fn new(fast_graph: &FastGraph) -> Self {
         FastGraph32 {
             num_nodes: usize_to_u32(fast_graph.get_num_nodes()),
@@ -79,11 +80,13 @@ pub struct FastGraphEdge32 {
 
 fn usize_to_u32(int: usize) -> u32 {
     if int == std::usize::MAX {
-        usize_to_u32(std::u32::MAX as usize)
-    } else if let Ok(x) = u32::try_from(int) {
-        x
+        std::u32::MAX
     } else {
-        panic!("Could not convert {} to a 32-bit integer", int);
+        match u32::try_from(int) {
+            // u32::MAX itself is taken, it represents usize::MAX
+            Ok(x) if x != std::u32::MAX => x,
+            _ => panic!("Could not convert {} to a 32-bit integer", int),
+        }
     }
 }
 
-- 
2.43.0


From 60a23cf97c76bec4168919c9bd95c5f6244d2acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:50 +0000
Subject: [PATCH 3/6] fix: report errors of the final flush when writing graph
 files

to_file and to_dimacs_file relied on dropping the BufWriter, which ignores
errors, so they returned Ok even if nothing could be written.
---
 src/input_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input_graph.rs b/src/input_graph.rs
index cae2687..ef0c1a8 100644
--- a/src/input_graph.rs
+++ b/src/input_graph.rs
@@ -73,7 +73,7 @@ impl InputGraph {
         for edge in self.get_edges() {
             writeln!(f, "a {} {} {}", edge.from, edge.to, edge.weight)?;
         }
-        Ok(())
+        f.flush()
     }
 
     /// Reads an input graph from a text file, using the DIMACS format:
@@ -107,7 +107,7 @@ impl InputGraph {
         for edge in self.get_edges() {
             writeln!(f, "a {} {} {}", edge.from + 1, edge.to + 1, edge.weight)?;
         }
-        Ok(())
+        f.flush()
     }
 
     pub fn add_edge(&mut self, from: NodeId, to: NodeId, weight: Weight) -> usize {
-- 
2.43.0


From fa8bcedc06c73f27558f452ea3d7e20091597037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:50 +0000
Subject: [PATCH 4/6] fix: keep the number of nodes stated in a DIMACS file

Nodes without edges at the end of the id range were dropped, because the
node count of the problem line was only used for validation.
---
 src/input_graph.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/input_graph.rs b/src/input_graph.rs
index ef0c1a8..c779892 100644
--- a/src/input_graph.rs
+++ b/src/input_graph.rs
@@ -315,6 +315,8 @@ impl InputGraph {
             "Not enough arc lines: {}, expected: {}",
             curr_edges, edges
         );
+        // there might be nodes without any (valid) edges
+        g.num_nodes = cmp::max(g.num_nodes, nodes);
         g.freeze();
         g
     }
-- 
2.43.0


From 7f7fccc1c4d3d8f2cdd76e2f30292ca7cc2d00b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:11 +0000
Subject: [PATCH 5/6] fix: refuse node orderings that contain a node twice

prepare_with_order accepted them as long as the length was right and
produced a graph that gave wrong results, because other nodes were missing.
---
 src/fast_graph_builder.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fast_graph_builder.rs b/src/fast_graph_builder.rs
index 19137cc..91e7c1e 100644
--- a/src/fast_graph_builder.rs
+++ b/src/fast_graph_builder.rs
@@ -76,6 +76,15 @@ impl FastGraphBuilder {
                 "The given order must have as many nodes as the input graph",
             ));
         }
+        let mut seen = vec![false; order.len()];
+        for node in order {
+            if *node < seen.len() && std::mem::replace(&mut seen[*node], true) {
+                return Err(format!(
+                    "The given order must not contain the same node twice: {}",
+                    node
+                ));
+            }
+        }
         let mut builder = FastGraphBuilder::new(input_graph);
         builder.run_contraction_with_order(input_graph, order, params);
         Ok(builder.fast_graph)
-- 
2.43.0


From 9d1773bb4e3f7877a154d98f989c26c31e82682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:39 +0000
Subject: [PATCH 6/6] fix: unpack shortcuts without recursion

Depending on the node ordering shortcuts can be nested as deeply as there
are nodes, so calculating a path could overflow the stack.
---
 src/path_calculator.rs | 97 ++++++++++++++++--------------------------
 1 file changed, 36 insertions(+), 61 deletions(-)

diff --git a/src/path_calculator.rs b/src/path_calculator.rs
index f5cc1bd..a100650 100644
--- a/src/path_calculator.rs
+++ b/src/path_calculator.rs
@@ -277,70 +277,45 @@ impl PathCalculator {
     }
 
     fn unpack_fwd(graph: &FastGraph, nodes: &mut Vec<NodeId>, edge_id: EdgeId, reverse: bool) {
-        if !graph.edges_fwd[edge_id].is_shortcut() {
-            nodes.push(graph.edges_fwd[edge_id].base_node);
-            return;
-        }
-        if reverse {
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_out_edge,
-                reverse,
-            );
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-        } else {
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_out_edge,
-                reverse,
-            );
-        }
+        PathCalculator::unpack(graph, nodes, edge_id, true, reverse)
     }
 
     fn unpack_bwd(graph: &FastGraph, nodes: &mut Vec<NodeId>, edge_id: EdgeId, reverse: bool) {
-        if !graph.edges_bwd[edge_id].is_shortcut() {
-            nodes.push(graph.edges_bwd[edge_id].adj_node);
-            return;
-        }
-        if reverse {
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_out_edge,
-                reverse,
-            );
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-        } else {
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_out_edge,
-                reverse,
-            );
+        PathCalculator::unpack(graph, nodes, edge_id, false, reverse)
+    }
+
+    /// Unpacks the given fwd or bwd edge. Shortcuts can be nested as deeply as there are nodes in
+    /// the graph, so we use an explicit stack here rather than recursion.
+    fn unpack(
+        graph: &FastGraph,
+        nodes: &mut Vec<NodeId>,
+        edge_id: EdgeId,
+        is_fwd: bool,
+        reverse: bool,
+    ) {
+        let mut stack = vec![(edge_id, is_fwd)];
+        while let Some((edge_id, is_fwd)) = stack.pop() {
+            let edge = if is_fwd {
+                &graph.edges_fwd[edge_id]
+            } else {
+                &graph.edges_bwd[edge_id]
+            };
+            if !edge.is_shortcut() {
+                nodes.push(if is_fwd {
+                    edge.base_node
+                } else {
+                    edge.adj_node
+                });
+                continue;
+            }
+            // the edge that is pushed last comes first
+            if reverse {
+                stack.push((edge.replaced_in_edge, false));
+                stack.push((edge.replaced_out_edge, true));
+            } else {
+                stack.push((edge.replaced_out_edge, true));
+                stack.push((edge.replaced_in_edge, false));
+            }
         }
     }
 
-- 
2.43.0

