From 1c007aa756a4bfa2cd175bbc3d95dfbe10d16023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 01/52] fix: padberg_rinaldi and matula_approx contract a copy,
 not the caller's mutable graph

With a mutable_graph the contraction ran in place: the input graph of the
caller was destroyed, all levels of 'graphs' aliased one object and the saved
cut was not the cut whose value is reported.
---
 lib/algorithms/global_mincut/matula_approx.h   | 3 ++-
 lib/algorithms/global_mincut/padberg_rinaldi.h | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/algorithms/global_mincut/matula_approx.h b/lib/algorithms/global_mincut/matula_approx.h
index 3f36082..f162bfe 100644
--- a/lib/algorithms/global_mincut/matula_approx.h
+++ b/lib/algorithms/global_mincut/matula_approx.h
@@ -57,7 +57,8 @@ class matula_approx : public minimum_cut {
             auto uf = noi.modified_capforest(
                 graphs.back(),
                 std::max(mincut / 2, static_cast<EdgeWeight>(1)));
-            graphs.emplace_back(contraction::fromUnionFind(graphs.back(), &uf));
+            graphs.emplace_back(
+                contraction::fromUnionFind(graphs.back(), &uf, true));
             mincut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, mincut);
         }
 
diff --git a/lib/algorithms/global_mincut/padberg_rinaldi.h b/lib/algorithms/global_mincut/padberg_rinaldi.h
index 09a4b04..0c1a0ec 100644
--- a/lib/algorithms/global_mincut/padberg_rinaldi.h
+++ b/lib/algorithms/global_mincut/padberg_rinaldi.h
@@ -54,12 +54,14 @@ class padberg_rinaldi : public minimum_cut {
                && graphs.back()->number_of_nodes() < last_nodes) {
             last_nodes = graphs.back()->number_of_nodes();
             union_find uf_34 = tests::prTests34(graphs.back(), cut);
-            auto G_34 = contraction::fromUnionFind(graphs.back(), &uf_34);
+            auto G_34 = contraction::fromUnionFind(
+                graphs.back(), &uf_34, true);
             graphs.push_back(G_34);
             cut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, cut);
 
             union_find uf_12 = tests::prTests12(graphs.back(), cut);
-            auto G_12 = contraction::fromUnionFind(graphs.back(), &uf_12);
+            auto G_12 = contraction::fromUnionFind(
+                graphs.back(), &uf_12, true);
             graphs.push_back(G_12);
             cut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, cut);
         }
-- 
2.43.0


From bc0654a665b8aef15c120016cebc09c290f1059c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 02/52] fix: keep the coarse vertex ids of copied contractions
 also without save_cut

The cactus algorithms unpack the coarse graphs with getPartitionIndex. Without
save_cut fromUnionFind did not set it, so a cactus computed on a mutable_graph
read and wrote outside of its vertex arrays.
---
 lib/coarsening/contract_graph.h          | 6 +++---
 lib/parallel/coarsening/contract_graph.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/coarsening/contract_graph.h b/lib/coarsening/contract_graph.h
index 4abb7ba..93e3982 100644
--- a/lib/coarsening/contract_graph.h
+++ b/lib/coarsening/contract_graph.h
@@ -148,7 +148,7 @@ class contraction {
                 part[part_id] = current_pid++;
             }
             mapping[n] = part[part_id];
-            if (save_cut) {
+            if (save_cut || copy) {
                 G->setPartitionIndex(n, part[part_id]);
             }
             reverse_mapping[part[part_id]].push_back(
@@ -208,7 +208,7 @@ class contraction {
     }
 
     static graphAccessPtr fromUnionFind(graphAccessPtr G, union_find* uf,
-                                        bool = false) {
+                                        bool copy = false) {
         std::vector<std::vector<NodeID> > reverse_mapping(uf->n());
 
         std::vector<NodeID> mapping(G->number_of_nodes());
@@ -224,7 +224,7 @@ class contraction {
             }
 
             mapping[n] = part[part_id];
-            if (save_cut) {
+            if (save_cut || copy) {
                 G->setPartitionIndex(n, part[part_id]);
             }
             reverse_mapping[part[part_id]].push_back(n);
diff --git a/lib/parallel/coarsening/contract_graph.h b/lib/parallel/coarsening/contract_graph.h
index 281f40c..f1a8f5a 100644
--- a/lib/parallel/coarsening/contract_graph.h
+++ b/lib/parallel/coarsening/contract_graph.h
@@ -194,7 +194,7 @@ class contraction {
                 part[part_id] = current_pid++;
             }
             mapping[n] = part[part_id];
-            if (save_cut) {
+            if (save_cut || copy) {
                 G->setPartitionIndex(n, part[part_id]);
             }
             reverse_mapping[part[part_id]].push_back(
@@ -252,7 +252,7 @@ class contraction {
     static graphAccessPtr fromUnionFind(
         graphAccessPtr G,
         union_find* uf,
-        bool = false) {
+        bool copy = false) {
         std::vector<std::vector<NodeID> > rev_mapping;
         const bool save_cut = configuration::getConfig()->save_cut;
 
@@ -268,7 +268,7 @@ class contraction {
             }
 
             mapping[n] = part[part_id];
-            if (save_cut) {
+            if (save_cut || copy) {
                 G->setPartitionIndex(n, part[part_id]);
             }
             rev_mapping[part[part_id]].push_back(n);
-- 
2.43.0


From bf7fa9db29220c3d7b998552559d0f643d1b5e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 03/52] fix: drop guaranteed cactus edges when the final exact
 run improves the cut

The edges that were recorded for the previous, larger cut value are not cactus
edges any more. They were re-inserted with the new weight, so the cactus
contained cuts that are not minimum.
---
 lib/algorithms/global_mincut/cactus/cactus_mincut.h | 11 +++++++++--
 lib/parallel/algorithm/parallel_cactus.h            | 10 ++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/lib/algorithms/global_mincut/cactus/cactus_mincut.h b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
index 9a97994..e534025 100644
--- a/lib/algorithms/global_mincut/cactus/cactus_mincut.h
+++ b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
@@ -164,8 +164,15 @@ class cactus_mincut : public minimum_cut {
             }
         }
 
-        if (graphs.back()->number_of_nodes() > 1)
-            mincut = noi.perform_minimum_cut(graphs.back());
+        if (graphs.back()->number_of_nodes() > 1) {
+            EdgeWeight hidden_cut = noi.perform_minimum_cut(graphs.back());
+            if (hidden_cut < mincut) {
+                // mincut has improved, so there are no guaranteed edges
+                guaranteed_edges.clear();
+                ge_ids.clear();
+            }
+            mincut = hidden_cut;
+        }
 
         rc.setMincut(mincut);
         auto out_graph = rc.flowMincut(graphs);  // This is the cactus graph!
diff --git a/lib/parallel/algorithm/parallel_cactus.h b/lib/parallel/algorithm/parallel_cactus.h
index 3417342..b239567 100644
--- a/lib/parallel/algorithm/parallel_cactus.h
+++ b/lib/parallel/algorithm/parallel_cactus.h
@@ -191,8 +191,14 @@ class parallel_cactus : public minimum_cut {
 
         // check whether there is a small cut hidden in graphs.back()
         if (graphs.back()->number_of_nodes() > 1) {
-            mincut = std::min(mincut,
-                              mc.perform_minimum_cut(graphs.back(), true));
+            EdgeWeight hidden_cut =
+                mc.perform_minimum_cut(graphs.back(), true);
+            if (hidden_cut < mincut) {
+                mincut = hidden_cut;
+                // mincut has improved, so there are no guaranteed edges
+                guaranteed_edges.clear();
+                ge_ids.clear();
+            }
         }
 
         rc.setMincut(mincut);
-- 
2.43.0


From 510370dfba896ee616fd6ccd79aed578b67efe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 04/52] fix: viecut reports the saved cut of the coarsest graph
 on the input graph

When coarsening ran (more than 10000 vertices) a cut found by the exact
algorithm on the coarsest graph, and vertices moved by findTrivialCuts, were
not reflected in the cut that is stored in the input graph.
---
 lib/algorithms/global_mincut/viecut.h | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/global_mincut/viecut.h b/lib/algorithms/global_mincut/viecut.h
index 0a7e601..5985b8f 100644
--- a/lib/algorithms/global_mincut/viecut.h
+++ b/lib/algorithms/global_mincut/viecut.h
@@ -83,6 +83,13 @@ class viecut : public minimum_cut {
             contraction::findTrivialCuts(G, &mapping, &reverse_mapping, cut);
             LOGC(timing) << "Trivial Cut Local Search: " << t.elapsedToZero();
 
+            if (configuration::getConfig()->save_cut) {
+                // findTrivialCuts moves vertices to new blocks
+                for (NodeID n : G->nodes()) {
+                    G->setPartitionIndex(n, mapping[n]);
+                }
+            }
+
             auto H = contraction::contractGraph(G, mapping, reverse_mapping);
             graphs.push_back(H);
             cut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, cut);
@@ -106,7 +113,22 @@ class viecut : public minimum_cut {
         if (graphs.back()->number_of_nodes() > 1) {
             timer t;
             noi_minimum_cut<GraphPtr> noi;
-            cut = std::min(cut, noi.perform_minimum_cut(graphs.back(), true));
+            EdgeWeight coarse_cut =
+                noi.perform_minimum_cut(graphs.back(), true);
+
+            if (coarse_cut < cut && graphs.size() > 1
+                && configuration::getConfig()->save_cut) {
+                // cut was found on coarsest graph, transfer to input graph
+                for (NodeID n : graphs[0]->nodes()) {
+                    NodeID coarse_n = n;
+                    for (size_t lv = 0; lv < graphs.size() - 1; ++lv) {
+                        coarse_n = graphs[lv]->getPartitionIndex(coarse_n);
+                    }
+                    graphs[0]->setNodeInCut(
+                        n, graphs.back()->getNodeInCut(coarse_n));
+                }
+            }
+            cut = std::min(cut, coarse_cut);
 
             LOGC(timing) << "Exact Algorithm:"
                          << t.elapsedToZero() << " deg: "
-- 
2.43.0


From c10aa549db14d60170582b160e98760dc91c1da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 05/52] fix: ks_minimum_cut stores the cut of the better
 recursion

The second recursive call overwrites the partition indices of the common
graph, so the cut of the first call was read through the wrong mapping.
---
 lib/algorithms/global_mincut/ks_minimum_cut.h | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index c34eb35..f04b033 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -197,16 +197,27 @@ class ks_minimum_cut : public minimum_cut {
         EdgeWeight mincut_to_return = 0;
 
         if (graphs.back()->number_of_nodes() > 50) {
+            const bool save_cut = configuration::getConfig()->save_cut;
             auto w1 = recurse(current_position, iteration);
+            std::vector<bool> w1_in_cut(G2->number_of_nodes());
+            if (save_cut) {
+                // partition indices are overwritten by second recursion
+                for (NodeID n : G2->nodes()) {
+                    w1_in_cut[n] = graphs[w1.second]->getNodeInCut(
+                        G2->getPartitionIndex(n));
+                }
+            }
             /* pseudo-random seed */
             auto w2 = recurse(current_position, iteration + 9273);
 
-            if (configuration::getConfig()->save_cut) {
-                size_t u_from = w1.first < w2.first ? w1.second : w2.second;
+            if (save_cut) {
                 for (NodeID n : G2->nodes()) {
-                    NodeID ctr = G2->getPartitionIndex(n);
-                    PartitionID pid = graphs[u_from]->getNodeInCut(ctr);
-                    G2->setNodeInCut(n, pid);
+                    if (w1.first < w2.first) {
+                        G2->setNodeInCut(n, w1_in_cut[n]);
+                    } else {
+                        G2->setNodeInCut(n, graphs[w2.second]->getNodeInCut(
+                                             G2->getPartitionIndex(n)));
+                    }
                 }
             }
             mincut_to_return = std::min(w1.first, w2.first);
-- 
2.43.0


From a86772b6ae7c8c298f0820d00d3cd5029d3aafde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 06/52] fix: ks_minimum_cut terminates on disconnected graphs

Random edge sampling never reaches the requested number of blocks (or divides
by zero when there is no edge at all).
---
 lib/algorithms/global_mincut/ks_minimum_cut.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index f04b033..a60a6bb 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -23,6 +23,7 @@
 
 #include "algorithms/global_mincut/minimum_cut.h"
 #include "algorithms/global_mincut/noi_minimum_cut.h"
+#include "algorithms/misc/strongly_connected_components.h"
 #include "data_structure/graph_access.h"
 #include "tools/random_functions.h"
 #include "tools/timer.h"
@@ -55,6 +56,19 @@ class ks_minimum_cut : public minimum_cut {
         std::vector<PartitionID> best_partition(G->number_of_nodes());
         timer t;
         const bool save_cut = configuration::getConfig()->save_cut;
+
+        // edge sampling can not contract a disconnected graph
+        std::vector<int> components(G->number_of_nodes());
+        strongly_connected_components scc;
+        if (scc.strong_components(G, &components) > 1) {
+            if (save_cut) {
+                for (NodeID n : G->nodes()) {
+                    G->setNodeInCut(n, components[n] == components[0]);
+                }
+            }
+            return 0;
+        }
+
         for (size_t i = 0; i < std::log2(G->number_of_nodes())
              && mincut > configuration::getConfig()->optimal; ++i) {
             graphs.push_back(G);
-- 
2.43.0


From 9c75d8a2b33f670da7bc65fcab4d496895685bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 07/52] fix: vertices split off in the recursive cactus do not
 stay in the contracted graph

Their position still pointed into the contracted graph, so findSTCactus could
put them into one of its blocks and the cactus lost minimum cuts and listed
empty ones (e.g. with edge_selection central).
---
 lib/algorithms/global_mincut/cactus/recursive_cactus.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/algorithms/global_mincut/cactus/recursive_cactus.h b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
index 14a9f97..dbcd7a7 100644
--- a/lib/algorithms/global_mincut/cactus/recursive_cactus.h
+++ b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
@@ -187,6 +187,10 @@ class recursive_cactus {
                 for (NodeID n : elementsInOther) {
                     G->setCurrentPosition(n, contracted_v);
                 }
+                // re-inserted after recursion, not part of graph until then
+                for (NodeID n : elementsInCtr) {
+                    G->setCurrentPosition(n, UNDEFINED_NODE);
+                }
 
                 VIECUT_ASSERT_TRUE(graph_modification::isCNCR(G, mincut));
                 auto ret = recursiveCactus(G, depth + 1);
-- 
2.43.0


From 1ae9891af1ed409fda29d47427e81feb5f9181f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 08/52] fix: per_thread_problem_queue checks and sets the send
 problem under its mutex

Two threads could both see an empty send slot and the second one overwrote the
subproblem of the first, which was lost. The mutex was also unlocked twice.
---
 .../problem_queues/per_thread_problem_queue.h | 25 ++++++-------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h b/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
index 617657e..155dea4 100644
--- a/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
+++ b/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
@@ -160,37 +160,28 @@ class per_thread_problem_queue {
         }
 
         pop_mutex[min_index].lock();
+        send_problem_mutex.lock();
 
         if (!haveSendProblem) {
-            send_problem_mutex.lock();
-
             sendProblem = p;
             sendProblemWeight = sendProblem->lower_bound;
             haveSendProblem = true;
-            pop_mutex[min_index].unlock();
             send_problem_mutex.unlock();
+            pop_mutex[min_index].unlock();
             return local_id;
         }
 
         sizes[min_index].first += 1;
 
-        bool movedProblem = false;
         if (sendProblemWeight > p->lower_bound) {
-            send_problem_mutex.lock();
-            if (haveSendProblem) {
-                problemPointer mcp = sendProblem;
-                pq[min_index].push(mcp);
-                sendProblem = p;
-                sendProblemWeight = sendProblem->lower_bound;
-                movedProblem = true;
-                send_problem_mutex.unlock();
-            }
-            send_problem_mutex.unlock();
-        }
-
-        if (!movedProblem) {
+            problemPointer mcp = sendProblem;
+            pq[min_index].push(mcp);
+            sendProblem = p;
+            sendProblemWeight = sendProblem->lower_bound;
+        } else {
             pq[min_index].push(p);
         }
+        send_problem_mutex.unlock();
         pop_mutex[min_index].unlock();
         return min_index;
     }
-- 
2.43.0


From 90dbad4b1745f290a41dfb43eb4abe79ce2eb108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 09/52] fix: compare and replace the best multicut solution
 under one lock

The bound was compared and written before the mutex was taken, so a worse
solution could overwrite a better one found by another thread.
---
 lib/algorithms/multicut/problem_management.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/algorithms/multicut/problem_management.h b/lib/algorithms/multicut/problem_management.h
index c856bce..2436b35 100644
--- a/lib/algorithms/multicut/problem_management.h
+++ b/lib/algorithms/multicut/problem_management.h
@@ -267,17 +267,17 @@ class problem_management {
         if (prev_gub > beforeLSGUB[numTerminals])
             return std::nullopt;
 
+        bestsol_mutex.lock();
         if (prev_gub < global_upper_bound) {
             global_upper_bound = prev_gub;
             LOG1 << "Improvement after " << t.elapsed()
                  << " to " << prev_gub << " (beforehand)";
-            bestsol_mutex.lock();
             for (size_t i = 0; i < current_solution->size(); ++i) {
                 best_solution[i] = (*current_solution)[i];
             }
             initalizeBestSolution();
-            bestsol_mutex.unlock();
         }
+        bestsol_mutex.unlock();
         FlowType total_improvement = ls.improveSolution(t);
         FlowType ls_bound = prev_gub - total_improvement;
 
@@ -286,16 +286,15 @@ class problem_management {
             beforeLSGUB[numTerminals] = prev_gub;
         }
 
+        std::lock_guard<std::mutex> bestsol_lock(bestsol_mutex);
         if (ls_bound < global_upper_bound || !bestSolutionInitialized) {
             global_upper_bound = ls_bound;
             LOG1 << "Improvement after " << t.elapsed() << " to " << ls_bound;
 
-            bestsol_mutex.lock();
             for (size_t i = 0; i < current_solution->size(); ++i) {
                 best_solution[i] = (*current_solution)[i];
             }
             initalizeBestSolution();
-            bestsol_mutex.unlock();
             return ls_bound;
         }
         return std::nullopt;
@@ -386,6 +385,7 @@ class problem_management {
     }
 
     void updateBound(FlowType newSolution) {
+        std::lock_guard<std::mutex> bestsol_lock(bestsol_mutex);
         global_upper_bound = std::min(newSolution, global_upper_bound);
     }
 
-- 
2.43.0


From e051833e4b4313634b3de36fa2d03d971daa124c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 10/52] fix: link concurrent union_find roots with a single
 compare-and-swap

Parent and rank were updated by separate operations: a thread that read the
old ranks could still link a root below its own new child, which closes a
parent cycle (Find does not terminate), and ranks could be lost.
---
 lib/parallel/data_structure/union_find.h | 40 ++++--------------------
 1 file changed, 6 insertions(+), 34 deletions(-)

diff --git a/lib/parallel/data_structure/union_find.h b/lib/parallel/data_structure/union_find.h
index 71080ae..efc7ae9 100644
--- a/lib/parallel/data_structure/union_find.h
+++ b/lib/parallel/data_structure/union_find.h
@@ -22,18 +22,15 @@
 // This is sometimes also caled "disjoint sets datastructure.
 class union_find {
  public:
-    explicit union_find(unsigned n) : m_parent(n), m_rank(n) {
+    explicit union_find(unsigned n) : m_parent(n) {
         for (unsigned i = 0; i < m_parent.size(); i++) {
             m_parent[i] = i;
-            m_rank[i] = 0;
         }
     }
 
     union_find(const union_find& uf) = default;
 
     inline bool Union(unsigned lhs, unsigned rhs) {
-        unsigned r_lhs, r_rhs;
-
         while (true) {
             lhs = Find(lhs);
             rhs = Find(rhs);
@@ -42,23 +39,15 @@ class union_find {
                 return false;
             }
 
-            r_lhs = m_rank[lhs];
-            r_rhs = m_rank[rhs];
-
-            if (r_lhs > r_rhs || (r_lhs == r_rhs && lhs > rhs)) {
+            // always link to the root with larger id: parent pointers are
+            // strictly increasing, so concurrent links can not form a cycle
+            if (lhs > rhs) {
                 std::swap(lhs, rhs);
-                std::swap(r_lhs, r_rhs);
             }
 
-            if (UpdateRoot(lhs, r_lhs, rhs, r_rhs))
-                break;
-        }
-
-        if (r_lhs == r_rhs) {
-            UpdateRoot(rhs, r_rhs, rhs, r_rhs + 1);
+            if (__sync_bool_compare_and_swap(&m_parent[lhs], lhs, rhs))
+                return true;
         }
-
-        return true;
     }
 
     inline bool SameSet(unsigned x, unsigned y) {
@@ -97,22 +86,5 @@ class union_find {
     }
 
  private:
-    inline bool UpdateRoot(unsigned x, unsigned xr, unsigned y, unsigned yr) {
-        unsigned old = x;
-        if (m_parent[old] != x || m_rank[old] != xr) {
-            return false;
-        }
-
-        if (__sync_bool_compare_and_swap(&m_parent[x], old, y)) {
-            if (__sync_bool_compare_and_swap(&m_rank[x], m_rank[old], yr)) {
-                return true;
-            }
-
-            __sync_bool_compare_and_swap(&m_parent[x], y, old);
-        }
-        return false;
-    }
-
     std::vector<unsigned> m_parent;
-    std::vector<unsigned> m_rank;
 };
-- 
2.43.0


From f3a5c490d8a6c11da96a3d04864f83570144eea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 11/52] fix: priority queue keys are edge weights, not 32-bit
 node weights

Keys above 2^32 were truncated, so the search order of the exact algorithm
was wrong and it returned cuts that are not minimum.
---
 lib/common/definitions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/common/definitions.h b/lib/common/definitions.h
index 6a4b870..2554cbb 100644
--- a/lib/common/definitions.h
+++ b/lib/common/definitions.h
@@ -32,7 +32,7 @@ typedef uint64_t PathID;
 typedef uint32_t PartitionID;
 typedef uint32_t NodeWeight;
 typedef uint64_t EdgeWeight;
-typedef NodeWeight Gain;
+typedef EdgeWeight Gain;
 typedef int32_t Color;
 typedef uint64_t Count;
 typedef int64_t FlowType;
-- 
2.43.0


From 63ab8fe21f8026584be826e55f3e6664cecc7d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 12/52] fix: dynamic insertion contracts exactly the vertices
 separating s and t in the cactus

---
 .../global_mincut/dynamic/cactus_path.h       | 96 +++++++++++--------
 1 file changed, 55 insertions(+), 41 deletions(-)

diff --git a/lib/algorithms/global_mincut/dynamic/cactus_path.h b/lib/algorithms/global_mincut/dynamic/cactus_path.h
index 7a6afb7..abcc455 100644
--- a/lib/algorithms/global_mincut/dynamic/cactus_path.h
+++ b/lib/algorithms/global_mincut/dynamic/cactus_path.h
@@ -11,8 +11,8 @@
 
 #pragma once
 
+#include <algorithm>
 #include <queue>
-#include <tuple>
 #include <unordered_set>
 #include <vector>
 
@@ -24,56 +24,70 @@ class cactus_path {
     cactus_path() { }
     ~cactus_path() { }
 
+    // all vertices of the cactus that have to be contracted when an edge between
+    // s and t is added: s, t and every vertex that separates them, i.e. the
+    // endpoints of the tree edges and the entry and exit vertex of each cycle
+    // on the path from s to t. A path vertex that only lies inside a cycle is
+    // not part of the set.
     static std::unordered_set<NodeID> findPath(mutableGraphPtr cactus, NodeID s,
-                                               NodeID t, EdgeWeight mincut) {
-        // BFS from both vertices
-        std::vector<std::tuple<NodeID, NodeID, bool> > parents(
-            cactus->n(), std::make_tuple(UNDEFINED_NODE, UNDEFINED_NODE, true));
+                                               NodeID t, EdgeWeight) {
+        // BFS from s
+        std::vector<NodeID> parent(cactus->n(), UNDEFINED_NODE);
         std::queue<NodeID> nodes;
         nodes.push(s);
-        nodes.push(t);
-        parents[s] = std::make_tuple(s, s, true);
-        parents[t] = std::make_tuple(t, t, true);
-
-        while (!nodes.empty()) {
+        parent[s] = s;
+        while (!nodes.empty() && parent[t] == UNDEFINED_NODE) {
             NodeID n = nodes.front();
             nodes.pop();
-            NodeID myRoot = std::get<1>(parents[n]);
             for (EdgeID e : cactus->edges_of(n)) {
-                auto [tgt, wgt] = cactus->getEdge(n, e);
-                NodeID tgtRoot = std::get<1>(parents[tgt]);
-                if (tgtRoot != UNDEFINED_NODE && tgtRoot != myRoot) {
-                    // found path!
-                    std::unordered_set<NodeID> pathST;
-                    pathST.insert(tgt);
-                    pathST.insert(n);
-                    NodeID nToS = myRoot == s ? n : tgt;
-                    bool onTree = std::get<2>(parents[n]);
-                    while (nToS != s) {
-                        nToS = std::get<0>(parents[nToS]);
-                        if (onTree || std::get<2>(parents[nToS]))
-                            pathST.insert(nToS);
-                        onTree = std::get<2>(parents[nToS]);
-                    }
-                    NodeID tgtToT = myRoot == s ? tgt : n;
-                    onTree = std::get<2>(parents[tgt]);
-                    while (tgtToT != t) {
-                        tgtToT = std::get<0>(parents[tgtToT]);
-                        if (onTree || std::get<2>(parents[tgtToT]))
-                            pathST.insert(tgtToT);
-                        onTree = std::get<2>(parents[tgtToT]);
-                    }
-                    return pathST;
-                }
-
-                if (tgtRoot == UNDEFINED_NODE) {
-                    parents[tgt] = std::make_tuple(n, myRoot, wgt == mincut);
+                NodeID tgt = cactus->getEdgeTarget(n, e);
+                if (parent[tgt] == UNDEFINED_NODE) {
+                    parent[tgt] = n;
                     nodes.push(tgt);
                 }
             }
         }
 
-        LOG1 << "Error: didn't find path!";
-        return std::unordered_set<NodeID> { };
+        if (parent[t] == UNDEFINED_NODE) {
+            LOG1 << "Error: didn't find path!";
+            return std::unordered_set<NodeID> { };
+        }
+
+        // number path vertices by their distance to t
+        std::vector<NodeID> path = { t };
+        while (path.back() != s) {
+            path.emplace_back(parent[path.back()]);
+        }
+        std::vector<size_t> pathPosition(cactus->n(), path.size());
+        for (size_t i = 0; i < path.size(); ++i) {
+            pathPosition[path[i]] = i;
+        }
+
+        // furthest is the last path vertex that is reachable from t on a path
+        // that does not visit path[i]
+        std::unordered_set<NodeID> separators;
+        std::vector<bool> visited(cactus->n(), false);
+        size_t furthest = 0;
+        for (size_t i = 0; i < path.size(); ++i) {
+            if (furthest <= i) {
+                separators.insert(path[i]);
+            }
+            nodes = std::queue<NodeID>();
+            nodes.push(path[i]);
+            while (!nodes.empty()) {
+                NodeID n = nodes.front();
+                nodes.pop();
+                for (EdgeID e : cactus->edges_of(n)) {
+                    NodeID tgt = cactus->getEdgeTarget(n, e);
+                    if (pathPosition[tgt] < path.size()) {
+                        furthest = std::max(furthest, pathPosition[tgt]);
+                    } else if (!visited[tgt]) {
+                        visited[tgt] = true;
+                        nodes.push(tgt);
+                    }
+                }
+            }
+        }
+        return separators;
     }
 };
-- 
2.43.0


From 77794b2fdd4bc3288f6e7cc82334a39878d8e151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 13/52] fix: map vertices of a split multiterminal problem to
 the problem's own index

---
 lib/algorithms/multicut/multiterminal_cut.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/multiterminal_cut.h b/lib/algorithms/multicut/multiterminal_cut.h
index 801884b..8853ff7 100644
--- a/lib/algorithms/multicut/multiterminal_cut.h
+++ b/lib/algorithms/multicut/multiterminal_cut.h
@@ -265,7 +265,7 @@ class multiterminal_cut {
 
                 for (size_t i = 0; i < mapping.size(); ++i) {
                     NodeID n = mapping[i];
-                    nodeProblemMapping[n] = problem;
+                    nodeProblemMapping[n] = problems.size();
                     if (positionInProblem[n] != UNDEFINED_NODE) {
                         LOG1 << "ERROR: NODE IN MULTIPLE CCs";
                         exit(1);
-- 
2.43.0


From de4b6e7c995a0cf7462900c33f2f38eaa658bcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:16 +0000
Subject: [PATCH 14/52] fix: drop multiterminal problems in which kernelization
 contracted two terminals

---
 lib/algorithms/multicut/branch_multicut.h   |  7 +++++++
 lib/algorithms/multicut/graph_contraction.h | 12 ++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 10f18fd..7d5827c 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -362,6 +362,13 @@ class branch_multicut {
         if (outOfMemory())
             return;
 
+        if (graph_contraction::terminalsContracted(problem,
+                                                   original_terminals)) {
+            // vertices are only contracted when no solution better than the
+            // best known one separates them, so there is none in this problem
+            return;
+        }
+
         if (problem->deleted_weight > static_cast<EdgeWeight>(pm.bestCut())) {
             return;
         }
diff --git a/lib/algorithms/multicut/graph_contraction.h b/lib/algorithms/multicut/graph_contraction.h
index e1354e4..1556401 100644
--- a/lib/algorithms/multicut/graph_contraction.h
+++ b/lib/algorithms/multicut/graph_contraction.h
@@ -109,6 +109,18 @@ class graph_contraction {
         setTerminals(mcp, original_terminals);
     }
 
+    // true if two terminals are in the same vertex of the contracted graph
+    static bool terminalsContracted(
+        problemPointer problem,
+        const std::vector<NodeID>& original_terminals) {
+        std::unordered_set<NodeID> positions;
+        for (const auto& t : original_terminals) {
+            NodeID o = problem->mapped(t);
+            positions.insert(problem->graph->getCurrentPosition(o));
+        }
+        return positions.size() < original_terminals.size();
+    }
+
     static void setTerminals(problemPointer problem,
                              const std::vector<NodeID>& original_terminals) {
         std::unordered_map<NodeID, bool> invalid_flows;
-- 
2.43.0


From 612c7b08bb8d17323de4a17ba3bd12ba3975fdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:57 +0000
Subject: [PATCH 15/52] fix: terminals keep their own block in multiterminal
 solutions of fully decided problems

---
 lib/algorithms/multicut/branch_multicut.h    |  2 ++
 lib/algorithms/multicut/graph_contraction.h  | 12 ++++++++++++
 lib/algorithms/multicut/problem_management.h | 19 ++++++++++++++++---
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 7d5827c..50fa7e2 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -553,6 +553,8 @@ class branch_multicut {
         graph_contraction::deleteTermEdges(problem, original_terminals);
         if (!problem->graph->number_of_edges()) {
             problem->upper_bound = problem->deleted_weight;
+            graph_contraction::setTerminalPartition(problem,
+                                                    original_terminals);
             auto sol = msm.getSolution(problem);
             updateBestSolution(&sol, problem->terminals.size());
             return;
diff --git a/lib/algorithms/multicut/graph_contraction.h b/lib/algorithms/multicut/graph_contraction.h
index 1556401..af66717 100644
--- a/lib/algorithms/multicut/graph_contraction.h
+++ b/lib/algorithms/multicut/graph_contraction.h
@@ -121,6 +121,18 @@ class graph_contraction {
         return positions.size() < original_terminals.size();
     }
 
+    // every terminal is in its own block, also when contractions or deletions
+    // changed its vertex since the partition was computed
+    static void setTerminalPartition(
+        problemPointer problem,
+        const std::vector<NodeID>& original_terminals) {
+        for (size_t i = 0; i < original_terminals.size(); ++i) {
+            NodeID o = problem->mapped(original_terminals[i]);
+            NodeID node = problem->graph->getCurrentPosition(o);
+            problem->graph->setPartitionIndex(node, i);
+        }
+    }
+
     static void setTerminals(problemPointer problem,
                              const std::vector<NodeID>& original_terminals) {
         std::unordered_map<NodeID, bool> invalid_flows;
diff --git a/lib/algorithms/multicut/problem_management.h b/lib/algorithms/multicut/problem_management.h
index 2436b35..b719883 100644
--- a/lib/algorithms/multicut/problem_management.h
+++ b/lib/algorithms/multicut/problem_management.h
@@ -216,9 +216,22 @@ class problem_management {
     std::optional<FlowType> processNewProblem(
         problemPointer new_p, size_t thread_id) {
         size_t numTerminals = new_p->terminals.size();
-        if (numTerminals < 2 && runLocalSearch(new_p)) {
-            auto sol = msm.getSolution(new_p);
-            return findBestSolution(&sol, numTerminals);
+        if (numTerminals < 2) {
+            // at most one terminal still has edges, nothing has to be cut
+            for (NodeID n : new_p->graph->nodes()) {
+                if (numTerminals > 0) {
+                    new_p->graph->setPartitionIndex(
+                        n, new_p->terminals[0].original_id);
+                }
+            }
+            graph_contraction::setTerminalPartition(new_p, original_terminals);
+            new_p->upper_bound = new_p->deleted_weight;
+
+            if (runLocalSearch(new_p)) {
+                auto sol = msm.getSolution(new_p);
+                return findBestSolution(&sol, numTerminals);
+            }
+            return std::nullopt;
         }
 
         if (numTerminals == 2) {
-- 
2.43.0


From 3fcb6bee2cf87ccb7de050483dd88547456e7894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:37 +0000
Subject: [PATCH 16/52] fix: serialized mutable graphs with fewer edges than
 vertices

---
 lib/data_structure/mutable_graph.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index a4447fb..5d83cb6 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -849,13 +849,14 @@ class mutable_graph {
         G->setOriginalNodes(original_nodes);
         size_t n = 0;
         size_t deserial = 4;
+        const uint64_t marker = serialMarker(num_nodes, num_edges);
         while (n < num_nodes) {
             uint64_t next = v[deserial++];
-            if (next >= num_edges) {
+            if (next >= marker) {
                 if (next == UNDEFINED_EDGE) {
                     break;
                 }
-                n = next - num_edges;
+                n = next - marker;
                 continue;
             }
             uint64_t wgt = v[deserial++];
@@ -887,7 +888,7 @@ class mutable_graph {
         size_t next = 4;
 
         for (NodeID n : nodes()) {
-            serial[next++] = static_cast<uint64_t>(num_edges + n);
+            serial[next++] = serialMarker(vertices.size(), num_edges) + n;
             for (const auto& [t, w, r, f, l] : vertices[n]) {
                 // I am deeply sorry for this ugly code, but structured bindings
                 // seem to not work in combination with maybe_unused to suppress
@@ -938,6 +939,11 @@ class mutable_graph {
     }
 
  private:
+    // first value in a serialized graph that can not be a vertex id
+    static uint64_t serialMarker(uint64_t num_nodes, uint64_t num_edges) {
+        return std::max(num_nodes, num_edges);
+    }
+
     void internalDeleteEdge(NodeID n, EdgeID e) {
         if (vertices[n].size() > e + 1) {
             vertices[n][e] = std::move(vertices[n][vertices[n].size() - 1]);
-- 
2.43.0


From 7d979a84ab66f41dbb62056a7620da6a49232eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:37 +0000
Subject: [PATCH 17/52] fix: from_graph_access adds every parallel edge once

---
 lib/data_structure/mutable_graph.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index 5d83cb6..7eff3e3 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -803,6 +803,10 @@ class mutable_graph {
             m_G->new_node();
             for (EdgeID e : G->edges_of(n)) {
                 NodeID t = G->getEdgeTarget(e);
+                if (t < n) {
+                    // edge was already added from the other side
+                    continue;
+                }
                 if (last_incident[t] == n) {
                     // double edge
                     // LOG1 << "double edge";
-- 
2.43.0


From 78f4068af826abc0982ad2d54c19ea0a19ae93a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 18/52] fix: resetContainedvertices resizes the position map

---
 lib/data_structure/mutable_graph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index 7eff3e3..65589cd 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -936,6 +936,7 @@ class mutable_graph {
 
     void resetContainedvertices() {
         original_nodes = vertices.size();
+        current_position.resize(original_nodes);
         for (NodeID n : nodes()) {
             current_position[n] = n;
             contained_in_this[n] = { n };
-- 
2.43.0


From cc8683d31a9c9dad36328f56ffdfbb4834c73a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 19/52] fix: deleteVertex removes the contained vertices of the
 deleted vertex

---
 lib/data_structure/mutable_graph.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index 65589cd..bac4026 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -378,8 +378,9 @@ class mutable_graph {
                 current_position[n] = back;
             }
 
-            contained_in_this[node] = contained_in_this[back];
+            contained_in_this[node] = std::move(contained_in_this[back]);
         }
+        contained_in_this.pop_back();
 
         for (EdgeID e : edges_of(node)) {
             NodeID tgt = getEdgeTarget(node, e);
-- 
2.43.0


From bd2bc32e008ab5d61bb83be06114c94d7ff03b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:23 +0000
Subject: [PATCH 20/52] fix: serialize writes the positions of the original
 vertices only

---
 lib/data_structure/mutable_graph.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index bac4026..8b287a6 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -914,8 +914,8 @@ class mutable_graph {
             serial[next++] = static_cast<uint64_t>(p);
         }
 
-        for (const auto& c : current_position) {
-            serial[next++] = static_cast<uint64_t>(c);
+        for (NodeID v = 0; v < original_nodes; ++v) {
+            serial[next++] = static_cast<uint64_t>(current_position[v]);
         }
 
         return serial;
-- 
2.43.0


From d9c0c8d48dc2113b88ab2cccf4370d29f3797b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:16 +0000
Subject: [PATCH 21/52] fix: replacing a cached cactus keeps its inserts for
 larger cached cut values

---
 .../global_mincut/dynamic/dynamic_mincut.h    | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
index c4b1a0c..2994851 100644
--- a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
+++ b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
@@ -62,6 +62,9 @@ class dynamic_mincut {
         timer t;
         auto [cut, outgraph, balanced] = cactus.findAllMincuts(graph);
         numCachedMincuts = 0;
+        cachedCactus.clear();
+        cachedInserts.clear();
+        currentlyCaching.clear();
         callsOfStaticAlgorithm = 1;
         lowestCachedMincut = UNDEFINED_EDGE;
         original_graph = graph;
@@ -330,7 +333,6 @@ class dynamic_mincut {
     }
 
     void putIntoCache(mutableGraphPtr cactusToCache, EdgeWeight cactusCut) {
-        numCachedMincuts++;
         if (cactusCut < lowestCachedMincut) {
             lowestCachedMincut = cactusCut;
         }
@@ -341,6 +343,21 @@ class dynamic_mincut {
             currentlyCaching.resize(cactusCut + 1, false);
         }
 
+        if (currentlyCaching[cactusCut]) {
+            // the inserts of the replaced cactus are only recorded here, but
+            // cached cacti of larger cut values still need them
+            for (size_t i = cactusCut + 1; i < currentlyCaching.size(); ++i) {
+                if (currentlyCaching[i]) {
+                    for (auto x : cachedInserts[cactusCut]) {
+                        cachedInserts[i].emplace_back(x);
+                    }
+                    break;
+                }
+            }
+        } else {
+            numCachedMincuts++;
+        }
+
         cachedCactus[cactusCut] = cactusToCache;
         cachedInserts[cactusCut].clear();
         currentlyCaching[cactusCut] = true;
-- 
2.43.0


From 6942ccb1fcd86f12a5de04f3ce35cdedae06ac40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:02 +0000
Subject: [PATCH 22/52] fix: depth of partial relabeling does not exceed the
 number of vertices

---
 lib/algorithms/flow/push_relabel.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/flow/push_relabel.h b/lib/algorithms/flow/push_relabel.h
index eb6a41a..b7ebd70 100644
--- a/lib/algorithms/flow/push_relabel.h
+++ b/lib/algorithms/flow/push_relabel.h
@@ -84,7 +84,8 @@ class push_relabel {
         size_t depthPR = configuration::getConfig()->depthOfPartialRelabeling;
 
         if constexpr (limited && initial) {
-            size_t fillValue = depthPR + 1;
+            // no valid label of a vertex that can reach the sink is larger
+            NodeID fillValue = std::min<size_t>(depthPR + 1, m_G->n());
             std::fill(m_distance.begin(), m_distance.end(), fillValue);
             m_count[0] = 0;
             m_count[fillValue] = m_G->n() - 1;
-- 
2.43.0


From 63a0cc25a6453e32f34464d832be559f1af93690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:50 +0000
Subject: [PATCH 23/52] fix: core graphs of weighted graphs are checked against
 unweighted degrees

createCoreGraph compared the core number with the weighted minimum degree
and exited on every graph with edge weights.
---
 lib/algorithms/misc/core_decomposition.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/algorithms/misc/core_decomposition.h b/lib/algorithms/misc/core_decomposition.h
index 2bb0e7f..7adc323 100644
--- a/lib/algorithms/misc/core_decomposition.h
+++ b/lib/algorithms/misc/core_decomposition.h
@@ -13,6 +13,7 @@
 
 #include <stdlib.h>
 
+#include <algorithm>
 #include <cstdint>
 #include <memory>
 #include <vector>
@@ -134,8 +135,15 @@ class core_decomposition {
 
         core_graph->finish_construction();
 
-        if (core_graph->getMinDegree() != min_degree) {
-            LOG1 << "ERROR: Wrong min degree " << core_graph->getMinDegree()
+        // cores are defined on numbers of edges, not on edge weights
+        size_t core_min_degree = UNDEFINED_EDGE;
+        for (NodeID n : core_graph->nodes()) {
+            core_min_degree = std::min<size_t>(
+                core_min_degree, core_graph->getUnweightedNodeDegree(n));
+        }
+
+        if (core_min_degree != min_degree) {
+            LOG1 << "ERROR: Wrong min degree " << core_min_degree
                  << " instead of " << min_degree;
             exit(1);
         }
-- 
2.43.0


From d2380e02496e0b469cdf7573728b84a36c8a423d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:50 +0000
Subject: [PATCH 24/52] fix: component sizes are not accumulated when the
 object is reused

strong_components kept the sizes of earlier calls and added to them.
---
 lib/algorithms/misc/strongly_connected_components.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/algorithms/misc/strongly_connected_components.h b/lib/algorithms/misc/strongly_connected_components.h
index 39d7096..ba3b3b1 100644
--- a/lib/algorithms/misc/strongly_connected_components.h
+++ b/lib/algorithms/misc/strongly_connected_components.h
@@ -37,6 +37,7 @@ class strongly_connected_components {
         m_dfscount = 0;
         m_comp_count = 0;
         m_fpid = fpid;
+        m_blocksizes.clear();
 
         for (NodeID node : G->nodes()) {
             m_comp_num[node] = -1;
-- 
2.43.0


From b5ab56b9f7ff99126585c139cb66212255265a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:30 +0000
Subject: [PATCH 25/52] fix: the weight of a skipped self-loop is skipped with
 it

readGraphWeighted continued behind the target of a self-loop and then took
the loop's weight for the next target.
---
 lib/io/graph_io.h | 768 +++++++++++++++++++++++-----------------------
 1 file changed, 385 insertions(+), 383 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index a156fee..a80581c 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -1,383 +1,385 @@
-/******************************************************************************
- * graph_io.h
- *
- * Source of VieCut.
- *
- * Adapted from KaHIP.
- *
- ******************************************************************************
- * Copyright (C) 2013-2015 Christian Schulz <christian.schulz@univie.ac.at>
- * Copyright (C) 2017-2020 Alexander Noe <alexander.noe@univie.ac.at>
- *
- * Published under the MIT license in the LICENSE file.
- *****************************************************************************/
-
-#pragma once
-
-#include <stdio.h>
-#include <stdlib.h>
-
-#include <algorithm>
-#include <fstream>
-#include <iostream>
-#include <limits>
-#include <memory>
-#include <ostream>
-#include <string>
-#include <tuple>
-#include <utility>
-#include <vector>
-
-#include "common/definitions.h"
-#include "data_structure/flow_graph.h"
-#include "data_structure/graph_access.h"
-#include "tools/string.h"
-
-class graph_io {
- public:
-    graph_io() { }
-
-    virtual ~graph_io() { }
-
-    static std::pair<
-        NodeID, std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > >
-    readDimacs(std::string file) {
-        std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > edges;
-        std::string line;
-        std::ifstream instream(file.c_str());
-        std::getline(instream, line);
-        size_t line_ptr = 2;
-        NodeID numV = fast_atoi(line, &line_ptr);
-
-        uint64_t counter = 1;
-        while (std::getline(instream, line)) {
-            line_ptr = 2;
-            NodeID source = fast_atoi(line, &line_ptr) - 1;
-            NodeID target = fast_atoi(line, &line_ptr) - 1;
-            if (target > source) {
-                edges.emplace_back(source, target, 1, counter++);
-            }
-
-            if (instream.eof()) {
-                break;
-            }
-        }
-        return std::make_pair(numV, edges);
-    }
-
-    static std::pair<
-        NodeID, std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > >
-    readTemporalGraph(std::string file) {
-        std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > edges;
-        std::string line;
-        std::ifstream instream(file.c_str());
-        NodeID numVtxs = 0;
-
-        while (std::getline(instream, line)) {
-            if (line[0] == 'p') {
-                return readDimacs(file);
-            }
-            if (line[0] == '%') {     // a comment in the file
-                continue;
-            }
-
-            size_t line_ptr = 0;
-
-            // remove leading whitespaces
-            while (line[line_ptr] == ' ')
-                ++line_ptr;
-
-            NodeID source = fast_atoi(line, &line_ptr) - 1;
-            NodeID target = fast_atoi(line, &line_ptr) - 1;
-            int64_t wgt;
-            uint64_t timestamp;
-
-            // remove additional whitespaces inbetween
-            while (line[line_ptr] == ' ' || line[line_ptr] == '\t')
-                ++line_ptr;
-
-            if (line[line_ptr] == '+' || line[line_ptr] == '-') {
-                bool isNegative = line[line_ptr] == '-';
-                line_ptr++;
-                wgt = fast_atoi(line, &line_ptr);
-                if (isNegative) {
-                    wgt = (-1) * wgt;
-                }
-                timestamp = fast_atoi(line, &line_ptr);
-            } else {
-                wgt = 1;
-                timestamp = fast_atoi(line, &line_ptr);
-                if (line_ptr < line.size()) {
-                    wgt = timestamp;
-                    timestamp = fast_atoi(line, &line_ptr);
-                }
-            }
-
-            edges.emplace_back(source, target, wgt, timestamp);
-
-            NodeID largerVtx = std::max(source, target);
-            if (largerVtx >= numVtxs) {
-                numVtxs = largerVtx + 1;
-            }
-
-            if (instream.eof()) {
-                break;
-            }
-        }
-
-        std::sort(edges.begin(), edges.end(),
-                  [](const auto& e1, const auto& e2) {
-                      return std::get<3>(e1) < std::get<3>(e2);
-                  });
-
-        return std::pair(numVtxs, edges);
-    }
-
-    template <class Graph = graph_access>
-    static std::shared_ptr<Graph> readGraphWeighted(std::string file) {
-        std::shared_ptr<Graph> G = std::make_shared<Graph>();
-        std::string line;
-        // open file for reading
-        std::ifstream instream(file.c_str());
-        if (!instream) {
-            std::cerr << "Error opening " << file << std::endl;
-            exit(2);
-        }
-
-        uint64_t nmbNodes;
-        uint64_t nmbEdges;
-
-        std::getline(instream, line);
-        // skip comments
-        while (line[0] == '%') {
-            std::getline(instream, line);
-        }
-
-        int ew = 0;
-        std::stringstream ss(line);
-        ss >> nmbNodes;
-        ss >> nmbEdges;
-        ss >> ew;
-
-        bool read_ew = false;
-
-        if (ew == 1) {
-            read_ew = true;
-        } else if (ew == 11) {
-            read_ew = true;
-        }
-        nmbEdges *= 2;  // since we have forward and backward edges
-
-        NodeID node_counter = 0;
-        EdgeID edge_counter = 0;
-
-        G->start_construction(nmbNodes, nmbEdges);
-
-        while (std::getline(instream, line)) {
-            if (line[0] == '%') {     // a comment in the file
-                continue;
-            }
-
-            NodeID node = G->new_node();
-            node_counter++;
-            G->setPartitionIndex(node, 0);
-
-            size_t line_ptr = 0;
-
-            // remove leading whitespaces
-            while (line[line_ptr] == ' ')
-                ++line_ptr;
-
-            while (line_ptr < line.size()) {
-                NodeID target = fast_atoi(line, &line_ptr);
-                if (!target) break;
-                // check for self-loops
-                if (target - 1 == node) {
-                    LOG0 << "The graph file contains self-loops. "
-                         << "This is not supported. "
-                         << "Please remove them from the file.";
-                    continue;
-                }
-
-                EdgeWeight edge_weight = 1;
-                if (read_ew) {
-                    edge_weight = fast_atoi(line, &line_ptr);
-                }
-                edge_counter++;
-                G->new_edge(node, target - 1, edge_weight);
-            }
-
-            if (instream.eof()) {
-                break;
-            }
-        }
-
-        if (edge_counter != (EdgeID)nmbEdges) {
-            std::cerr << "number of specified edges mismatch" << std::endl;
-            std::cerr << edge_counter << " " << nmbEdges << std::endl;
-            // As we discard self-loops, this might happen. Thus, no exiting!
-            // Node counter not matching is however probably a problem with G.
-        }
-
-        if (node_counter != (NodeID)nmbNodes) {
-            std::cerr << "number of specified nodes mismatch" << std::endl;
-            std::cerr << node_counter << " " << nmbNodes << std::endl;
-            exit(4);
-        }
-
-        G->finish_construction();
-        G->computeDegrees();
-        return G;
-    }
-
-    static int writeGraphWeighted(mutableGraphPtr G, std::string filename) {
-        return writeGraphWeighted(G->to_graph_access(), filename);
-    }
-
-    static int writeGraphWeighted(graphAccessPtr G, std::string filename) {
-        std::ofstream f(filename.c_str());
-        f << G->number_of_nodes() << " "
-          << G->number_of_edges() / 2 << " 1" << std::endl;
-
-        for (NodeID node : G->nodes()) {
-            for (EdgeID e : G->edges_of(node)) {
-                f << (G->getEdgeTarget(e) + 1) << " "
-                  << G->getEdgeWeight(e) << " ";
-            }
-            f << std::endl;
-        }
-
-        f.close();
-        return 0;
-    }
-
-    static
-    int writeGraph(graphAccessPtr G, std::string filename) {
-        std::ofstream f(filename.c_str());
-        f << G->number_of_nodes() << " "
-          << G->number_of_edges() / 2 << " 0" << std::endl;
-
-        for (NodeID node : G->nodes()) {
-            for (EdgeID e : G->edges_of(node)) {
-                f << (G->getEdgeTarget(e) + 1) << " ";
-            }
-            f << std::endl;
-        }
-
-        f.close();
-        return 0;
-    }
-
-    static
-    int writeGraphDimacsKS(graphAccessPtr G,
-                           std::string filename,
-                           std::string format = "FORMAT") {
-        std::ofstream f(filename.c_str());
-        f << "p " << format << " " << G->number_of_nodes() << " "
-          << G->number_of_edges() / 2 << std::endl;
-
-        for (NodeID node : G->nodes()) {
-            for (EdgeID e : G->edges_of(node)) {
-                if (G->getEdgeTarget(e) > node) {
-                    f << "a " << node + 1 << " " << G->getEdgeTarget(e) + 1
-                      << " " << G->getEdgeWeight(e) << std::endl;
-                }
-            }
-        }
-
-        f.close();
-        return 0;
-    }
-
-    static void writeCut(graphAccessPtr G,
-                         std::string filename) {
-        std::ofstream f(filename.c_str());
-        LOG1 << "writing partition to " << filename << " ... ";
-
-        for (NodeID node : G->nodes()) {
-            f << G->getNodeInCut(node) << std::endl;
-        }
-
-        f.close();
-    }
-
-    static void writeCut(mutableGraphPtr G,
-                         std::string filename) {
-        std::ofstream f(filename.c_str());
-        LOG1 << "writing partition to " << filename << " ... ";
-
-        for (NodeID node : G->nodes()) {
-            f << G->getNodeInCut(node) << std::endl;
-        }
-
-        f.close();
-    }
-
-    static std::shared_ptr<flow_graph> createFlowGraph(
-        graphAccessPtr G) {
-        std::shared_ptr<flow_graph> fg = std::make_shared<flow_graph>();
-        fg->start_construction(G->number_of_nodes());
-
-        for (NodeID n : G->nodes()) {
-            for (EdgeID e : G->edges_of(n)) {
-                NodeID tgt = G->getEdgeTarget(e);
-                fg->new_edge(n, tgt, G->getEdgeWeight(e));
-            }
-        }
-
-        fg->finish_construction();
-
-        VIECUT_ASSERT_EQ(fg->number_of_nodes(), G->number_of_nodes());
-        VIECUT_ASSERT_EQ(fg->number_of_edges(), 2 * G->number_of_edges());
-
-        return fg;
-    }
-
-    template <typename vectortype>
-    static std::vector<vectortype> readVector(std::string filename) {
-        std::vector<vectortype> vec;
-        std::string line;
-        // open file for reading
-        std::ifstream instream(filename.c_str());
-        if (!instream) {
-            std::cerr << "Error opening vectorfile" << filename << std::endl;
-            exit(5);
-        }
-
-        std::getline(instream, line);
-        while (!instream.eof()) {
-            if (line[0] == '%') {         // Comment
-                continue;
-            }
-
-            vectortype value = (vectortype)atof(line.c_str());
-            vec.emplace_back(value);
-            std::getline(instream, line);
-        }
-
-        instream.close();
-        return vec;
-    }
-
-    template <typename vectortype>
-    void writeVector(const std::vector<vectortype>& vec, std::string filename) {
-        std::ofstream f(filename.c_str());
-        for (unsigned i = 0; i < vec.size(); ++i) {
-            f << vec[i] << std::endl;
-        }
-        f.close();
-    }
-
- private:
-// orig. from http://tinodidriksen.com/uploads/code/cpp/speed-string-to-int.cpp
-    static uint64_t fast_atoi(const std::string& str, size_t* line_ptr) {
-        uint64_t x = 0;
-
-        while (str[*line_ptr] >= '0' && str[*line_ptr] <= '9') {
-            x = (x * 10) + (str[*line_ptr] - '0');
-            ++(*line_ptr);
-        }
-        ++(*line_ptr);
-        return x;
-    }
-};
+/******************************************************************************
+ * graph_io.h
+ *
+ * Source of VieCut.
+ *
+ * Adapted from KaHIP.
+ *
+ ******************************************************************************
+ * Copyright (C) 2013-2015 Christian Schulz <christian.schulz@univie.ac.at>
+ * Copyright (C) 2017-2020 Alexander Noe <alexander.noe@univie.ac.at>
+ *
+ * Published under the MIT license in the LICENSE file.
+ *****************************************************************************/
+
+#pragma once
+
+#include <stdio.h>
+#include <stdlib.h>
+
+#include <algorithm>
+#include <fstream>
+#include <iostream>
+#include <limits>
+#include <memory>
+#include <ostream>
+#include <string>
+#include <tuple>
+#include <utility>
+#include <vector>
+
+#include "common/definitions.h"
+#include "data_structure/flow_graph.h"
+#include "data_structure/graph_access.h"
+#include "tools/string.h"
+
+class graph_io {
+ public:
+    graph_io() { }
+
+    virtual ~graph_io() { }
+
+    static std::pair<
+        NodeID, std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > >
+    readDimacs(std::string file) {
+        std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > edges;
+        std::string line;
+        std::ifstream instream(file.c_str());
+        std::getline(instream, line);
+        size_t line_ptr = 2;
+        NodeID numV = fast_atoi(line, &line_ptr);
+
+        uint64_t counter = 1;
+        while (std::getline(instream, line)) {
+            line_ptr = 2;
+            NodeID source = fast_atoi(line, &line_ptr) - 1;
+            NodeID target = fast_atoi(line, &line_ptr) - 1;
+            if (target > source) {
+                edges.emplace_back(source, target, 1, counter++);
+            }
+
+            if (instream.eof()) {
+                break;
+            }
+        }
+        return std::make_pair(numV, edges);
+    }
+
+    static std::pair<
+        NodeID, std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > >
+    readTemporalGraph(std::string file) {
+        std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > edges;
+        std::string line;
+        std::ifstream instream(file.c_str());
+        NodeID numVtxs = 0;
+
+        while (std::getline(instream, line)) {
+            if (line[0] == 'p') {
+                return readDimacs(file);
+            }
+            if (line[0] == '%') {     // a comment in the file
+                continue;
+            }
+
+            size_t line_ptr = 0;
+
+            // remove leading whitespaces
+            while (line[line_ptr] == ' ')
+                ++line_ptr;
+
+            NodeID source = fast_atoi(line, &line_ptr) - 1;
+            NodeID target = fast_atoi(line, &line_ptr) - 1;
+            int64_t wgt;
+            uint64_t timestamp;
+
+            // remove additional whitespaces inbetween
+            while (line[line_ptr] == ' ' || line[line_ptr] == '\t')
+                ++line_ptr;
+
+            if (line[line_ptr] == '+' || line[line_ptr] == '-') {
+                bool isNegative = line[line_ptr] == '-';
+                line_ptr++;
+                wgt = fast_atoi(line, &line_ptr);
+                if (isNegative) {
+                    wgt = (-1) * wgt;
+                }
+                timestamp = fast_atoi(line, &line_ptr);
+            } else {
+                wgt = 1;
+                timestamp = fast_atoi(line, &line_ptr);
+                if (line_ptr < line.size()) {
+                    wgt = timestamp;
+                    timestamp = fast_atoi(line, &line_ptr);
+                }
+            }
+
+            edges.emplace_back(source, target, wgt, timestamp);
+
+            NodeID largerVtx = std::max(source, target);
+            if (largerVtx >= numVtxs) {
+                numVtxs = largerVtx + 1;
+            }
+
+            if (instream.eof()) {
+                break;
+            }
+        }
+
+        std::sort(edges.begin(), edges.end(),
+                  [](const auto& e1, const auto& e2) {
+                      return std::get<3>(e1) < std::get<3>(e2);
+                  });
+
+        return std::pair(numVtxs, edges);
+    }
+
+    template <class Graph = graph_access>
+    static std::shared_ptr<Graph> readGraphWeighted(std::string file) {
+        std::shared_ptr<Graph> G = std::make_shared<Graph>();
+        std::string line;
+        // open file for reading
+        std::ifstream instream(file.c_str());
+        if (!instream) {
+            std::cerr << "Error opening " << file << std::endl;
+            exit(2);
+        }
+
+        uint64_t nmbNodes;
+        uint64_t nmbEdges;
+
+        std::getline(instream, line);
+        // skip comments
+        while (line[0] == '%') {
+            std::getline(instream, line);
+        }
+
+        int ew = 0;
+        std::stringstream ss(line);
+        ss >> nmbNodes;
+        ss >> nmbEdges;
+        ss >> ew;
+
+        bool read_ew = false;
+
+        if (ew == 1) {
+            read_ew = true;
+        } else if (ew == 11) {
+            read_ew = true;
+        }
+        nmbEdges *= 2;  // since we have forward and backward edges
+
+        NodeID node_counter = 0;
+        EdgeID edge_counter = 0;
+
+        G->start_construction(nmbNodes, nmbEdges);
+
+        while (std::getline(instream, line)) {
+            if (line[0] == '%') {     // a comment in the file
+                continue;
+            }
+
+            NodeID node = G->new_node();
+            node_counter++;
+            G->setPartitionIndex(node, 0);
+
+            size_t line_ptr = 0;
+
+            // remove leading whitespaces
+            while (line[line_ptr] == ' ')
+                ++line_ptr;
+
+            while (line_ptr < line.size()) {
+                NodeID target = fast_atoi(line, &line_ptr);
+                if (!target) break;
+
+                EdgeWeight edge_weight = 1;
+                if (read_ew) {
+                    edge_weight = fast_atoi(line, &line_ptr);
+                }
+
+                // check for self-loops
+                if (target - 1 == node) {
+                    LOG0 << "The graph file contains self-loops. "
+                         << "This is not supported. "
+                         << "Please remove them from the file.";
+                    continue;
+                }
+
+                edge_counter++;
+                G->new_edge(node, target - 1, edge_weight);
+            }
+
+            if (instream.eof()) {
+                break;
+            }
+        }
+
+        if (edge_counter != (EdgeID)nmbEdges) {
+            std::cerr << "number of specified edges mismatch" << std::endl;
+            std::cerr << edge_counter << " " << nmbEdges << std::endl;
+            // As we discard self-loops, this might happen. Thus, no exiting!
+            // Node counter not matching is however probably a problem with G.
+        }
+
+        if (node_counter != (NodeID)nmbNodes) {
+            std::cerr << "number of specified nodes mismatch" << std::endl;
+            std::cerr << node_counter << " " << nmbNodes << std::endl;
+            exit(4);
+        }
+
+        G->finish_construction();
+        G->computeDegrees();
+        return G;
+    }
+
+    static int writeGraphWeighted(mutableGraphPtr G, std::string filename) {
+        return writeGraphWeighted(G->to_graph_access(), filename);
+    }
+
+    static int writeGraphWeighted(graphAccessPtr G, std::string filename) {
+        std::ofstream f(filename.c_str());
+        f << G->number_of_nodes() << " "
+          << G->number_of_edges() / 2 << " 1" << std::endl;
+
+        for (NodeID node : G->nodes()) {
+            for (EdgeID e : G->edges_of(node)) {
+                f << (G->getEdgeTarget(e) + 1) << " "
+                  << G->getEdgeWeight(e) << " ";
+            }
+            f << std::endl;
+        }
+
+        f.close();
+        return 0;
+    }
+
+    static
+    int writeGraph(graphAccessPtr G, std::string filename) {
+        std::ofstream f(filename.c_str());
+        f << G->number_of_nodes() << " "
+          << G->number_of_edges() / 2 << " 0" << std::endl;
+
+        for (NodeID node : G->nodes()) {
+            for (EdgeID e : G->edges_of(node)) {
+                f << (G->getEdgeTarget(e) + 1) << " ";
+            }
+            f << std::endl;
+        }
+
+        f.close();
+        return 0;
+    }
+
+    static
+    int writeGraphDimacsKS(graphAccessPtr G,
+                           std::string filename,
+                           std::string format = "FORMAT") {
+        std::ofstream f(filename.c_str());
+        f << "p " << format << " " << G->number_of_nodes() << " "
+          << G->number_of_edges() / 2 << std::endl;
+
+        for (NodeID node : G->nodes()) {
+            for (EdgeID e : G->edges_of(node)) {
+                if (G->getEdgeTarget(e) > node) {
+                    f << "a " << node + 1 << " " << G->getEdgeTarget(e) + 1
+                      << " " << G->getEdgeWeight(e) << std::endl;
+                }
+            }
+        }
+
+        f.close();
+        return 0;
+    }
+
+    static void writeCut(graphAccessPtr G,
+                         std::string filename) {
+        std::ofstream f(filename.c_str());
+        LOG1 << "writing partition to " << filename << " ... ";
+
+        for (NodeID node : G->nodes()) {
+            f << G->getNodeInCut(node) << std::endl;
+        }
+
+        f.close();
+    }
+
+    static void writeCut(mutableGraphPtr G,
+                         std::string filename) {
+        std::ofstream f(filename.c_str());
+        LOG1 << "writing partition to " << filename << " ... ";
+
+        for (NodeID node : G->nodes()) {
+            f << G->getNodeInCut(node) << std::endl;
+        }
+
+        f.close();
+    }
+
+    static std::shared_ptr<flow_graph> createFlowGraph(
+        graphAccessPtr G) {
+        std::shared_ptr<flow_graph> fg = std::make_shared<flow_graph>();
+        fg->start_construction(G->number_of_nodes());
+
+        for (NodeID n : G->nodes()) {
+            for (EdgeID e : G->edges_of(n)) {
+                NodeID tgt = G->getEdgeTarget(e);
+                fg->new_edge(n, tgt, G->getEdgeWeight(e));
+            }
+        }
+
+        fg->finish_construction();
+
+        VIECUT_ASSERT_EQ(fg->number_of_nodes(), G->number_of_nodes());
+        VIECUT_ASSERT_EQ(fg->number_of_edges(), 2 * G->number_of_edges());
+
+        return fg;
+    }
+
+    template <typename vectortype>
+    static std::vector<vectortype> readVector(std::string filename) {
+        std::vector<vectortype> vec;
+        std::string line;
+        // open file for reading
+        std::ifstream instream(filename.c_str());
+        if (!instream) {
+            std::cerr << "Error opening vectorfile" << filename << std::endl;
+            exit(5);
+        }
+
+        std::getline(instream, line);
+        while (!instream.eof()) {
+            if (line[0] == '%') {         // Comment
+                continue;
+            }
+
+            vectortype value = (vectortype)atof(line.c_str());
+            vec.emplace_back(value);
+            std::getline(instream, line);
+        }
+
+        instream.close();
+        return vec;
+    }
+
+    template <typename vectortype>
+    void writeVector(const std::vector<vectortype>& vec, std::string filename) {
+        std::ofstream f(filename.c_str());
+        for (unsigned i = 0; i < vec.size(); ++i) {
+            f << vec[i] << std::endl;
+        }
+        f.close();
+    }
+
+ private:
+// orig. from http://tinodidriksen.com/uploads/code/cpp/speed-string-to-int.cpp
+    static uint64_t fast_atoi(const std::string& str, size_t* line_ptr) {
+        uint64_t x = 0;
+
+        while (str[*line_ptr] >= '0' && str[*line_ptr] <= '9') {
+            x = (x * 10) + (str[*line_ptr] - '0');
+            ++(*line_ptr);
+        }
+        ++(*line_ptr);
+        return x;
+    }
+};
-- 
2.43.0


From 1d803c59b6988cca1a6d7f2b1722c57ee52eb015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:30 +0000
Subject: [PATCH 26/52] fix: numbers in graph files may be separated by several
 blanks

Behind two blanks (or a leading tab) the rest of the line was silently
dropped, in temporal graphs the values were shifted.
---
 lib/io/graph_io.h | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index a80581c..1f165fd 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -82,19 +82,16 @@ class graph_io {
             }
 
             size_t line_ptr = 0;
-
-            // remove leading whitespaces
-            while (line[line_ptr] == ' ')
-                ++line_ptr;
+            skip_blanks(line, &line_ptr);
 
             NodeID source = fast_atoi(line, &line_ptr) - 1;
+            skip_blanks(line, &line_ptr);
             NodeID target = fast_atoi(line, &line_ptr) - 1;
             int64_t wgt;
             uint64_t timestamp;
 
             // remove additional whitespaces inbetween
-            while (line[line_ptr] == ' ' || line[line_ptr] == '\t')
-                ++line_ptr;
+            skip_blanks(line, &line_ptr);
 
             if (line[line_ptr] == '+' || line[line_ptr] == '-') {
                 bool isNegative = line[line_ptr] == '-';
@@ -103,10 +100,12 @@ class graph_io {
                 if (isNegative) {
                     wgt = (-1) * wgt;
                 }
+                skip_blanks(line, &line_ptr);
                 timestamp = fast_atoi(line, &line_ptr);
             } else {
                 wgt = 1;
                 timestamp = fast_atoi(line, &line_ptr);
+                skip_blanks(line, &line_ptr);
                 if (line_ptr < line.size()) {
                     wgt = timestamp;
                     timestamp = fast_atoi(line, &line_ptr);
@@ -183,18 +182,17 @@ class graph_io {
             G->setPartitionIndex(node, 0);
 
             size_t line_ptr = 0;
-
-            // remove leading whitespaces
-            while (line[line_ptr] == ' ')
-                ++line_ptr;
+            skip_blanks(line, &line_ptr);
 
             while (line_ptr < line.size()) {
                 NodeID target = fast_atoi(line, &line_ptr);
                 if (!target) break;
+                skip_blanks(line, &line_ptr);
 
                 EdgeWeight edge_weight = 1;
                 if (read_ew) {
                     edge_weight = fast_atoi(line, &line_ptr);
+                    skip_blanks(line, &line_ptr);
                 }
 
                 // check for self-loops
@@ -371,6 +369,14 @@ class graph_io {
     }
 
  private:
+    static void skip_blanks(const std::string& str, size_t* line_ptr) {
+        while (*line_ptr < str.size()
+               && (str[*line_ptr] == ' ' || str[*line_ptr] == '\t'
+                   || str[*line_ptr] == '\r')) {
+            ++(*line_ptr);
+        }
+    }
+
 // orig. from http://tinodidriksen.com/uploads/code/cpp/speed-string-to-int.cpp
     static uint64_t fast_atoi(const std::string& str, size_t* line_ptr) {
         uint64_t x = 0;
-- 
2.43.0


From 02cd4ab7025b369d77db54ae59af3965b189cecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:30 +0000
Subject: [PATCH 27/52] fix: vertex weights in METIS files are not read as
 neighbours

With format 10 and 11 every line starts with a vertex weight, which was
taken for the first neighbour.
---
 lib/io/graph_io.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index 1f165fd..d64e57f 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -165,6 +165,9 @@ class graph_io {
         } else if (ew == 11) {
             read_ew = true;
         }
+
+        // vertex weights are not used but are part of the line
+        bool skip_vw = (ew == 10 || ew == 11);
         nmbEdges *= 2;  // since we have forward and backward edges
 
         NodeID node_counter = 0;
@@ -184,6 +187,11 @@ class graph_io {
             size_t line_ptr = 0;
             skip_blanks(line, &line_ptr);
 
+            if (skip_vw) {
+                fast_atoi(line, &line_ptr);
+                skip_blanks(line, &line_ptr);
+            }
+
             while (line_ptr < line.size()) {
                 NodeID target = fast_atoi(line, &line_ptr);
                 if (!target) break;
-- 
2.43.0


From 5841e26956e78ba9111a5184184268be15a2f74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:30 +0000
Subject: [PATCH 28/52] fix: readVector skips comments and reads an
 unterminated last line

A comment line was read again and again for ever, a last line without a
newline was dropped.
---
 lib/io/graph_io.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index d64e57f..97259be 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -352,15 +352,13 @@ class graph_io {
             exit(5);
         }
 
-        std::getline(instream, line);
-        while (!instream.eof()) {
+        while (std::getline(instream, line)) {
             if (line[0] == '%') {         // Comment
                 continue;
             }
 
             vectortype value = (vectortype)atof(line.c_str());
             vec.emplace_back(value);
-            std::getline(instream, line);
         }
 
         instream.close();
-- 
2.43.0


From cde413d96dea2f781e11d33d0262ad3c27f497e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:30 +0000
Subject: [PATCH 29/52] fix: edges of a temporal graph with equal timestamps
 stay in file order

An unstable sort could move the deletion of an edge in front of its
insertion.
---
 lib/io/graph_io.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index 97259be..46400de 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -124,10 +124,10 @@ class graph_io {
             }
         }
 
-        std::sort(edges.begin(), edges.end(),
-                  [](const auto& e1, const auto& e2) {
-                      return std::get<3>(e1) < std::get<3>(e2);
-                  });
+        std::stable_sort(edges.begin(), edges.end(),
+                         [](const auto& e1, const auto& e2) {
+                             return std::get<3>(e1) < std::get<3>(e2);
+                         });
 
         return std::pair(numVtxs, edges);
     }
-- 
2.43.0


From 68f34854310c0fad7f8cc7a7a14928eff02693e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:00 +0000
Subject: [PATCH 30/52] fix: branching on an edge of a degree three vertex must
 not cut its other edges

---
 lib/algorithms/multicut/problem_management.h | 46 +++-----------------
 1 file changed, 5 insertions(+), 41 deletions(-)

diff --git a/lib/algorithms/multicut/problem_management.h b/lib/algorithms/multicut/problem_management.h
index b719883..1e285b9 100644
--- a/lib/algorithms/multicut/problem_management.h
+++ b/lib/algorithms/multicut/problem_management.h
@@ -83,40 +83,6 @@ class problem_management {
         best_solution.resize(original_graph.number_of_nodes());
     }
 
-    bool degreeThreeContraction(problemPointer problem,
-                                NodeID b_vtx, EdgeID b_edge) {
-        auto& g = problem->graph;
-        auto c = g->getEdgeWeight(b_vtx, b_edge);
-        NodeID term = g->getEdgeTarget(b_vtx, b_edge);
-        EdgeWeight max_incident_wgt = 0;
-        if (!(g->getUnweightedNodeDegree(b_vtx) == 3))
-            return false;
-
-        for (EdgeID e : g->edges_of(b_vtx)) {
-            auto wgt = g->getEdgeWeight(b_vtx, e);
-            if (wgt > max_incident_wgt) {
-                max_incident_wgt = wgt;
-            }
-        }
-
-        if (max_incident_wgt != c)
-            return false;
-
-        for (EdgeID e = 0; e < g->getUnweightedNodeDegree(b_vtx); ++e) {
-            if (g->getEdgeTarget(b_vtx, e) != term) {
-                problem->deleted_weight += g->getEdgeWeight(b_vtx, e);
-                g->deleteEdge(b_vtx, e);
-                --e;
-            }
-        }
-        g->contractEdge(b_vtx, 0);
-
-        for (auto& t : problem->terminals) {
-            t.invalid_flow = true;
-        }
-        return true;
-    }
-
     std::optional<problemPointer> pullProblem(
         size_t thread_id, bool send) {
         return problems.pullProblem(thread_id, send);
@@ -349,13 +315,11 @@ class problem_management {
             processNewProblem(del_p, thread_id);
         }
         // |-> edge not in multicut
-        if (!degreeThreeContraction(problem, b_vtx, b_edge)) {
-            problem->graph->contractEdge(b_vtx, b_edge);
-            problem->priority_edge = { UNDEFINED_NODE, UNDEFINED_EDGE };
-            for (size_t i = 0; i < problem->terminals.size(); ++i) {
-                if (i == target_terminal_id) {
-                    problem->terminals[i].invalid_flow = true;
-                }
+        problem->graph->contractEdge(b_vtx, b_edge);
+        problem->priority_edge = { UNDEFINED_NODE, UNDEFINED_EDGE };
+        for (size_t i = 0; i < problem->terminals.size(); ++i) {
+            if (i == target_terminal_id) {
+                problem->terminals[i].invalid_flow = true;
             }
         }
 
-- 
2.43.0


From b66b3282fa60b1635e184e87cc39c9a64d12d271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:00 +0000
Subject: [PATCH 31/52] fix: non-terminal flows must not merge terminals or
 overlapping source sets

---
 lib/algorithms/multicut/maximum_flow.h | 72 +++++++++++++++++++++-----
 1 file changed, 60 insertions(+), 12 deletions(-)

diff --git a/lib/algorithms/multicut/maximum_flow.h b/lib/algorithms/multicut/maximum_flow.h
index 17d418c..aac4eb7 100644
--- a/lib/algorithms/multicut/maximum_flow.h
+++ b/lib/algorithms/multicut/maximum_flow.h
@@ -89,6 +89,44 @@ class maximum_flow {
         return order;
     }
 
+    // source sets of different sources may overlap. Only one of them can keep
+    // the vertices in the intersection, unless one set contains the source of
+    // the other (and then the whole set).
+    void contractSourceSet(problemPointer problem,
+                           const std::vector<NodeID>& source_set,
+                           NodeID source,
+                           std::vector<NodeID>* contracted_with,
+                           union_find* uf) {
+        if ((*contracted_with)[source] != UNDEFINED_NODE) {
+            return;
+        }
+
+        std::unordered_set<NodeID> in_set(source_set.begin(),
+                                          source_set.end());
+        for (const NodeID& n : source_set) {
+            // terminals without edges are not in the flow problem
+            if (isTerminal(problem, n)) {
+                continue;
+            }
+            NodeID other = (*contracted_with)[n];
+            if (other == UNDEFINED_NODE || in_set.count(other) > 0) {
+                uf->Union(n, source);
+                (*contracted_with)[n] = source;
+            }
+        }
+    }
+
+    // also true for terminals that have no edges left
+    bool isTerminal(problemPointer problem, NodeID n) {
+        for (const NodeID& t : original_terminals) {
+            NodeID o = problem->mapped(t);
+            if (problem->graph->getCurrentPosition(o) == n) {
+                return true;
+            }
+        }
+        return false;
+    }
+
     union_find nonTerminalFlow(problemPointer problem,
                                bool parallel,
                                const std::vector<bool>& active) {
@@ -96,6 +134,10 @@ class maximum_flow {
         std::unordered_set<NodeID> previous;
 
         std::vector<std::future<std::vector<NodeID> > > futures;
+        std::vector<NodeID> future_sources;
+        // source whose source set a vertex was contracted with
+        std::vector<NodeID> contracted_with(problem->graph->n(),
+                                            UNDEFINED_NODE);
         std::vector<push_relabel<false, true> > prs(
             configuration::getConfig()->random_flows +
             configuration::getConfig()->high_distance_flows);
@@ -114,6 +156,11 @@ class maximum_flow {
             previous.insert(t.position);
         }
 
+        if (problem->terminals.empty()) {
+            // there is nothing to separate a source from
+            return uf;
+        }
+
         for (size_t i = 0; i < configuration::getConfig()->random_flows; ++i) {
             NodeID r = random_functions::nextInt(0, problem->graph->n() - 1);
             EdgeWeight max = problem->graph->getMaxDegree();
@@ -127,6 +174,10 @@ class maximum_flow {
                 r = random_functions::nextInt(0, problem->graph->n() - 1);
             }
 
+            if (isTerminal(problem, r)) {
+                continue;
+            }
+
             previous.insert(r);
             std::vector<NodeID> terms;
             for (const auto& t : problem->terminals) {
@@ -140,14 +191,14 @@ class maximum_flow {
                     std::async(&push_relabel<false, true>::callable_max_flow,
                                &prs[pr_id++],
                                problem->graph, terms, num_t, true));
+                future_sources.emplace_back(r);
             } else {
                 push_relabel pr;
                 auto sourceSet = pr.solve_max_flow_min_cut(
                     problem->graph, terms, num_t, true).second;
 
-                for (const auto& s : sourceSet) {
-                    uf.Union(s, r);
-                }
+                contractSourceSet(problem, sourceSet, r,
+                                  &contracted_with, &uf);
             }
         }
 
@@ -158,7 +209,7 @@ class maximum_flow {
             NodeID last = hdv.size() - 1;
             NodeID idx = random_functions::nextInt(last * hd_factor, last);
             NodeID r = hdv[idx];
-            if (uf.Find(r) != r) {
+            if (uf.Find(r) != r || isTerminal(problem, r)) {
                 continue;
             }
 
@@ -176,24 +227,21 @@ class maximum_flow {
                     std::async(&push_relabel<false, true>::callable_max_flow,
                                &prs[pr_id++],
                                problem->graph, terms, num_t, true));
+                future_sources.emplace_back(r);
             } else {
                 push_relabel pr;
                 auto sourceSet = pr.solve_max_flow_min_cut(
                     problem->graph, terms, num_t, true).second;
 
-                for (const auto& s : sourceSet) {
-                    uf.Union(s, r);
-                }
+                contractSourceSet(problem, sourceSet, r,
+                                  &contracted_with, &uf);
             }
         }
 
         for (size_t i = 0; i < futures.size(); ++i) {
             auto& t = futures[i];
-            const auto& vec = t.get();
-            NodeID head = vec[0];
-            for (const auto& n : vec) {
-                uf.Union(n, head);
-            }
+            contractSourceSet(problem, t.get(), future_sources[i],
+                              &contracted_with, &uf);
         }
 
         return uf;
-- 
2.43.0


From d051e546c6bfc99a5353f077b6905e8bced0dbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:11 +0000
Subject: [PATCH 32/52] fix: low degree contraction must not merge a terminal
 with its heaviest neighbour

---
 lib/algorithms/multicut/kernelization_criteria.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/kernelization_criteria.h b/lib/algorithms/multicut/kernelization_criteria.h
index 50c16a1..63c0390 100644
--- a/lib/algorithms/multicut/kernelization_criteria.h
+++ b/lib/algorithms/multicut/kernelization_criteria.h
@@ -186,7 +186,8 @@ class kernelization_criteria {
             if (graph->getUnweightedNodeDegree(n) == 1) {
                 NodeID tgt = graph->getEdgeTarget(n, 0);
                 uf.Union(n, tgt);
-                if (graph->getUnweightedNodeDegree(tgt) == 3) {
+                if (!terminals[tgt]
+                    && graph->getUnweightedNodeDegree(tgt) == 3) {
                     // this will become a degree 2 vertex
                     // so we run the degree 2 contraction
                     EdgeID reverse = graph->getReverseEdge(n, 0);
-- 
2.43.0


From 897fd50a6523df502867d321447a53bac8c642a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:11 +0000
Subject: [PATCH 33/52] fix: triangle contraction has to allow for three
 different blocks

---
 .../multicut/kernelization_criteria.h         | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/lib/algorithms/multicut/kernelization_criteria.h b/lib/algorithms/multicut/kernelization_criteria.h
index 63c0390..e669bd4 100644
--- a/lib/algorithms/multicut/kernelization_criteria.h
+++ b/lib/algorithms/multicut/kernelization_criteria.h
@@ -359,13 +359,27 @@ class kernelization_criteria {
                                           (weight_e2 + weight_e3) * 2)
                                          && (uf.Find(v3) == v3));
 
-                                    if (heavy_v1 && heavy_v2)
+                                    // if all three vertices are in different
+                                    // blocks, it has to be possible to move
+                                    // both vertices to the block of the third
+                                    EdgeWeight sum =
+                                        2 * (weight_e1 + weight_e2 + weight_e3);
+                                    bool two_terminals =
+                                        problem->terminals.size() <= 2;
+
+                                    if (heavy_v1 && heavy_v2 &&
+                                        (two_terminals || weight_v1 + weight_v2
+                                         <= sum + weight_e1))
                                         uf.Union(v1, v2);
 
-                                    if (heavy_v1 && heavy_v3)
+                                    if (heavy_v1 && heavy_v3 &&
+                                        (two_terminals || weight_v1 + weight_v3
+                                         <= sum + weight_e3))
                                         uf.Union(v1, v3);
 
-                                    if (heavy_v2 && heavy_v3)
+                                    if (heavy_v2 && heavy_v3 &&
+                                        (two_terminals || weight_v2 + weight_v3
+                                         <= sum + weight_e2))
                                         uf.Union(v2, v3);
                                 } else {
                                     LOG1 << "Graph corrupted!";
-- 
2.43.0


From c198eb4421890daf4ffa1d120109514ebdcc8d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:11 +0000
Subject: [PATCH 34/52] fix: isolating flow of a terminal stays valid only
 while its vertex is unchanged

---
 lib/algorithms/multicut/graph_contraction.h      | 6 +++---
 lib/algorithms/multicut/kernelization_criteria.h | 9 +++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/algorithms/multicut/graph_contraction.h b/lib/algorithms/multicut/graph_contraction.h
index af66717..5457bda 100644
--- a/lib/algorithms/multicut/graph_contraction.h
+++ b/lib/algorithms/multicut/graph_contraction.h
@@ -138,7 +138,7 @@ class graph_contraction {
         std::unordered_map<NodeID, bool> invalid_flows;
 
         for (const auto& t : problem->terminals) {
-            invalid_flows[t.position] = t.invalid_flow;
+            invalid_flows[t.original_id] = t.invalid_flow;
         }
 
         problem->terminals.clear();
@@ -148,8 +148,8 @@ class graph_contraction {
             NodeID node = problem->graph->getCurrentPosition(o);
             if ((problem->graph->getUnweightedNodeDegree(node) > 0)
                 && (node < problem->graph->number_of_nodes())) {
-                NodeID n = invalid_flows.count(node);
-                bool flow_invalid = n == 0 || invalid_flows[node];
+                NodeID n = invalid_flows.count(i);
+                bool flow_invalid = n == 0 || invalid_flows[i];
                 problem->terminals.emplace_back(node, i, flow_invalid);
             }
         }
diff --git a/lib/algorithms/multicut/kernelization_criteria.h b/lib/algorithms/multicut/kernelization_criteria.h
index e669bd4..6fb556f 100644
--- a/lib/algorithms/multicut/kernelization_criteria.h
+++ b/lib/algorithms/multicut/kernelization_criteria.h
@@ -146,6 +146,15 @@ class kernelization_criteria {
                     NodeID c = problem->graph->getCurrentPosition(
                         reverse_mapping[i][0]);
 
+                    // isolating cut of the terminal might be heavier now
+                    for (auto& t : problem->terminals) {
+                        NodeID o = problem->mapped(
+                            original_terminals[t.original_id]);
+                        if (problem->graph->getCurrentPosition(o) == c) {
+                            t.invalid_flow = true;
+                        }
+                    }
+
                     for (const NodeID& n :
                          problem->graph->containedVertices(c)) {
                         active[n] = true;
-- 
2.43.0


From 7518e02af7eb2de33f1d22a0f772dd8201c2cbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:45 +0000
Subject: [PATCH 35/52] hooks: report queue, bound and termination events of
 branch and reduce (VIECUT_VERIFICATION_HOOKS)

---
 lib/algorithms/multicut/branch_multicut.h     |  2 ++
 lib/algorithms/multicut/problem_management.h  |  7 ++++++
 .../problem_queues/per_thread_problem_queue.h |  6 +++++
 lib/common/verification_hooks.h               | 25 +++++++++++++++++++
 4 files changed, 40 insertions(+)
 create mode 100644 lib/common/verification_hooks.h

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 50fa7e2..8ef3735 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -42,6 +42,7 @@
 #include "algorithms/multicut/problem_management.h"
 #include "coarsening/contract_graph.h"
 #include "common/configuration.h"
+#include "common/verification_hooks.h"
 #include "data_structure/union_find.h"
 #include "io/graph_io.h"
 #include "tools/timer.h"
@@ -212,6 +213,7 @@ class branch_multicut {
                 } else {
                     solveProblem(problem.value(), thread_id);
                 }
+                VIECUT_HOOK("done", thread_id, problem.value().get(), 0);
             } else {
                 if (!im_idle) {
                     pm.incrementIdleThreads();
diff --git a/lib/algorithms/multicut/problem_management.h b/lib/algorithms/multicut/problem_management.h
index 1e285b9..bf3cab7 100644
--- a/lib/algorithms/multicut/problem_management.h
+++ b/lib/algorithms/multicut/problem_management.h
@@ -22,6 +22,7 @@
 #include "algorithms/multicut/problem_queues/per_thread_problem_queue.h"
 #include "algorithms/multicut/problem_queues/single_problem_queue.h"
 #include "common/configuration.h"
+#include "common/verification_hooks.h"
 #include "data_structure/mutable_graph.h"
 
 using namespace std::chrono_literals;
@@ -249,6 +250,7 @@ class problem_management {
         bestsol_mutex.lock();
         if (prev_gub < global_upper_bound) {
             global_upper_bound = prev_gub;
+            VIECUT_HOOK("bound", 0, nullptr, global_upper_bound);
             LOG1 << "Improvement after " << t.elapsed()
                  << " to " << prev_gub << " (beforehand)";
             for (size_t i = 0; i < current_solution->size(); ++i) {
@@ -268,6 +270,7 @@ class problem_management {
         std::lock_guard<std::mutex> bestsol_lock(bestsol_mutex);
         if (ls_bound < global_upper_bound || !bestSolutionInitialized) {
             global_upper_bound = ls_bound;
+            VIECUT_HOOK("bound", 0, nullptr, global_upper_bound);
             LOG1 << "Improvement after " << t.elapsed() << " to " << ls_bound;
 
             for (size_t i = 0; i < current_solution->size(); ++i) {
@@ -364,6 +367,7 @@ class problem_management {
     void updateBound(FlowType newSolution) {
         std::lock_guard<std::mutex> bestsol_lock(bestsol_mutex);
         global_upper_bound = std::min(newSolution, global_upper_bound);
+        VIECUT_HOOK("bound", 0, nullptr, global_upper_bound);
     }
 
     FlowType bestCut() {
@@ -407,10 +411,12 @@ class problem_management {
 
     void incrementIdleThreads() {
         ++idle_threads;
+        VIECUT_HOOK("idle", 0, nullptr, 1);
     }
 
     void decrementIdleThreads() {
         --idle_threads;
+        VIECUT_HOOK("idle", 0, nullptr, -1);
     }
 
     bool finished() {
@@ -419,5 +425,6 @@ class problem_management {
 
     void setFinish() {
         is_finished = true;
+        VIECUT_HOOK("finish", 0, nullptr, 0);
     }
 };
diff --git a/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h b/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
index 155dea4..c83cf85 100644
--- a/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
+++ b/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
@@ -23,6 +23,7 @@
 
 #include "algorithms/multicut/multicut_problem.h"
 #include "common/configuration.h"
+#include "common/verification_hooks.h"
 
 class per_thread_problem_queue {
  public:
@@ -85,6 +86,8 @@ class per_thread_problem_queue {
         while (pq[local_id].size() > 0) {
             problemPointer current_problem = pq[local_id].top();
             if (current_problem->lower_bound >= global_upper_bound) {
+                VIECUT_HOOK("drop", local_id, current_problem.get(),
+                            global_upper_bound);
                 pq[local_id].pop();
                 sizes[local_id].first -= 1;
                 sizes[local_id].second = true;
@@ -109,6 +112,7 @@ class per_thread_problem_queue {
                 sendProblemWeight = UNDEFINED_FLOW;
                 haveSendProblem = false;
                 currentProblem = sendProblem;
+                VIECUT_HOOK("pull", local_id, currentProblem.get(), 0);
                 sendProblem = nullptr;
             } else {
                 send_problem_mutex.unlock();
@@ -118,6 +122,7 @@ class per_thread_problem_queue {
             send_problem_mutex.unlock();
         } else {
             currentProblem = pq[local_id].top();
+            VIECUT_HOOK("pull", local_id, currentProblem.get(), 0);
             pq[local_id].pop();
             sizes[local_id].first -= 1;
             sizes[local_id].second = true;
@@ -161,6 +166,7 @@ class per_thread_problem_queue {
 
         pop_mutex[min_index].lock();
         send_problem_mutex.lock();
+        VIECUT_HOOK("add", local_id, p.get(), p->lower_bound);
 
         if (!haveSendProblem) {
             sendProblem = p;
diff --git a/lib/common/verification_hooks.h b/lib/common/verification_hooks.h
new file mode 100644
index 0000000..1f2e2b1
--- /dev/null
+++ b/lib/common/verification_hooks.h
@@ -0,0 +1,25 @@
+/******************************************************************************
+ * verification_hooks.h
+ *
+ * Source of VieCut
+ *
+ * Events of the parallel branch and reduce protocol, for external checkers.
+ * Expands to nothing unless VIECUT_VERIFICATION_HOOKS is defined.
+ *
+ * Published under the MIT license in the LICENSE file.
+ *****************************************************************************/
+
+#pragma once
+
+#ifdef VIECUT_VERIFICATION_HOOKS
+#include <cstddef>
+#include <cstdint>
+
+void viecut_hook(const char* event, size_t thread,
+                 const void* problem, int64_t value);
+
+#define VIECUT_HOOK(event, thread, problem, value) \
+    viecut_hook(event, thread, problem, value)
+#else
+#define VIECUT_HOOK(event, thread, problem, value) do { } while (false)
+#endif
-- 
2.43.0


From d5b95e04e41fb033deda6eed2a9fa83d061bfa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 36/52] fix: do not end branch and reduce while a thread still
 works on a problem

A thread could see all threads idle, and only then, after another thread
had woken up and taken the last problem, see all queues empty. It then
declared the search finished and the subproblems of the other thread were
never solved. Count the unfinished problems instead, so that one read
decides.
---
 lib/algorithms/multicut/branch_multicut.h        |  1 +
 lib/algorithms/multicut/problem_management.h     |  4 ++++
 .../problem_queues/per_thread_problem_queue.h    | 16 +++++++++++++++-
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 8ef3735..fa80b5c 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -214,6 +214,7 @@ class branch_multicut {
                     solveProblem(problem.value(), thread_id);
                 }
                 VIECUT_HOOK("done", thread_id, problem.value().get(), 0);
+                pm.problemDone();
             } else {
                 if (!im_idle) {
                     pm.incrementIdleThreads();
diff --git a/lib/algorithms/multicut/problem_management.h b/lib/algorithms/multicut/problem_management.h
index bf3cab7..c35f14d 100644
--- a/lib/algorithms/multicut/problem_management.h
+++ b/lib/algorithms/multicut/problem_management.h
@@ -355,6 +355,10 @@ class problem_management {
         problems.addProblem(p, thread_id, preferLocal);
     }
 
+    void problemDone() {
+        problems.problemDone();
+    }
+
     bool checkProblem(problemPointer problem) {
         return problem->lower_bound < global_upper_bound;
     }
diff --git a/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h b/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
index c83cf85..bf11bb9 100644
--- a/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
+++ b/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
@@ -31,6 +31,7 @@ class per_thread_problem_queue {
         : num_threads(threads),
           haveSendProblem(false),
           sendProblemWeight(UNDEFINED_FLOW),
+          unfinished(0),
           pop_mutex(threads),
           sizes(threads) {
         for (size_t i = 0; i < num_threads; ++i) {
@@ -91,6 +92,7 @@ class per_thread_problem_queue {
                 pq[local_id].pop();
                 sizes[local_id].first -= 1;
                 sizes[local_id].second = true;
+                problemDone();
             } else {
                 break;
             }
@@ -137,7 +139,14 @@ class per_thread_problem_queue {
         return currentProblem;
     }
 
+    // has to be called once work on a pulled problem is finished
+    void problemDone() {
+        --unfinished;
+    }
+
     size_t addProblem(problemPointer p, size_t local_id, bool preferLocal) {
+        ++unfinished;
+
         if (sizes[local_id].second) {
             sizes[local_id].second = false;
         }
@@ -196,8 +205,10 @@ class per_thread_problem_queue {
         return sizes[i].first == 0;
     }
 
+    // no problem is queued and no thread works on one. This has to be a single
+    // read, as queues can be emptied and filled again while we look at them
     bool all_empty() {
-        return size() == 0;
+        return unfinished == 0;
     }
 
     size_t size() {
@@ -287,6 +298,9 @@ class per_thread_problem_queue {
     bool haveSendProblem;
     FlowType sendProblemWeight;
 
+    // problems that were added and are neither solved nor discarded
+    std::atomic<size_t> unfinished;
+
     std::vector<std::mutex> pop_mutex;
     std::mutex send_problem_mutex;
     std::vector<std::pair<std::atomic<size_t>, bool> > sizes;
-- 
2.43.0


From c5542bf0eec0546edaa91ee4649053403e34a959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:17 +0000
Subject: [PATCH 37/52] fix: keep the queue in step with the connectivity in
 parallel capforest

---
 lib/parallel/algorithm/exact_parallel_minimum_cut.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/parallel/algorithm/exact_parallel_minimum_cut.h b/lib/parallel/algorithm/exact_parallel_minimum_cut.h
index 287e3d5..87c66f0 100644
--- a/lib/parallel/algorithm/exact_parallel_minimum_cut.h
+++ b/lib/parallel/algorithm/exact_parallel_minimum_cut.h
@@ -223,12 +223,13 @@ class exact_parallel_minimum_cut : public minimum_cut {
                                     std::min(r_v[tgt] + wgt,
                                              mincut);
                                 r_v[tgt] = new_rv;
-                                if (!visited[tgt] && !local_visited[tgt]) {
-                                    if (pq.contains(tgt)) {
-                                        pq.increaseKey(tgt, new_rv);
-                                    } else {
-                                        pq.insert(tgt, new_rv);
-                                    }
+                                // the queue has to follow r_v even if another
+                                // thread visits tgt right now, otherwise
+                                // vertices are not scanned in the order of r_v
+                                if (pq.contains(tgt)) {
+                                    pq.increaseKey(tgt, new_rv);
+                                } else {
+                                    pq.insert(tgt, new_rv);
                                 }
                             }
                         }
-- 
2.43.0


From fca799be97c6babd01c1b991a87841139bbe01f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:48 +0000
Subject: [PATCH 38/52] fix: Padberg-Rinaldi tests compare degrees as edge
 weights

---
 lib/coarsening/contraction_tests.h          | 4 ++--
 lib/parallel/coarsening/contraction_tests.h | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/coarsening/contraction_tests.h b/lib/coarsening/contraction_tests.h
index b944909..2ee43fb 100644
--- a/lib/coarsening/contraction_tests.h
+++ b/lib/coarsening/contraction_tests.h
@@ -61,11 +61,11 @@ class tests {
         G->computeDegrees();
         std::vector<bool> contracted(G->number_of_nodes(), false);
         for (NodeID n : G->nodes()) {
-            NodeWeight n_wgt = G->getWeightedNodeDegree(n);
+            EdgeWeight n_wgt = G->getWeightedNodeDegree(n);
             for (EdgeID e : G->edges_of(n)) {
                 auto [t, wgt] = G->getEdge(n, e);
                 NodeID target = uf.Find(t);
-                NodeID t_wgt = G->getWeightedNodeDegree(t);
+                EdgeWeight t_wgt = G->getWeightedNodeDegree(t);
                 NodeID source = uf.Find(n);
 
                 if (wgt >= limit) {
diff --git a/lib/parallel/coarsening/contraction_tests.h b/lib/parallel/coarsening/contraction_tests.h
index 9266e8f..be1ac6a 100644
--- a/lib/parallel/coarsening/contraction_tests.h
+++ b/lib/parallel/coarsening/contraction_tests.h
@@ -69,11 +69,11 @@ class tests {
         NodeID end = G->number_of_nodes();
 #pragma omp parallel for schedule(dynamic, 100)
         for (NodeID n = 0; n < end; ++n) {
-            NodeWeight n_wgt = G->getWeightedNodeDegree(n);
+            EdgeWeight n_wgt = G->getWeightedNodeDegree(n);
 
             for (EdgeID e : G->edges_of(n)) {
                 auto [tgt, wgt] = G->getEdge(n, e);
-                NodeWeight tgt_wgt = G->getWeightedNodeDegree(tgt);
+                EdgeWeight tgt_wgt = G->getWeightedNodeDegree(tgt);
                 if (wgt >= weight_limit) {
                     contracted[n] = true;
                     contracted[tgt] = true;
@@ -137,10 +137,10 @@ class tests {
                     }
                 }
 
-                NodeID deg_n = G->getWeightedNodeDegree(n);
+                EdgeWeight deg_n = G->getWeightedNodeDegree(n);
                 for (EdgeID e1 : G->edges_of(n)) {
                     auto [tgt, w1] = G->getEdge(n, e1);
-                    NodeID deg_tgt = G->getWeightedNodeDegree(tgt);
+                    EdgeWeight deg_tgt = G->getWeightedNodeDegree(tgt);
                     finished[tgt] = true;
                     EdgeWeight wgt_sum = w1;
                     if (tgt > n) {
-- 
2.43.0


From 3971b1642f610c2fed4f33b52d7feea77fc85a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:27 +0000
Subject: [PATCH 39/52] fix: best known solution of a process starts above
 every cut weight

---
 lib/algorithms/multicut/mpi_communication.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/mpi_communication.h b/lib/algorithms/multicut/mpi_communication.h
index 9af06b0..c437c72 100644
--- a/lib/algorithms/multicut/mpi_communication.h
+++ b/lib/algorithms/multicut/mpi_communication.h
@@ -25,7 +25,7 @@ class mpi_communication {
     static const bool debug = false;
 
     mpi_communication() : bestSolutionLocal(false),
-                          best_solution(UNDEFINED_NODE) {
+                          best_solution(UNDEFINED_FLOW) {
         MPI_Comm_size(MPI_COMM_WORLD, &mpi_size);
         MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);
         req.resize(mpi_size);
-- 
2.43.0


From 1cd69ad754e39ecc2388df7f1ec55c6a75dcc544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:27 +0000
Subject: [PATCH 40/52] fix: tries to find a flow source are not bounded by the
 edge weights

---
 lib/algorithms/multicut/maximum_flow.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/maximum_flow.h b/lib/algorithms/multicut/maximum_flow.h
index aac4eb7..1137f30 100644
--- a/lib/algorithms/multicut/maximum_flow.h
+++ b/lib/algorithms/multicut/maximum_flow.h
@@ -164,13 +164,15 @@ class maximum_flow {
         for (size_t i = 0; i < configuration::getConfig()->random_flows; ++i) {
             NodeID r = random_functions::nextInt(0, problem->graph->n() - 1);
             EdgeWeight max = problem->graph->getMaxDegree();
+            // the number of tries must not grow with the edge weights
+            size_t max_tries = std::min<EdgeWeight>(max, problem->graph->n());
             size_t num_tries = 0;
             while (((max >= (problem->graph->getWeightedNodeDegree(r)
                              + num_tries++))
                     || uf.Find(r) != r
                     || previous.count(r) > 0
                     || !active[r])
-                   && num_tries < max) {
+                   && num_tries < max_tries) {
                 r = random_functions::nextInt(0, problem->graph->n() - 1);
             }
 
-- 
2.43.0


From 829e1311eb08f65b054815927c35729b430116c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:27 +0000
Subject: [PATCH 41/52] fix: weights towards terminals are summed up as edge
 weights

---
 lib/algorithms/multicut/edge_selection.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/algorithms/multicut/edge_selection.h b/lib/algorithms/multicut/edge_selection.h
index 764fa22..00cf8be 100644
--- a/lib/algorithms/multicut/edge_selection.h
+++ b/lib/algorithms/multicut/edge_selection.h
@@ -109,8 +109,8 @@
 
 [[maybe_unused]] static std::tuple<NodeID, EdgeID> findEdgeWithManyTerminals(
     const problemPointer problem) {
-    std::unordered_map<NodeID, uint16_t> terms;
-    NodeID max_num = 0;
+    std::unordered_map<NodeID, EdgeWeight> terms;
+    EdgeWeight max_num = 0;
     NodeID max_ngbr = 0;
     std::unordered_set<NodeID> termset;
     for (const auto& term : problem->terminals) {
-- 
2.43.0


From c405e0508d91fcd1b05f43781af0fc569b6620c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:09 +0000
Subject: [PATCH 42/52] fix: multiterminal problems of another process have no
 priority edge

---
 lib/algorithms/multicut/mpi_communication.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/algorithms/multicut/mpi_communication.h b/lib/algorithms/multicut/mpi_communication.h
index c437c72..c45d75a 100644
--- a/lib/algorithms/multicut/mpi_communication.h
+++ b/lib/algorithms/multicut/mpi_communication.h
@@ -111,6 +111,7 @@ class mpi_communication {
         problem->lower_bound = data[0];
         problem->upper_bound = data[1];
         problem->deleted_weight = data[2];
+        problem->priority_edge = { UNDEFINED_NODE, UNDEFINED_EDGE };
         size_t num_terminals = data[3];
         size_t next_index = 4;
         for (size_t i = 0; i < num_terminals; ++i) {
-- 
2.43.0


From 4fd92df3878d9bd51ae566ec589e5f3f293a08a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:09 +0000
Subject: [PATCH 43/52] fix: the end of branch and reduce is only told to
 processes that ask

---
 lib/algorithms/multicut/branch_multicut.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index fa80b5c..b54cf31 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -260,16 +260,12 @@ class branch_multicut {
                                 }
 
                                 if (mpi_num_done == mpi_size - 1) {
-                                    for (int i = 0; i < mpi_size - 1; ++i) {
-                                        MessageStatus fnl =
-                                            MessageStatus::allEmpty;
-                                        MPI_Request fr;
-                                        MPI_Isend(&fnl, 1, MPI_INT, i, 3000,
-                                                  MPI_COMM_WORLD, &fr);
-                                        pm.setFinish();
-                                        pm.notifyAllThreads();
-                                        return;
-                                    }
+                                    // others are told when they ask for a
+                                    // problem: a message that nobody asked for
+                                    // would look like a question to them
+                                    pm.setFinish();
+                                    pm.notifyAllThreads();
+                                    return;
                                 }
                             } else {
                                 if (!sent_done) {
-- 
2.43.0


From 3812b93946c7e96e4c9de3f102cf6be150ef1cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:09 +0000
Subject: [PATCH 44/52] fix: processes with problems do not ask others for more

---
 lib/algorithms/multicut/branch_multicut.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index b54cf31..6752b61 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -223,6 +223,13 @@ class branch_multicut {
 
                 if (pm.allThreadsIdle() && pm.allEmpty()) {
                     if (mpi_mutex.try_lock()) {
+                        if (!pm.allEmpty()) {
+                            // another thread has received a problem since
+                            mpi_mutex.unlock();
+                            pm.decrementIdleThreads();
+                            im_idle = false;
+                            continue;
+                        }
                         auto src = mpic.waitForProblem();
                         if (std::holds_alternative<int>(src)) {
                             if (sent_done) {
-- 
2.43.0


From e0687205ca5191eb8038b88c15faa4538a9f7894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:24 +0000
Subject: [PATCH 45/52] fix: a problem is taken before it is promised to
 another process

---
 lib/algorithms/multicut/branch_multicut.h   | 16 ++++++++++------
 lib/algorithms/multicut/mpi_communication.h |  7 +++++++
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 6752b61..6a7d8c0 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -197,16 +197,20 @@ class branch_multicut {
                     pm.updateBound(mpic.getGlobalBestSolution());
                 }
 
-                std::optional<int> sending = std::nullopt;
-                if (mpi_size > 1 && thread_id == 0 && pm.numProblems() > 1) {
-                    sending = mpic.checkForReceiver();
-                }
-
-                auto problem = pm.pullProblem(thread_id, sending.has_value());
+                bool canSend = mpi_size > 1 && thread_id == 0
+                               && pm.numProblems() > 1;
+                auto problem = pm.pullProblem(
+                    thread_id, canSend && mpic.hasReceiver());
                 if (!problem.has_value()) {
                     continue;
                 }
 
+                // a problem is only promised once it is there to be sent
+                std::optional<int> sending = std::nullopt;
+                if (canSend) {
+                    sending = mpic.checkForReceiver();
+                }
+
                 if (sending.has_value()) {
                     // forget this problem if it was sent to another worker
                     mpic.sendProblem(problem.value(), sending.value());
diff --git a/lib/algorithms/multicut/mpi_communication.h b/lib/algorithms/multicut/mpi_communication.h
index c45d75a..83c53d1 100644
--- a/lib/algorithms/multicut/mpi_communication.h
+++ b/lib/algorithms/multicut/mpi_communication.h
@@ -141,6 +141,13 @@ class mpi_communication {
         return problem;
     }
 
+    bool hasReceiver() {
+        int result;
+        MPI_Iprobe(MPI_ANY_SOURCE, 3000, MPI_COMM_WORLD,
+                   &result, MPI_STATUS_IGNORE);
+        return result > 0;
+    }
+
     std::optional<int> checkForReceiver() {
         int result;
         LOG0 << mpi_rank << "probing";
-- 
2.43.0


From 51529c83da9fc8c309b09313c1a28bdace18bbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:29 +0000
Subject: [PATCH 46/52] fix: the process with the best solution broadcasts it,
 not the one with the best bound

---
 lib/algorithms/multicut/branch_multicut.h   | 11 ++++++++---
 lib/algorithms/multicut/mpi_communication.h | 10 +---------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 6a7d8c0..a13c774 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -149,14 +149,19 @@ class branch_multicut {
             }
         }
 
-        FlowType total_weight = pm.bestCut();
+        // a process can know a bound without having the solution, so look at the
+        // best solution of each process
+        FlowType local_weight = UNDEFINED_FLOW;
+        if (pm.isBestSolutionInitialized()) {
+            local_weight = msm.flowValue(false, pm.getBestSolution());
+        }
 
-        FlowType local_weight = total_weight;
+        FlowType total_weight = local_weight;
         MPI_Allreduce(&local_weight, &total_weight, 1, MPI_LONG,
                       MPI_MIN, MPI_COMM_WORLD);
 
         size_t local_bcast_id = mpi_size;
-        if (mpic.bestSolutionIsLocal() && local_weight == total_weight) {
+        if (local_weight == total_weight) {
             // find processor which has best solution to broadcast
             local_bcast_id = mpi_rank;
         }
diff --git a/lib/algorithms/multicut/mpi_communication.h b/lib/algorithms/multicut/mpi_communication.h
index 83c53d1..e8254a3 100644
--- a/lib/algorithms/multicut/mpi_communication.h
+++ b/lib/algorithms/multicut/mpi_communication.h
@@ -24,8 +24,7 @@ class mpi_communication {
  public:
     static const bool debug = false;
 
-    mpi_communication() : bestSolutionLocal(false),
-                          best_solution(UNDEFINED_FLOW) {
+    mpi_communication() : best_solution(UNDEFINED_FLOW) {
         MPI_Comm_size(MPI_COMM_WORLD, &mpi_size);
         MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);
         req.resize(mpi_size);
@@ -42,7 +41,6 @@ class mpi_communication {
                          15123, MPI_COMM_WORLD, NULL);
                 if (best_solution > recv) {
                     best_solution = recv;
-                    bestSolutionLocal = false;
                     LOG1 << mpi_rank << " received better solution "
                          << best_solution << " from " << status.MPI_SOURCE;
                 }
@@ -57,7 +55,6 @@ class mpi_communication {
             bool updated = __sync_bool_compare_and_swap(
                 &best_solution, beforeBest, solution);
             if (!updated) return;  // CAS so every solution is only sent once
-            bestSolutionLocal = true;
 
             for (int i = 0; i < mpi_size; ++i) {
                 if (i != mpi_rank) {
@@ -221,14 +218,9 @@ class mpi_communication {
         }
     }
 
-    bool bestSolutionIsLocal() {
-        return bestSolutionLocal;
-    }
-
  private:
     int mpi_size;
     int mpi_rank;
     std::vector<MPI_Request> req;
-    bool bestSolutionLocal;
     FlowType best_solution;
 };
-- 
2.43.0


From 4dac25309db7fe5fe297291384530cd1960953d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:29 +0000
Subject: [PATCH 47/52] fix: bounds of a multiterminal problem do not reach the
 next one

---
 lib/algorithms/multicut/branch_multicut.h   |  2 ++
 lib/algorithms/multicut/mpi_communication.h | 25 +++++++++++++++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index a13c774..15d3351 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -149,6 +149,8 @@ class branch_multicut {
             }
         }
 
+        mpic.receiveRemainingBounds();
+
         // a process can know a bound without having the solution, so look at the
         // best solution of each process
         FlowType local_weight = UNDEFINED_FLOW;
diff --git a/lib/algorithms/multicut/mpi_communication.h b/lib/algorithms/multicut/mpi_communication.h
index e8254a3..2dc30a7 100644
--- a/lib/algorithms/multicut/mpi_communication.h
+++ b/lib/algorithms/multicut/mpi_communication.h
@@ -12,6 +12,7 @@
 
 #include <mpi.h>
 
+#include <atomic>
 #include <chrono>
 #include <memory>
 #include <thread>
@@ -24,7 +25,8 @@ class mpi_communication {
  public:
     static const bool debug = false;
 
-    mpi_communication() : best_solution(UNDEFINED_FLOW) {
+    mpi_communication() : best_solution(UNDEFINED_FLOW),
+                          num_sent(0), num_received(0) {
         MPI_Comm_size(MPI_COMM_WORLD, &mpi_size);
         MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);
         req.resize(mpi_size);
@@ -38,7 +40,8 @@ class mpi_communication {
             if (result > 0) {
                 FlowType recv;
                 MPI_Recv(&recv, 1, MPI_LONG, status.MPI_SOURCE,
-                         15123, MPI_COMM_WORLD, NULL);
+                         15123, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
+                ++num_received;
                 if (best_solution > recv) {
                     best_solution = recv;
                     LOG1 << mpi_rank << " received better solution "
@@ -55,6 +58,7 @@ class mpi_communication {
             bool updated = __sync_bool_compare_and_swap(
                 &best_solution, beforeBest, solution);
             if (!updated) return;  // CAS so every solution is only sent once
+            ++num_sent;
 
             for (int i = 0; i < mpi_size; ++i) {
                 if (i != mpi_rank) {
@@ -66,6 +70,21 @@ class mpi_communication {
         }
     }
 
+    // receives all bounds that are still on their way, so that none of them is
+    // taken for a bound of the next problem. All processes have to call this
+    // when none of them sends any more bounds.
+    void receiveRemainingBounds() {
+        uint64_t local_sent = num_sent;
+        uint64_t total_sent = 0;
+        MPI_Allreduce(&local_sent, &total_sent, 1, MPI_LONG,
+                      MPI_SUM, MPI_COMM_WORLD);
+        for (; num_received < total_sent - local_sent; ++num_received) {
+            FlowType recv;
+            MPI_Recv(&recv, 1, MPI_LONG, MPI_ANY_SOURCE, 15123,
+                     MPI_COMM_WORLD, MPI_STATUS_IGNORE);
+        }
+    }
+
     void sendProblem(problemPointer problem, size_t tgt) {
         LOG1 << mpi_rank << " sends problem to " << tgt;
         std::vector<uint64_t> data;
@@ -223,4 +242,6 @@ class mpi_communication {
     int mpi_rank;
     std::vector<MPI_Request> req;
     FlowType best_solution;
+    std::atomic<uint64_t> num_sent;      // bounds sent to every other process
+    uint64_t num_received;
 };
-- 
2.43.0


From 5cf563451f9fc2f59c4a65ce4c180a6cd4221587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:22 +0000
Subject: [PATCH 48/52] fix: sort3 sorts the weights it is given, not copies of
 them

---
 lib/coarsening/contraction_tests.h          | 2 +-
 lib/parallel/coarsening/contraction_tests.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/coarsening/contraction_tests.h b/lib/coarsening/contraction_tests.h
index 2ee43fb..973c10a 100644
--- a/lib/coarsening/contraction_tests.h
+++ b/lib/coarsening/contraction_tests.h
@@ -25,7 +25,7 @@
 
 class tests {
  private:
-    static void sort3(EdgeWeight w1, EdgeWeight w2, EdgeWeight
+    static void sort3(EdgeWeight& w1, EdgeWeight& w2, EdgeWeight&
                       w3) {
         if (w1 < w2) {
             if (w2 < w3) {
diff --git a/lib/parallel/coarsening/contraction_tests.h b/lib/parallel/coarsening/contraction_tests.h
index be1ac6a..21ef283 100644
--- a/lib/parallel/coarsening/contraction_tests.h
+++ b/lib/parallel/coarsening/contraction_tests.h
@@ -29,7 +29,7 @@
 
 class tests {
  private:
-    static void sort3(EdgeWeight w1, EdgeWeight w2, EdgeWeight w3) {
+    static void sort3(EdgeWeight& w1, EdgeWeight& w2, EdgeWeight& w3) {
         if (w1 < w2) {
             if (w2 < w3) {
                 return;
-- 
2.43.0


From 337ce138ff314e1bdd83db5d7f69a45fbaad0ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:22 +0000
Subject: [PATCH 49/52] fix: random terminals differ from each other

---
 lib/algorithms/multicut/multiterminal_cut.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/algorithms/multicut/multiterminal_cut.h b/lib/algorithms/multicut/multiterminal_cut.h
index 8853ff7..96e7811 100644
--- a/lib/algorithms/multicut/multiterminal_cut.h
+++ b/lib/algorithms/multicut/multiterminal_cut.h
@@ -314,9 +314,17 @@ class multiterminal_cut {
 
     std::vector<NodeID> randomTerminals(mutableGraphPtr G) {
         std::vector<NodeID> terminals;
-        for (int i = 0; i < configuration::getConfig()->random_k; ++i) {
-            terminals.emplace_back(random_functions::nextInt(0, G->n() - 1));
-            LOG << "Set random terminal " << terminals.back();
+        size_t k = std::min(
+            static_cast<size_t>(configuration::getConfig()->random_k),
+            static_cast<size_t>(G->n()));
+        while (terminals.size() < k) {
+            NodeID t = random_functions::nextInt(0, G->n() - 1);
+            // every vertex can be terminal only once
+            if (std::find(terminals.begin(), terminals.end(), t)
+                == terminals.end()) {
+                terminals.emplace_back(t);
+                LOG << "Set random terminal " << terminals.back();
+            }
         }
         return terminals;
     }
-- 
2.43.0


From 5f442f078387d770ecbfd9e6f4fcab94501aac54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:22 +0000
Subject: [PATCH 50/52] fix: Karger-Stein runs on mutable graphs, which the
 command line tool uses

---
 lib/algorithms/global_mincut/ks_minimum_cut.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index a60a6bb..e93b2d6 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -48,6 +48,20 @@ class ks_minimum_cut : public minimum_cut {
 
     ~ks_minimum_cut() { }
 
+    EdgeWeight perform_minimum_cut(mutableGraphPtr mutable_G) {
+        if (!mutable_G) {
+            return -1;
+        }
+        graphAccessPtr G = mutable_G->to_graph_access();
+        EdgeWeight mincut = perform_minimum_cut(G);
+
+        for (NodeID n : mutable_G->nodes()) {
+            mutable_G->setNodeInCut(n, G->getNodeInCut(n));
+        }
+
+        return mincut;
+    }
+
     EdgeWeight perform_minimum_cut(graphAccessPtr G) {
         if (!G) {
             return -1;
-- 
2.43.0


From deaa3808c6bb4aaaf64f4ed7f064c21637963065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:54 +0000
Subject: [PATCH 51/52] fix: contracting the last vertex does not look at a
 vertex that is gone

---
 lib/data_structure/mutable_graph.h | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index 8b287a6..318382d 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -506,9 +506,12 @@ class mutable_graph {
         contained_in_this.pop_back();
 
         // remap all reverse edges of vertex that was now moved to 'target'
-        for (EdgeID ed : edges_of(target)) {
-            RevEdge e = vertices[target][ed];
-            vertices[e.target][e.reverse_edge].target = target;
+        // (none was if 'target' was the last vertex)
+        if (target < vertices.size()) {
+            for (EdgeID ed : edges_of(target)) {
+                RevEdge e = vertices[target][ed];
+                vertices[e.target][e.reverse_edge].target = target;
+            }
         }
 
         return target;
@@ -556,9 +559,12 @@ class mutable_graph {
         contained_in_this.pop_back();
 
         // remap all reverse edges of vertex that was now moved to 'target'
-        for (EdgeID ed : edges_of(target)) {
-            RevEdge e = vertices[target][ed];
-            vertices[e.target][e.reverse_edge].target = target;
+        // (none was if 'target' was the last vertex)
+        if (target < vertices.size()) {
+            for (EdgeID ed : edges_of(target)) {
+                RevEdge e = vertices[target][ed];
+                vertices[e.target][e.reverse_edge].target = target;
+            }
         }
 
         return target;
@@ -645,9 +651,12 @@ class mutable_graph {
         contained_in_this.pop_back();
 
         // remap all reverse edges of vertex that was now moved to 'target'
-        for (EdgeID ed : edges_of(target)) {
-            RevEdge e = vertices[target][ed];
-            vertices[e.target][e.reverse_edge].target = target;
+        // (none was if 'target' was the last vertex)
+        if (target < vertices.size()) {
+            for (EdgeID ed : edges_of(target)) {
+                RevEdge e = vertices[target][ed];
+                vertices[e.target][e.reverse_edge].target = target;
+            }
         }
 
         // delete edge of 'node' to 'target', remap reverse
-- 
2.43.0


From 1b3dc439f7884a5d6da35a6b334cb3e2f5b2fab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:17 +0000
Subject: [PATCH 52/52] fix: a graph contracted to one vertex has no second
 largest block

---
 lib/parallel/coarsening/contract_graph.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/parallel/coarsening/contract_graph.h b/lib/parallel/coarsening/contract_graph.h
index f1a8f5a..c9bfc78 100644
--- a/lib/parallel/coarsening/contract_graph.h
+++ b/lib/parallel/coarsening/contract_graph.h
@@ -302,7 +302,8 @@ class contraction {
         NodeID block0 = 0;
         NodeID block1 = 0;
 
-        if (G->m() * 0.02 < G->n() * G->n() && G->n() > 100) {
+        if (G->m() * 0.02 < G->n() * G->n() && G->n() > 100
+            && num_nodes > 1) {
             std::vector<uint32_t> el(num_nodes);
             for (size_t i = 0; i < mapping.size(); ++i) {
                 ++el[mapping[i]];
-- 
2.43.0

