From 642b986865d8b1d9f14be8005574016c83427cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 01/65] fix: avoid integer overflow in 3D face balance of deep
 levels

---
 src/p4est_balance.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/p4est_balance.c b/src/p4est_balance.c
index 80d9776..23e2de6 100644
--- a/src/p4est_balance.c
+++ b/src/p4est_balance.c
@@ -212,7 +212,8 @@ p8est_balance_kernel_3d_face (p4est_qcoord_t dx, p4est_qcoord_t dy,
    * where there is at least one 1 bit and subtract one 1 bit: then if we
    * sum, the binary carry rule will give the correct result */
   bitwor = (dyz | dzx | dxy);
-  ret = SC_LOG2_32 (dyz + dzx + dxy - bitwor);
+  /* at the deepest levels this sum is too large for a 32-bit integer */
+  ret = SC_LOG2_64 ((int64_t) dyz + dzx + dxy - bitwor);
   /* we have to guard against the case when the leading position has one 1
    * bit. */
   ret = SC_MAX (maxbit, ret);
-- 
2.43.0


From 709f92feb0b55b105da5f0f6d1e7bb82c3289257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 02/65] fix: allow NULL seeds for a descendant in
 p4est_balance_seeds

---
 src/p4est_balance.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/p4est_balance.c b/src/p4est_balance.c
index 23e2de6..b05b100 100644
--- a/src/p4est_balance.c
+++ b/src/p4est_balance.c
@@ -995,9 +995,11 @@ p4est_balance_seeds (p4est_quadrant_t * q, p4est_quadrant_t * p,
   switch (type) {
   case 0:
     /* q is inside p, so it is its own seed */
-    sc_array_resize (seeds, seeds->elem_count + 1);
-    s = p4est_quadrant_array_index (seeds, seeds->elem_count - 1);
-    *s = *q;
+    if (seeds != NULL) {
+      sc_array_resize (seeds, seeds->elem_count + 1);
+      s = p4est_quadrant_array_index (seeds, seeds->elem_count - 1);
+      *s = *q;
+    }
     return 1;
   case 1:
     for (i = 0; i < P4EST_DIM; i++) {
-- 
2.43.0


From f4a0d2d2cf044b99377eacf2dc48dd9bc6a9cdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 03/65] fix: balance and ghost across trees in contact through
 edges or corners only

---
 src/p4est.c               | 14 ++++++++++++++
 src/p4est_communication.c | 25 +++++++++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/src/p4est.c b/src/p4est.c
index bd0a058..e1f6491 100644
--- a/src/p4est.c
+++ b/src/p4est.c
@@ -1448,6 +1448,20 @@ p4est_balance_ext (p4est_t * p4est, p4est_connect_type_t btype,
     for (face = 0; face < P4EST_FACES; ++face) {
       any_face = any_face || tree_contact[face];
     }
+    /* trees may also be in contact through edges or corners only */
+#ifdef P4_TO_P8
+    if (conn->tree_to_edge != NULL) {
+      for (edge = 0; edge < P8EST_EDGES; ++edge) {
+        any_face = any_face || conn->tree_to_edge[P8EST_EDGES * nt + edge] >= 0;
+      }
+    }
+#endif
+    if (conn->tree_to_corner != NULL) {
+      for (corner = 0; corner < P4EST_CHILDREN; ++corner) {
+        any_face = any_face ||
+          conn->tree_to_corner[P4EST_CHILDREN * nt + corner] >= 0;
+      }
+    }
     if (any_face) {
       tree_flags[nt] |= any_face_flag;
     }
diff --git a/src/p4est_communication.c b/src/p4est_communication.c
index b4aa05d..2f3fc6a 100644
--- a/src/p4est_communication.c
+++ b/src/p4est_communication.c
@@ -861,7 +861,12 @@ p4est_comm_neighborhood_owned (p4est_t * p4est, p4est_locidx_t which_tree,
 {
   const p4est_qcoord_t qh = P4EST_QUADRANT_LEN (q->level);
   const int           rank = p4est->mpirank;
+  p4est_connectivity_t *conn = p4est->connectivity;
   int                 n0_proc, n1_proc;
+  int                 corner;
+#ifdef P4_TO_P8
+  int                 edge;
+#endif
   p4est_quadrant_t    n0, n1;
 
   if (full_tree[0] && full_tree[1]) {
@@ -875,6 +880,26 @@ p4est_comm_neighborhood_owned (p4est_t * p4est, p4est_locidx_t which_tree,
           (tree_contact[5] && q->z == P4EST_ROOT_LEN - qh) ||
 #endif
           0)) {
+      /* trees may also be in contact through edges or corners only */
+#ifdef P4_TO_P8
+      if (conn->tree_to_edge != NULL) {
+        for (edge = 0; edge < P8EST_EDGES; ++edge) {
+          if (conn->tree_to_edge[P8EST_EDGES * which_tree + edge] >= 0 &&
+              p8est_quadrant_touches_edge (q, edge, 1)) {
+            return 0;
+          }
+        }
+      }
+#endif
+      if (conn->tree_to_corner != NULL) {
+        for (corner = 0; corner < P4EST_CHILDREN; ++corner) {
+          if (conn->tree_to_corner[P4EST_CHILDREN * which_tree +
+                                   corner] >= 0 &&
+              p4est_quadrant_touches_corner (q, corner, 1)) {
+            return 0;
+          }
+        }
+      }
       return 1;
     }
   }
-- 
2.43.0


From 19a7080aba0f9cf2ce98bd32a70b73aae7eb6004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 04/65] fix: complete the 2:1 edge balance between octants
 across tree edges

---
 src/p4est_algorithms.c |  2 +-
 src/p4est_balance.c    | 57 +++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 57 insertions(+), 2 deletions(-)

diff --git a/src/p4est_algorithms.c b/src/p4est_algorithms.c
index 5a33c9c..f6015f2 100644
--- a/src/p4est_algorithms.c
+++ b/src/p4est_algorithms.c
@@ -1117,7 +1117,7 @@ p4est_tree_compute_overlap (p4est_t * p4est, sc_array_t * in,
             if (p4est_quadrant_is_ancestor (inq, &tempq)) {
               continue;
             }
-            split = p8est_balance_seeds_edge (tq, inq, e, balance, seeds);
+            split = p4est_balance_seeds (tq, inq, balance, seeds);
           }
 #endif
           else {
diff --git a/src/p4est_balance.c b/src/p4est_balance.c
index b05b100..d3da5ed 100644
--- a/src/p4est_balance.c
+++ b/src/p4est_balance.c
@@ -924,6 +924,57 @@ p8est_balance_seeds_edge (p4est_quadrant_t * q,
 }
 #endif
 
+#ifdef P4_TO_P8
+
+/* With edge balance, an octant across an edge of \a p may split the next
+ * larger octants along that edge, whose corner is closest to \a q, although
+ * the one in between is consistent.  Add these octants to the seeds. */
+static void
+p8est_balance_seeds_along_edge (p4est_quadrant_t * q, p4est_quadrant_t * p,
+                                int edge, sc_array_t * seeds)
+{
+  const int           ibalance = 1;
+  int                 i, child;
+  int                 consistent;
+  p4est_quadrant_t    a = *p;
+  p4est_quadrant_t    temp;
+  p4est_qcoord_t      alen;
+
+  p8est_bal_edge_con_internal (q, &a, edge, ibalance, &consistent, NULL);
+  if (consistent || a.level - 2 <= p->level) {
+    return;
+  }
+  p4est_quadrant_ancestor (&a, a.level - 2, &temp);
+  a = temp;
+  alen = P4EST_QUADRANT_LEN (a.level);
+  for (i = -1; i <= 1; i += 2) {
+    temp = a;
+    switch (edge / 4) {
+    case 0:
+      temp.x += i * alen;
+      break;
+    case 1:
+      temp.y += i * alen;
+      break;
+    case 2:
+      temp.z += i * alen;
+      break;
+    default:
+      SC_ABORT_NOT_REACHED ();
+    }
+    if (!p4est_quadrant_is_ancestor (p, &temp)) {
+      continue;
+    }
+    child = p8est_edge_corners[edge][(1 - i) / 2];
+    p4est_bal_corner_con_internal (q, &temp, child, ibalance, &consistent);
+    if (!consistent) {
+      *p4est_quadrant_array_push (seeds) = temp;
+    }
+  }
+}
+
+#endif
+
 int
 p4est_balance_seeds (p4est_quadrant_t * q, p4est_quadrant_t * p,
                      p4est_connect_type_t balance, sc_array_t * seeds)
@@ -1030,7 +1081,11 @@ p4est_balance_seeds (p4est_quadrant_t * q, p4est_quadrant_t * p,
       }
     }
     e |= c;
-    return p8est_balance_seeds_edge (q, p, e, balance, seeds);
+    i = p8est_balance_seeds_edge (q, p, e, balance, seeds);
+    if (i && balance == P8EST_CONNECT_EDGE && seeds != NULL) {
+      p8est_balance_seeds_along_edge (q, p, e, seeds);
+    }
+    return i;
 #endif
   default:
     SC_ABORT_NOT_REACHED ();
-- 
2.43.0


From 7f9c088c9589caaa722dbe68d80209b87d96225c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:03 +0000
Subject: [PATCH 05/65] fix: let quadrant_is_next reject a finer quadrant that
 does not start at the end

---
 src/p4est_bits.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/p4est_bits.c b/src/p4est_bits.c
index aa53a5c..0d7060b 100644
--- a/src/p4est_bits.c
+++ b/src/p4est_bits.c
@@ -1013,6 +1013,15 @@ p4est_quadrant_is_next (const p4est_quadrant_t * q,
     minlevel = (int) r->level;
   }
   else {
+    /* check if r is the first child down from the common level */
+    mask = P4EST_QUADRANT_LEN (q->level) - P4EST_QUADRANT_LEN (r->level);
+    if ((r->x & mask) != 0 || (r->y & mask) != 0 ||
+#ifdef P4_TO_P8
+        (r->z & mask) != 0 ||
+#endif
+        0) {
+      return 0;
+    }
     minlevel = (int) q->level;
   }
   p4est_quadrant_linear_id_ext128 (q, minlevel, &i1);
@@ -1043,6 +1052,12 @@ p4est_quadrant_is_next_D (const p4est_quadrant_t * q,
     }
     p4est_quadrant_parent (&a, &a);
   }
+  while (b.level > a.level) {
+    if (p4est_quadrant_child_id (&b) != 0) {
+      return 0;
+    }
+    p4est_quadrant_parent (&b, &b);
+  }
   p4est_quadrant_linear_id_ext128 (&a, (int) a.level, &i1);
   p4est_quadrant_linear_id_ext128 (&b, (int) a.level, &i2);
 
-- 
2.43.0


From 29a5c71a9bc164559eb12716a3c34371bcc3c03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 06/65] fix: let quadrant_is_inside_tree reject a quadrant that
 extends past the last leaf of the tree

---
 src/p4est_bits.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/p4est_bits.c b/src/p4est_bits.c
index 0d7060b..91d951f 100644
--- a/src/p4est_bits.c
+++ b/src/p4est_bits.c
@@ -1111,12 +1111,8 @@ p4est_quadrant_is_inside_tree (p4est_tree_t * tree,
     return 0;
 
   /* check if the end of q is not after the last tree quadrant */
-  /* tree->last_desc is an upper right corner quadrant by construction.
-   * It is ok to compare with q. */
-#if 0
   p4est_quadrant_last_descendant (q, &desc, P4EST_QMAXLEVEL);
-#endif
-  if (p4est_quadrant_compare (&tree->last_desc, q) < 0)
+  if (p4est_quadrant_compare (&tree->last_desc, &desc) < 0)
     return 0;
 
   return 1;
-- 
2.43.0


From 862d8e579dfcb9ac7e1b4872797ae4a239ff80e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:29 +0000
Subject: [PATCH 07/65] fix: detect unbalanced owners behind rotated tree faces
 in p4est_is_balanced, which could deadlock

---
 src/p4est_ghost.c | 58 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/src/p4est_ghost.c b/src/p4est_ghost.c
index 4869eb1..b778c6d 100644
--- a/src/p4est_ghost.c
+++ b/src/p4est_ghost.c
@@ -118,9 +118,17 @@ static p4est_ghost_t *p4est_ghost_new_check (p4est_t * p4est,
                                              p4est_connect_type_t btype,
                                              p4est_ghost_tolerance_t tol);
 
-int
-p4est_quadrant_find_owner (p4est_t * p4est, p4est_topidx_t treeid,
-                           int face, const p4est_quadrant_t * q)
+/** Find the owner of the first or last descendant of a quadrant.
+ * Since a face transformation does not preserve the order of descendants,
+ * the last descendant is determined relative to the tree that contains it.
+ * \param [in] last   Boolean to search for the last instead of the first
+ *                    descendant.  Other parameters and result are identical
+ *                    to \ref p4est_quadrant_find_owner.
+ */
+static int
+p4est_quadrant_find_owner_desc (p4est_t * p4est, p4est_topidx_t treeid,
+                                int face, const p4est_quadrant_t * q,
+                                int last)
 {
   const int           rank = p4est->mpirank;
   p4est_connectivity_t *conn = p4est->connectivity;
@@ -129,14 +137,19 @@ p4est_quadrant_find_owner (p4est_t * p4est, p4est_topidx_t treeid,
 #endif
   int                 ftransform[P4EST_FTRANSFORM];
   p4est_topidx_t      ntreeid;
-  p4est_quadrant_t    nq;
+  p4est_quadrant_t    nq, desc;
+
+  P4EST_QUADRANT_INIT (&nq);
+  P4EST_QUADRANT_INIT (&desc);
 
   if (p4est_quadrant_is_inside_root (q)) {
+    if (last) {
+      p4est_quadrant_last_descendant (q, &desc, P4EST_QMAXLEVEL);
+      q = &desc;
+    }
     return p4est_comm_find_owner (p4est, treeid, q, rank);
   }
 
-  P4EST_QUADRANT_INIT (&nq);
-
   /* We are outside of the unit tree */
   if (face != -1) {
     P4EST_ASSERT (face >= 0 && face < P4EST_FACES);
@@ -191,10 +204,21 @@ p4est_quadrant_find_owner (p4est_t * p4est, p4est_topidx_t treeid,
   P4EST_EXECUTE_ASSERT_TOPIDX
     (p4est_find_face_transform (conn, treeid, face, ftransform), ntreeid);
   p4est_quadrant_transform_face (q, &nq, ftransform);
+  if (last) {
+    p4est_quadrant_last_descendant (&nq, &desc, P4EST_QMAXLEVEL);
+    p4est_quadrant_copy (&desc, &nq);
+  }
 
   return p4est_comm_find_owner (p4est, ntreeid, &nq, rank);
 }
 
+int
+p4est_quadrant_find_owner (p4est_t * p4est, p4est_topidx_t treeid,
+                           int face, const p4est_quadrant_t * q)
+{
+  return p4est_quadrant_find_owner_desc (p4est, treeid, face, q, 0);
+}
+
 #ifdef P4EST_ENABLE_MPI
 
 /** Gets the procids of the owners of \a q.
@@ -1452,7 +1476,7 @@ p4est_ghost_new_check (p4est_t * p4est, p4est_connect_type_t btype,
   p4est_locidx_t     *send_counts, *recv_counts;
   p4est_tree_t       *tree;
   p4est_quadrant_t   *q;
-  p4est_quadrant_t    n[P4EST_HALF], nur[P4EST_HALF];
+  p4est_quadrant_t    n[P4EST_HALF];
   sc_array_t          send_bufs;
   sc_array_t          procs[P4EST_DIM - 1];
   sc_array_t         *buf, *quadrants;
@@ -1522,7 +1546,6 @@ p4est_ghost_new_check (p4est_t * p4est, p4est_connect_type_t btype,
 
   for (i = 0; i < P4EST_HALF; ++i) {
     P4EST_QUADRANT_INIT (&n[i]);
-    P4EST_QUADRANT_INIT (&nur[i]);
   }
 
   failed = 0;
@@ -1576,7 +1599,7 @@ p4est_ghost_new_check (p4est_t * p4est, p4est_connect_type_t btype,
             ncount = 1;
           }
           else {
-            p4est_quadrant_half_face_neighbors (q, face, n, nur);
+            p4est_quadrant_half_face_neighbors (q, face, n, NULL);
             ncheck = ncount = P4EST_HALF;
           }
 
@@ -1587,8 +1610,8 @@ p4est_ghost_new_check (p4est_t * p4est, p4est_connect_type_t btype,
               /* Note that we will always check this
                * because it prevents deadlocks
                */
-              n0ur_proc = p4est_quadrant_find_owner (p4est, nt, face,
-                                                     &nur[i]);
+              n0ur_proc = p4est_quadrant_find_owner_desc (p4est, nt, face,
+                                                          &n[i], 1);
               if (n0_proc != n0ur_proc) {
                 P4EST_NOTICE ("Small face owner inconsistency\n");
                 failed = 1;
@@ -1642,7 +1665,7 @@ p4est_ghost_new_check (p4est_t * p4est, p4est_connect_type_t btype,
             maxed = 1;
           }
           else {
-            p8est_quadrant_get_half_edge_neighbors (q, edge, n, nur);
+            p8est_quadrant_get_half_edge_neighbors (q, edge, n, NULL);
             maxed = 0;
           }
 
@@ -1697,8 +1720,10 @@ p4est_ghost_new_check (p4est_t * p4est, p4est_connect_type_t btype,
               p4est_quadrant_find_owner (p4est, nt, -1, &n[0]);
             if (!maxed) {
               n1_proc = p4est_quadrant_find_owner (p4est, nt, -1, &n[1]);
-              n0ur_proc = p4est_quadrant_find_owner (p4est, nt, -1, &nur[0]);
-              n1ur_proc = p4est_quadrant_find_owner (p4est, nt, -1, &nur[1]);
+              n0ur_proc =
+                p4est_quadrant_find_owner_desc (p4est, nt, -1, &n[0], 1);
+              n1ur_proc =
+                p4est_quadrant_find_owner_desc (p4est, nt, -1, &n[1], 1);
 
               /* Note that we will always check this
                * because it prevents deadlocks
@@ -1813,7 +1838,7 @@ p4est_ghost_new_check (p4est_t * p4est, p4est_connect_type_t btype,
           }
           else {
             p4est_quadrant_get_half_corner_neighbor (q, corner, &n[0],
-                                                     &nur[0]);
+                                                     NULL);
             maxed = 0;
           }
 
@@ -1871,7 +1896,8 @@ p4est_ghost_new_check (p4est_t * p4est, p4est_connect_type_t btype,
              */
             n0_proc = p4est_quadrant_find_owner (p4est, nt, -1, &n[0]);
             if (!maxed) {
-              n0ur_proc = p4est_quadrant_find_owner (p4est, nt, -1, &nur[0]);
+              n0ur_proc =
+                p4est_quadrant_find_owner_desc (p4est, nt, -1, &n[0], 1);
 
               /* Note that we will always check this
                * because it prevents deadlocks
-- 
2.43.0


From fa3c1cb3e8cfd6202c732754bbff678ebd967fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:59 +0000
Subject: [PATCH 08/65] fix: declare p8est_ghost_contains under the name it is
 defined

---
 src/p8est_ghost.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/p8est_ghost.h b/src/p8est_ghost.h
index 3b23194..877fc07 100644
--- a/src/p8est_ghost.h
+++ b/src/p8est_ghost.h
@@ -169,10 +169,10 @@ ssize_t             p8est_ghost_bsearch (p8est_ghost_t * ghost,
  * \param [in] q                Valid quadrant's ancestor is searched.
  * \return                      Offset in the ghost layer, or -1 if not found.
  */
-ssize_t             p8est_ghost_tree_contains (p8est_ghost_t * ghost,
-                                               int which_proc,
-                                               p4est_topidx_t which_tree,
-                                               const p8est_quadrant_t * q);
+ssize_t             p8est_ghost_contains (p8est_ghost_t * ghost,
+                                          int which_proc,
+                                          p4est_topidx_t which_tree,
+                                          const p8est_quadrant_t * q);
 
 /** Checks if quadrant exists in the local forest or the ghost layer.
  *
-- 
2.43.0


From 2e533dff4b5e1410c17fd947c15fcd2dea910e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:05 +0000
Subject: [PATCH 09/65] fix: number the edges around a tree corner also next to
 boundary faces in p8est_iterate

---
 src/p4est_iterate.c | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/p4est_iterate.c b/src/p4est_iterate.c
index 412cc66..2b806a0 100644
--- a/src/p4est_iterate.c
+++ b/src/p4est_iterate.c
@@ -799,27 +799,26 @@ p4est_iter_init_corner (p4est_iter_corner_args_t * args,
           o = nf / P4EST_FACES;
 
           nf %= P4EST_FACES;
-          if (nnt == nt && nf == f) {
-            faces_count++;
-            continue;
-          }
-
+          /* on a boundary face there are no sides to match, but the edge of
+           * the same index may still be shared and is examined below */
+          if (nnt != nt || nf != f) {
 #ifndef P4_TO_P8
-          nnc = p4est_face_corners[nf][(o == 0) ? c2 : (1 - c2)];
+            nnc = p4est_face_corners[nf][(o == 0) ? c2 : (1 - c2)];
 #else
-          ref = p8est_face_permutation_refs[f][nf];
-          set = p8est_face_permutation_sets[ref][o];
-          nc2 = p8est_face_permutations[set][c2];
-          nnc = p8est_face_corners[nf][nc2];
+            ref = p8est_face_permutation_refs[f][nf];
+            set = p8est_face_permutation_sets[ref][o];
+            nc2 = p8est_face_permutations[set][c2];
+            nnc = p8est_face_corners[nf][nc2];
 #endif
 
-          for (k = 0; k < count; k++) {
-            if (k == i) {
-              continue;
-            }
-            cside2 = p4est_iter_cside_array_index_int (&(info->sides), k);
-            if (cside2->treeid == nnt && (int) cside2->corner == nnc) {
-              cside2->faces[nf / 2] = faces_count;
+            for (k = 0; k < count; k++) {
+              if (k == i) {
+                continue;
+              }
+              cside2 = p4est_iter_cside_array_index_int (&(info->sides), k);
+              if (cside2->treeid == nnt && (int) cside2->corner == nnc) {
+                cside2->faces[nf / 2] = faces_count;
+              }
             }
           }
           faces_count++;
-- 
2.43.0


From b1dcd4159589495ae72acb0575abf908cdd27c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:11 +0000
Subject: [PATCH 10/65] fix: p4est_mesh_new aborted in debug mode where all
 other leaves at an inter-tree corner are corner neighbors

---
 src/p4est_mesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p4est_mesh.c b/src/p4est_mesh.c
index 70961a6..c5b2791 100644
--- a/src/p4est_mesh.c
+++ b/src/p4est_mesh.c
@@ -426,7 +426,7 @@ mesh_corner_process_inter_tree_corners (p4est_iter_corner_info_t * info,
   }
 
   /* we have excluded between 0 and all quadrants. */
-  P4EST_ASSERT (0 <= goodones && goodones < n_adjacent_quads);
+  P4EST_ASSERT (0 <= goodones && goodones <= n_adjacent_quads);
 
   if (goodones > 0) {
     /* Allocate and fill corner information in the mesh structure */
-- 
2.43.0


From 07d04c594481e49a90464708232b0ce8aa6c7d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:53 +0000
Subject: [PATCH 11/65] fix: find_range_boundaries of a range that is a single
 smallest quadrant

---
 src/p4est_search.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/p4est_search.c b/src/p4est_search.c
index 8e07b99..6c7c4cf 100644
--- a/src/p4est_search.c
+++ b/src/p4est_search.c
@@ -369,6 +369,11 @@ p4est_range_boundaries (p4est_quadrant_t * lq, p4est_quadrant_t * uq,
   if (mask == 0) {
     return 0;
   }
+  if (level > P4EST_QMAXLEVEL) {
+    /* the range is one smallest quadrant that touches all of the mask */
+    P4EST_ASSERT (p4est_quadrant_is_equal (lq, uq));
+    return mask;
+  }
   if (level == alevel + 1) {
     lcid = p4est_quadrant_ancestor_id (lq, level);
     ucid = p4est_quadrant_ancestor_id (uq, level);
-- 
2.43.0


From b81dd3fcc8321582deb99782d0e5c5ea73db949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 12/65] fix: p4est_connectivity_complete resets faces without a
 vertex partner

---
 src/p4est_connectivity.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index b7646b6..a610284 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -3755,6 +3755,13 @@ p4est_connectivity_complete (p4est_connectivity_t * conn)
   P4EST_ASSERT (p4est_connectivity_is_valid (conn));
 
   /* prepare data structures and remove previous connectivity information */
+  for (treeid = 0; treeid < conn->num_trees; ++treeid) {
+    for (face = 0; face < P4EST_FACES; ++face) {
+      tt = P4EST_FACES * treeid + face;
+      conn->tree_to_tree[tt] = treeid;
+      conn->tree_to_face[tt] = (int8_t) face;
+    }
+  }
   face_ha = sc_hash_array_new (sizeof (p4est_conn_face_info_t),
                                p4est_conn_face_hash, p4est_conn_face_equal,
                                NULL);
-- 
2.43.0


From 9e58f19975990cf2a1ddd026acbe4266b13df4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 13/65] fix: p8est_connectivity_join_edges considers the stored
 edge flips

---
 src/p4est_connectivity.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index a610284..e86ba43 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -4860,6 +4860,27 @@ p8est_connectivity_join_edges (p8est_connectivity_t * conn,
     e1 = swap;
   }
 
+  /* the orientation between the two groups of edges is relative to the flips
+   * that are stored for edge_left and edge_right within their groups */
+  for (it = conn->ett_offset[e0]; it < conn->ett_offset[e0 + 1]; it++) {
+    if ((conn->edge_to_tree[it] == tree_left &&
+         conn->edge_to_edge[it] == edge_left + P8EST_EDGES) ||
+        (conn->edge_to_tree[it] == tree_right &&
+         conn->edge_to_edge[it] == edge_right + P8EST_EDGES)) {
+      orientation = !orientation;
+      break;
+    }
+  }
+  for (it = conn->ett_offset[e1]; it < conn->ett_offset[e1 + 1]; it++) {
+    if ((conn->edge_to_tree[it] == tree_left &&
+         conn->edge_to_edge[it] == edge_left + P8EST_EDGES) ||
+        (conn->edge_to_tree[it] == tree_right &&
+         conn->edge_to_edge[it] == edge_right + P8EST_EDGES)) {
+      orientation = !orientation;
+      break;
+    }
+  }
+
   /* remove all reference to e1 */
   startt = conn->ett_offset[e1];
   endt = conn->ett_offset[e1 + 1];
-- 
2.43.0


From 7dccec1004c246b60dedb55eec9e67b6b0a2400a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 14/65] fix: p4est_connectivity_permute works without vertices

---
 src/p4est_connectivity.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index e86ba43..1b827da 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -4220,9 +4220,11 @@ p4est_connectivity_permute (p4est_connectivity_t * conn, sc_array_t * inperm,
   /* now we reorder the various tables via in-place permutation */
 
   /* tree_to_vertex */
-  sc_array_init_data (&array_view, conn->tree_to_vertex,
-                      P4EST_CHILDREN * sizeof (p4est_topidx_t), ntrees);
-  sc_array_permute (&array_view, permarray, 1);
+  if (conn->tree_to_vertex != NULL) {
+    sc_array_init_data (&array_view, conn->tree_to_vertex,
+                        P4EST_CHILDREN * sizeof (p4est_topidx_t), ntrees);
+    sc_array_permute (&array_view, permarray, 1);
+  }
 
   /* tree_to_tree */
   sc_array_init_data (&array_view, conn->tree_to_tree,
-- 
2.43.0


From 986b0a8f6adebc4644add2321b7c9da21d514d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 15/65] fix: p4est_connectivity_is_valid does not follow tables
 it has not checked

---
 src/p4est_connectivity.c | 15 ---------------
 1 file changed, 15 deletions(-)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index 1b827da..6fd6267 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -900,8 +900,6 @@ p4est_connectivity_is_valid (p4est_connectivity_t * conn)
   const p4est_topidx_t *ett = conn->edge_to_tree;
   const int8_t       *ete = conn->edge_to_edge;
   const p4est_topidx_t num_ett = eoff[num_edges];
-  p8est_edge_info_t   ei;
-  sc_array_t         *eta = &ei.edge_transforms;
 #endif
   const p4est_topidx_t num_corners = conn->num_corners;
   const p4est_topidx_t *ttc = conn->tree_to_corner;
@@ -909,14 +907,8 @@ p4est_connectivity_is_valid (p4est_connectivity_t * conn)
   const p4est_topidx_t *ctt = conn->corner_to_tree;
   const int8_t       *ctc = conn->corner_to_corner;
   const p4est_topidx_t num_ctt = coff[num_corners];
-  p4est_corner_info_t ci;
-  sc_array_t         *cta = &ci.corner_transforms;
 
   good = 0;
-#ifdef P4_TO_P8
-  sc_array_init (eta, sizeof (p8est_edge_transform_t));
-#endif
-  sc_array_init (cta, sizeof (p4est_corner_transform_t));
 
   if (num_vertices == 0 && (conn->vertices != NULL || ttv != NULL)) {
     P4EST_NOTICE ("Zero vertices still with arrays\n");
@@ -1019,7 +1011,6 @@ p4est_connectivity_is_valid (p4est_connectivity_t * conn)
     }
     if (num_edges > 0) {
       for (edge = 0; edge < P8EST_EDGES; ++edge) {
-        p8est_find_edge_transform (conn, tree, edge, &ei);
         aedge = tte[tree * P8EST_EDGES + edge];
         if (aedge < -1 || aedge >= num_edges) {
           P4EST_NOTICEF ("Tree to edge out of range %lld %d\n",
@@ -1082,7 +1073,6 @@ p4est_connectivity_is_valid (p4est_connectivity_t * conn)
     }
     if (num_corners > 0) {
       for (corner = 0; corner < P4EST_CHILDREN; ++corner) {
-        p4est_find_corner_transform (conn, tree, corner, &ci);
         acorner = ttc[tree * P4EST_CHILDREN + corner];
         if (acorner < -1 || acorner >= num_corners) {
           P4EST_NOTICEF ("Tree to corner out of range %lld %d\n",
@@ -1136,11 +1126,6 @@ p4est_connectivity_is_valid (p4est_connectivity_t * conn)
   good = 1;
 
 failure:
-#ifdef P4_TO_P8
-  sc_array_reset (eta);
-#endif
-  sc_array_reset (cta);
-
   return good;
 }
 
-- 
2.43.0


From 5d7ff14a652774513b58c85dc82fa1b61dec218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 16/65] fix: p4est_connectivity_is_equivalent frees its arrays
 on inequality

---
 src/p4est_connectivity.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index 6fd6267..9da181d 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -5033,6 +5033,7 @@ p4est_connectivity_is_equivalent (p4est_connectivity_t * conn1,
 {
   const size_t        topsize = sizeof (p4est_topidx_t);
   const size_t        int8size = sizeof (int8_t);
+  int                 equivalent;
   size_t              count;
   p4est_topidx_t      ntrees, t;
 
@@ -5058,6 +5059,8 @@ p4est_connectivity_is_equivalent (p4est_connectivity_t * conn1,
     return 0;
   }
 
+  equivalent = 1;
+
   /* test equivalence of edges and corners only through the transforms: the
    * numbering of the edges and corners is not relevant */
 
@@ -5075,13 +5078,15 @@ p4est_connectivity_is_equivalent (p4est_connectivity_t * conn1,
         p8est_find_edge_transform (conn1, t, e, &e1);
         p8est_find_edge_transform (conn2, t, e, &e2);
         if (e1.edge_transforms.elem_count != e2.edge_transforms.elem_count) {
-          return 0;
+          equivalent = 0;
+          goto edge_done;
         }
         /* sort so memory comparison is correct */
         sc_array_sort (&e1.edge_transforms, p8est_edge_compare);
         sc_array_sort (&e2.edge_transforms, p8est_edge_compare);
         if (e1.edge_transforms.elem_count != e2.edge_transforms.elem_count) {
-          return 0;
+          equivalent = 0;
+          goto edge_done;
         }
         for (zz = 0; zz < e1.edge_transforms.elem_count; zz++) {
           p8est_edge_transform_t *t1 = p8est_edge_array_index
@@ -5095,11 +5100,13 @@ p4est_connectivity_is_equivalent (p4est_connectivity_t * conn1,
               t1->naxis[2] != t2->naxis[2] ||
               t1->nedge != t2->nedge ||
               t1->nflip != t2->nflip || t1->ntree != t2->ntree) {
-            return 0;
+            equivalent = 0;
+            goto edge_done;
           }
         }
       }
     }
+  edge_done:
     sc_array_reset (&e1.edge_transforms);
     sc_array_reset (&e2.edge_transforms);
   }
@@ -5118,7 +5125,8 @@ p4est_connectivity_is_equivalent (p4est_connectivity_t * conn1,
         p4est_find_corner_transform (conn2, t, c, &c2);
         if (c1.corner_transforms.elem_count !=
             c2.corner_transforms.elem_count) {
-          return 0;
+          equivalent = 0;
+          goto corner_done;
         }
         /* sort so memory comparison is correct */
         sc_array_sort (&c1.corner_transforms, p4est_corner_compare);
@@ -5126,7 +5134,8 @@ p4est_connectivity_is_equivalent (p4est_connectivity_t * conn1,
 
         if (c1.corner_transforms.elem_count !=
             c2.corner_transforms.elem_count) {
-          return 0;
+          equivalent = 0;
+          goto corner_done;
         }
         for (zz = 0; zz < c1.corner_transforms.elem_count; zz++) {
           p4est_corner_transform_t *t1 = p4est_corner_array_index
@@ -5135,15 +5144,17 @@ p4est_connectivity_is_equivalent (p4est_connectivity_t * conn1,
             (&c2.corner_transforms, zz);
 
           if (t1->ncorner != t2->ncorner || t1->ntree != t2->ntree) {
-            return 0;
+            equivalent = 0;
+            goto corner_done;
           }
         }
       }
     }
+  corner_done:
     sc_array_reset (&c1.corner_transforms);
     sc_array_reset (&c2.corner_transforms);
   }
-  return 1;
+  return equivalent;
 }
 
 #ifndef P4_TO_P8
-- 
2.43.0


From 868896e604108404109701c58a4999e2373cfb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:59 +0000
Subject: [PATCH 17/65] fix: p4est_connectivity_new_drop orients two faces as
 its vertices do

---
 src/p4est_connectivity.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index 9da181d..c37043a 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -1905,10 +1905,10 @@ p4est_connectivity_new_drop (void)
   };
   const int8_t        tree_to_face[5 * 4] = {
     0, 0, 2, 2,
-    1, 2, 2, 3,
-    0, 1, 1, 1,
-    3, 3, 2, 3,
-    0, 1, 3, 0,
+    1, 6, 2, 3,
+    0, 1, 5, 1,
+    7, 3, 2, 3,
+    0, 1, 3, 4,
   };
 
   const p4est_topidx_t tree_to_corner[5 * 4] = {
-- 
2.43.0


From 0a0d98cc1cc4c5e11de29dc8c28c3193e77354d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:59 +0000
Subject: [PATCH 18/65] fix: p8est_connectivity_new_twotrees rotates vertices
 to match the orientation

---
 src/p4est_connectivity.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index c37043a..ae854f8 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -2558,7 +2558,7 @@ p4est_connectivity_new_twotrees (int l_face, int r_face, int orientation)
 
   /* no tree connection via edges and corners */
 #ifdef P4_TO_P8
-  int                 op;
+  int                 op, lv, rv;
   const p4est_topidx_t num_edges = 0;
   const p4est_topidx_t num_ett = 0;
 #endif /* P4_TO_P8 */
@@ -2682,12 +2682,17 @@ p4est_connectivity_new_twotrees (int l_face, int r_face, int orientation)
     op = 2;
   }
   else if (1 <= orientation && orientation <= 2) {
+    /* the first corner of the face with the lower number meets the corner
+       of the other face that is numbered by the orientation */
     if (l_face <= r_face) {
-      op = p8est_face_permutation_refs[l_face][r_face];
+      lv = leftTree[l_face][p8est_face_corners[l_face][0]];
+      rv = rightTree[r_face][p8est_face_corners[r_face][orientation]];
     }
     else {
-      op = p8est_face_permutation_refs[r_face][l_face];
+      lv = leftTree[l_face][p8est_face_corners[l_face][orientation]];
+      rv = rightTree[r_face][p8est_face_corners[r_face][0]];
     }
+    op = rotateClockWise[rv] == lv ? 0 : 1;
   }
   switch (op) {
   case 0:                      /* clockwise rotation */
-- 
2.43.0


From 2ef15673c0710e72c19a41ce3cea8cc1d34df47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 19/65] fix: reject vertex numbers out of range in ABAQUS files

---
 src/p4est_connectivity.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index ae854f8..072b57d 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -5305,7 +5305,7 @@ p4est_connectivity_read_inp_stream (FILE * stream,
           return 1;
         }
 
-        if (node > *num_vertices) {
+        if (node < 1 || node > *num_vertices) {
           P4EST_LERRORF
             ("Encountered vertex %lld that will not fit in vertices"
              " array of length %lld.  Are the vertices contiguously"
@@ -5353,8 +5353,15 @@ p4est_connectivity_read_inp_stream (FILE * stream,
           return 1;
         }
 
-        for (n = 0; n < P4EST_CHILDREN; ++n)
+        for (n = 0; n < P4EST_CHILDREN; ++n) {
+          if (v[n] < 1 || v[n] > *num_vertices) {
+            P4EST_LERRORF ("Encountered element vertex %lld out of range\n",
+                           v[n]);
+            P4EST_FREE (line);
+            return 1;
+          }
           tree_to_vertex[P4EST_CHILDREN * num_elements + n] = v[n] - 1;
+        }
       }
 
       ++num_elements;
-- 
2.43.0


From ab7ba60ac366c6dd123729850c386550714a2226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 20/65] fix: read an ABAQUS file whose last line has no newline

---
 src/p4est_connectivity.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index 072b57d..abc6900 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -5215,6 +5215,10 @@ p4est_connectivity_getline_upper (FILE * stream)
       P4EST_FREE (linep);
       return NULL;
     }
+    if (c == EOF) {
+      /* the last line is not terminated by a newline */
+      break;
+    }
     c = toupper (c);
 
     if (--len == 0) {
-- 
2.43.0


From c7dace2cf22ba724a70f40f359f8950297f7f9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 21/65] fix: p4est_connectivity_is_valid rejects class entries
 without classes

---
 src/p4est_connectivity.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index abc6900..ce0b4b4 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -920,6 +920,10 @@ p4est_connectivity_is_valid (p4est_connectivity_t * conn)
   }
 
 #ifdef P4_TO_P8
+  if (num_edges == 0 && num_ett != 0) {
+    P4EST_NOTICE ("Zero edges still with entries\n");
+    goto failure;
+  }
   for (nett = 0; nett < num_ett; ++nett) {
     if (ett[nett] < 0 || ett[nett] >= num_trees) {
       P4EST_NOTICEF ("Edge to tree %lld out of range\n", (long long) nett);
@@ -932,6 +936,10 @@ p4est_connectivity_is_valid (p4est_connectivity_t * conn)
   }
 #endif
 
+  if (num_corners == 0 && num_ctt != 0) {
+    P4EST_NOTICE ("Zero corners still with entries\n");
+    goto failure;
+  }
   for (nctt = 0; nctt < num_ctt; ++nctt) {
     if (ctt[nctt] < 0 || ctt[nctt] >= num_trees) {
       P4EST_NOTICEF ("Corner to tree %lld out of range\n", (long long) nctt);
-- 
2.43.0


From 4b7ea4aa0d128898195482e2b6feda83a5422e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:46 +0000
Subject: [PATCH 22/65] fix: do not assert that the nodes a hanging node
 depends on are different points

---
 src/p4est_nodes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/p4est_nodes.c b/src/p4est_nodes.c
index d0a4201..fa96ce0 100644
--- a/src/p4est_nodes.c
+++ b/src/p4est_nodes.c
@@ -1033,7 +1033,7 @@ p4est_nodes_new (p4est_t * p4est, p4est_ghost_t * ghost)
       memcpy (quad_indeps, quad_nodes, P4EST_CHILDREN * sizeof (*quad_nodes));
       for (k = 0; k < P4EST_CHILDREN; ++k) {
         if (quad_status[k] == 1) {
-          P4EST_ASSERT (qcid != k && quad_indeps[qcid] != quad_indeps[k]);
+          P4EST_ASSERT (qcid != k);
           P4EST_ASSERT (p4est_child_corner_faces[qcid][k] >= 0);
           p4est_quadrant_corner_node (q, k, &n);
           p4est_node_canonicalize (p4est, jt, &n, &c);
@@ -1087,7 +1087,7 @@ p4est_nodes_new (p4est_t * p4est, p4est_ghost_t * ghost)
         }
 #ifdef P4_TO_P8
         else if (quad_status[k] == 2) {
-          P4EST_ASSERT (qcid != k && quad_indeps[qcid] != quad_indeps[k]);
+          P4EST_ASSERT (qcid != k);
           P4EST_ASSERT (p8est_child_corner_edges[qcid][k] >= 0);
           p4est_quadrant_corner_node (q, k, &n);
           p4est_node_canonicalize (p4est, jt, &n, &c);
-- 
2.43.0


From c6bb4a839da99d5ddae8c83a3f99163face05eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 23/65] fix: p4est_load provides the requested data size when
 it does not load the data

---
 src/p4est.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/p4est.c b/src/p4est.c
index e1f6491..6fefc85 100644
--- a/src/p4est.c
+++ b/src/p4est.c
@@ -4001,6 +4001,11 @@ p4est_load_mpi (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
   P4EST_FREE (pertree);
   P4EST_FREE (gfq);
 
+  /* provide the requested data size if no data has been loaded */
+  if (!load_data && data_size > 0) {
+    p4est_reset_data (p4est, data_size, NULL, user_pointer);
+  }
+
   /* assert that we loaded a valid forest and return */
   SC_CHECK_ABORT (p4est_is_valid (p4est), "invalid forest");
 
@@ -4274,6 +4279,11 @@ p4est_source_ext (sc_io_source_t * src, sc_MPI_Comm mpicomm, size_t data_size,
   P4EST_FREE (pertree);
   P4EST_FREE (gfq);
 
+  /* provide the requested data size if no data has been loaded */
+  if (!load_data && data_size > 0) {
+    p4est_reset_data (p4est, data_size, NULL, user_pointer);
+  }
+
   /* assert that we loaded a valid forest and return */
   SC_CHECK_ABORT (p4est_is_valid (p4est), "invalid forest");
 
-- 
2.43.0


From 9c23adf90d7cb52de7aacf67e455ea182444f802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 24/65] fix: p4est_is_valid reports invalid quadrants, also
 those passed to p4est_inflate_null

---
 src/p4est_algorithms.c | 15 +++++++++++++++
 src/p4est_io.c         |  5 ++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/p4est_algorithms.c b/src/p4est_algorithms.c
index f6015f2..eb0c188 100644
--- a/src/p4est_algorithms.c
+++ b/src/p4est_algorithms.c
@@ -502,6 +502,7 @@ p4est_is_valid (p4est_t * p4est)
   const p4est_topidx_t last_tree = p4est->last_local_tree;
   int                 i, maxlevel;
   int                 failed;
+  size_t              zz;
   p4est_topidx_t      jt, next_tree;
   p4est_locidx_t      nquadrants, lquadrants, perlevel;
   p4est_qcoord_t      mh = P4EST_QUADRANT_LEN (P4EST_QMAXLEVEL);
@@ -552,6 +553,20 @@ p4est_is_valid (p4est_t * p4est)
     failed = 1;
     goto failtest;
   }
+
+  /* the remaining checks rely on every single quadrant being valid */
+  for (jt = 0; jt < (p4est_topidx_t) p4est->trees->elem_count; ++jt) {
+    tree = p4est_tree_array_index (p4est->trees, jt);
+    for (zz = 0; zz < tree->quadrants.elem_count; ++zz) {
+      q = p4est_quadrant_array_index (&tree->quadrants, zz);
+      if (!p4est_quadrant_is_valid (q)) {
+        P4EST_NOTICE ("p4est invalid quadrant\n");
+        failed = 1;
+        goto failtest;
+      }
+    }
+  }
+
   for (i = 0; i <= num_procs; ++i) {
     if (p4est->global_first_position[i].level != P4EST_QMAXLEVEL) {
       failed = 1;
diff --git a/src/p4est_io.c b/src/p4est_io.c
index d849b6d..6db876b 100644
--- a/src/p4est_io.c
+++ b/src/p4est_io.c
@@ -362,7 +362,10 @@ p4est_inflate_internal (sc_MPI_Comm mpicomm,
         q->level = ql = (int8_t) *qap++;
 /* *INDENT-ON* */
         P4EST_ASSERT (ql >= 0 && ql <= P4EST_QMAXLEVEL);
-        ++tree->quadrants_per_level[ql];
+        if (ql >= 0 && ql <= P4EST_QMAXLEVEL) {
+          /* invalid input is reported by \ref p4est_is_valid */
+          ++tree->quadrants_per_level[ql];
+        }
         tml = SC_MAX (tml, ql);
         p4est_quadrant_init_data (p4est, jt, q, NULL);
         if (data != NULL) {
-- 
2.43.0


From 453cb53162fc4ac24fd68d3bbc02935ef53a6692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 25/65] fix: p4est_is_valid reports local trees that are empty
 or not covered by their quadrants

---
 src/p4est_algorithms.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/p4est_algorithms.c b/src/p4est_algorithms.c
index eb0c188..cc257d4 100644
--- a/src/p4est_algorithms.c
+++ b/src/p4est_algorithms.c
@@ -709,6 +709,15 @@ p4est_is_valid (p4est_t * p4est)
         failed = 1;
         goto failtest;
       }
+      if (jt > p4est->first_local_tree && (s.x != 0 || s.y != 0 ||
+#ifdef P4_TO_P8
+                                           s.z != 0 ||
+#endif
+                                           0)) {
+        P4EST_NOTICE ("p4est invalid begin of tree\n");
+        failed = 1;
+        goto failtest;
+      }
       q =
         p4est_quadrant_array_index (&tree->quadrants,
                                     tree->quadrants.elem_count - 1);
@@ -718,6 +727,21 @@ p4est_is_valid (p4est_t * p4est)
         failed = 1;
         goto failtest;
       }
+      if (jt < p4est->last_local_tree && (s.x + mh != P4EST_ROOT_LEN ||
+                                          s.y + mh != P4EST_ROOT_LEN ||
+#ifdef P4_TO_P8
+                                          s.z + mh != P4EST_ROOT_LEN ||
+#endif
+                                          0)) {
+        P4EST_NOTICE ("p4est invalid end of tree\n");
+        failed = 1;
+        goto failtest;
+      }
+    }
+    else if (jt >= p4est->first_local_tree && jt <= p4est->last_local_tree) {
+      P4EST_NOTICE ("p4est invalid empty local tree\n");
+      failed = 1;
+      goto failtest;
     }
     else {
       P4EST_QUADRANT_INIT (&s);
-- 
2.43.0


From f4db1bc28054a7fded5758f8111d3374b044705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 26/65] fix: p4est_is_valid reports wrong counts of quadrants
 per level and per process

---
 src/p4est_algorithms.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/p4est_algorithms.c b/src/p4est_algorithms.c
index cc257d4..6b2748a 100644
--- a/src/p4est_algorithms.c
+++ b/src/p4est_algorithms.c
@@ -505,6 +505,7 @@ p4est_is_valid (p4est_t * p4est)
   size_t              zz;
   p4est_topidx_t      jt, next_tree;
   p4est_locidx_t      nquadrants, lquadrants, perlevel;
+  p4est_locidx_t      levelcount[P4EST_QMAXLEVEL + 1];
   p4est_qcoord_t      mh = P4EST_QUADRANT_LEN (P4EST_QMAXLEVEL);
   p4est_quadrant_t   *q;
   p4est_quadrant_t    mylow, nextlow, s;
@@ -755,9 +756,14 @@ p4est_is_valid (p4est_t * p4est)
 
     maxlevel = 0;
     nquadrants = 0;
+    memset (levelcount, 0, sizeof (levelcount));
+    for (zz = 0; zz < tree->quadrants.elem_count; ++zz) {
+      q = p4est_quadrant_array_index (&tree->quadrants, zz);
+      ++levelcount[q->level];
+    }
     for (i = 0; i <= P4EST_QMAXLEVEL; ++i) {
       perlevel = tree->quadrants_per_level[i];
-      if (perlevel < 0) {
+      if (perlevel != levelcount[i]) {
         failed = 1;
         break;
       }
@@ -795,6 +801,8 @@ p4est_is_valid (p4est_t * p4est)
   }
 
   if (p4est->global_first_quadrant[0] != 0 ||
+      p4est->global_first_quadrant[rank] + lquadrants !=
+      p4est->global_first_quadrant[rank + 1] ||
       p4est->global_first_quadrant[num_procs] !=
       p4est->global_num_quadrants) {
     P4EST_NOTICE ("p4est invalid global quadrant index\n");
-- 
2.43.0


From cc69e66144ab9aa08d0d289809e7cee830340ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:24 +0000
Subject: [PATCH 27/65] fix: p4est_search_reorder accepts a reduced set of
 local trees

---
 src/p4est_search.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/p4est_search.c b/src/p4est_search.c
index 6c7c4cf..4f4ff06 100644
--- a/src/p4est_search.c
+++ b/src/p4est_search.c
@@ -1065,8 +1065,15 @@ p4est_search_reorder (p4est_t * p4est, int skip_levels,
   rec->points = points;
   rec->skip = skip_levels;
 
+  /* the reorder callback may have reduced the set of trees */
+  if (root_indices != NULL) {
+    P4EST_ASSERT (root_indices->elem_count <= (size_t) num_local_trees);
+    num_local_trees = (p4est_topidx_t) root_indices->elem_count;
+  }
+
   /* go through tree recursions in proper order */
-  for (tt = p4est->first_local_tree; tt <= p4est->last_local_tree; ++tt) {
+  for (tt = p4est->first_local_tree;
+       tt < p4est->first_local_tree + num_local_trees; ++tt) {
     rec->which_tree = root_indices != NULL ? *(p4est_topidx_t *)
       sc_array_index (root_indices, tt - p4est->first_local_tree) +
       p4est->first_local_tree : tt;
-- 
2.43.0


From 3237a1ce5b3a2a03a95cce649760f6995bbe85ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 28/65] fix: p4est_comm_parallel_env_reduce_ext provides the
 rank map also when nothing is reduced

---
 src/p4est_communication.c | 16 ++++++++++++++++
 src/p6est_communication.c | 10 ++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/p4est_communication.c b/src/p4est_communication.c
index 2f3fc6a..0e5cb99 100644
--- a/src/p4est_communication.c
+++ b/src/p4est_communication.c
@@ -140,6 +140,20 @@ p4est_comm_parallel_env_reduce (p4est_t ** p4est_supercomm)
                                              sc_MPI_GROUP_NULL, 0, NULL);
 }
 
+/** Provide the rank map for a communicator that is not reduced. */
+static void
+p4est_comm_identity_ranks (int mpisize, int **ranks_subcomm)
+{
+  int                 p;
+
+  if (ranks_subcomm != NULL) {
+    *ranks_subcomm = P4EST_ALLOC (int, mpisize);
+    for (p = 0; p < mpisize; p++) {
+      (*ranks_subcomm)[p] = p;
+    }
+  }
+}
+
 int
 p4est_comm_parallel_env_reduce_ext (p4est_t ** p4est_supercomm,
                                     sc_MPI_Group group_add,
@@ -163,6 +177,7 @@ p4est_comm_parallel_env_reduce_ext (p4est_t ** p4est_supercomm,
 
   /* exit if MPI communicator cannot be reduced */
   if (mpisize == 1) {
+    p4est_comm_identity_ranks (mpisize, ranks_subcomm);
     return 1;
   }
 
@@ -181,6 +196,7 @@ p4est_comm_parallel_env_reduce_ext (p4est_t ** p4est_supercomm,
   if (submpisize == mpisize) {
     P4EST_FREE (n_quadrants);
     P4EST_FREE (include);
+    p4est_comm_identity_ranks (mpisize, ranks_subcomm);
     return 1;
   }
 
diff --git a/src/p6est_communication.c b/src/p6est_communication.c
index 3a46027..bb9e4f2 100644
--- a/src/p6est_communication.c
+++ b/src/p6est_communication.c
@@ -152,8 +152,14 @@ p6est_comm_parallel_env_reduce_ext (p6est_t ** p6est_supercomm,
   /* update size of new MPI communicator */
   mpiret = sc_MPI_Comm_size (submpicomm, &submpisize);
   SC_CHECK_MPI (mpiret);
-  if (submpisize == p6est->mpisize) {
-    P4EST_ASSERT (ranks == NULL);
+  if (submpicomm == p6est->mpicomm) {
+    /* the communicator has not been reduced */
+    if (ranks_subcomm) {
+      *ranks_subcomm = ranks;
+    }
+    else {
+      P4EST_FREE (ranks);
+    }
     return 1;
   }
 
-- 
2.43.0


From a9a9e98c32b789aafd2ae7181123d49143532737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 29/65] fix: p4est_copy sets the inspect member of the copy to
 NULL

---
 src/p4est.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/p4est.c b/src/p4est.c
index 6fefc85..21159cf 100644
--- a/src/p4est.c
+++ b/src/p4est.c
@@ -563,6 +563,7 @@ p4est_copy_ext (p4est_t * input, int copy_data, int duplicate_mpicomm)
   p4est->trees = NULL;
   p4est->user_data_pool = NULL;
   p4est->quadrant_pool = NULL;
+  p4est->inspect = NULL;
 
   /* set parallel environment */
   p4est_comm_parallel_env_assign (p4est, input->mpicomm);
-- 
2.43.0


From a0516079f0546db2bc1210ececd897bb158a9bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 30/65] fix: p4est_is_equal compares the connectivities as
 documented

---
 src/p4est_algorithms.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/p4est_algorithms.c b/src/p4est_algorithms.c
index 6b2748a..ac5bf7f 100644
--- a/src/p4est_algorithms.c
+++ b/src/p4est_algorithms.c
@@ -429,6 +429,10 @@ p4est_is_equal (p4est_t * p4est1, p4est_t * p4est2, int compare_data)
     return 0;
   if (p4est1->mpirank != p4est2->mpirank)
     return 0;
+  if (p4est1->connectivity != p4est2->connectivity &&
+      !p4est_connectivity_is_equal (p4est1->connectivity,
+                                    p4est2->connectivity))
+    return 0;
   if (compare_data) {
     if (p4est1->data_size != p4est2->data_size)
       return 0;
-- 
2.43.0


From cdeb642b3d5c5f203653317b9e0708dfbd871272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 31/65] fix: p4est_new_points covers the forest when the first
 process has no points

---
 src/p4est_points.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p4est_points.c b/src/p4est_points.c
index 1afc170..3e1dec8 100644
--- a/src/p4est_points.c
+++ b/src/p4est_points.c
@@ -211,7 +211,7 @@ p4est_new_points (sc_MPI_Comm mpicomm, p4est_connectivity_t * connectivity,
   P4EST_QUADRANT_INIT (&f);
   p4est->global_first_position =
     P4EST_ALLOC_ZERO (p4est_quadrant_t, num_procs + 1);
-  if (num_points == 0) {
+  if (num_points == 0 && rank > 0) {
     P4EST_VERBOSE ("Empty processor");
     first_tree = p4est->first_local_tree = -1;
     first_quad = NULL;
-- 
2.43.0


From cfc6faca6caa36a18f234eb555428cae7240aa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:21 +0000
Subject: [PATCH 32/65] fix: p4est_new_points counts the points of a smallest
 quadrant that is shared by processes

---
 src/p4est_points.c | 58 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 57 insertions(+), 1 deletion(-)

diff --git a/src/p4est_points.c b/src/p4est_points.c
index 3e1dec8..51f35a1 100644
--- a/src/p4est_points.c
+++ b/src/p4est_points.c
@@ -51,9 +51,60 @@ typedef struct
   p4est_quadrant_t   *points;
   p4est_locidx_t      num_points, max_points, current;
   int                 maxlevel;
+  p4est_quadrant_t    shared;   /**< position of points with index < 0 */
 }
 p4est_points_state_t;
 
+/** Count the points of lower processes in our first quadrant at maxlevel.
+ * All points in one such quadrant may be distributed over several processes.
+ * Only one process owns it and must know of all points inside.
+ */
+static              p4est_locidx_t
+p4est_points_shared (p4est_t * p4est, p4est_points_state_t * s)
+{
+  int                 mpiret;
+  int                 p;
+  const int           rank = p4est->mpirank;
+  const p4est_quadrant_t *gfp = p4est->global_first_position;
+  p4est_locidx_t      tail, *tails;
+  p4est_gloidx_t      sum;
+  p4est_quadrant_t    q, n;
+
+  /* our last points that belong to the first quadrant of the next process */
+  tail = 0;
+  n = gfp[rank + 1];
+  n.level = (int8_t) s->maxlevel;
+  while (tail < s->num_points) {
+    const p4est_quadrant_t *point = s->points + (s->num_points - 1 - tail);
+
+    P4EST_QUADRANT_INIT (&q);
+    p4est_node_to_quadrant (point, s->maxlevel, &q);
+    if (point->p.which_tree != n.p.which_tree ||
+        !p4est_quadrant_is_equal (&q, &n)) {
+      break;
+    }
+    ++tail;
+  }
+  tails = P4EST_ALLOC (p4est_locidx_t, p4est->mpisize);
+  mpiret = sc_MPI_Allgather (&tail, 1, P4EST_MPI_LOCIDX,
+                             tails, 1, P4EST_MPI_LOCIDX, p4est->mpicomm);
+  SC_CHECK_MPI (mpiret);
+
+  /* add up the points of all processes that end in our first quadrant */
+  sum = 0;
+  if (!p4est_comm_is_empty_gfp (gfp, p4est->mpisize, rank)) {
+    for (p = rank - 1; p >= 0 &&
+         gfp[p + 1].p.which_tree == gfp[rank].p.which_tree &&
+         p4est_quadrant_is_equal (&gfp[p + 1], &gfp[rank]); --p) {
+      sum += tails[p];
+    }
+  }
+  P4EST_FREE (tails);
+
+  /* it is sufficient to know whether there are too many */
+  return (p4est_locidx_t) SC_MIN (sum, SC_MAX (s->max_points, 0));
+}
+
 static void
 p4est_points_init (p4est_t * p4est, p4est_topidx_t which_tree,
                    p4est_quadrant_t * quadrant)
@@ -64,7 +115,7 @@ p4est_points_init (p4est_t * p4est, p4est_topidx_t which_tree,
 
   qdata[0] = s->current;
   while (s->current < s->num_points) {
-    p = s->points + s->current;
+    p = s->current < 0 ? &s->shared : s->points + s->current;
     P4EST_ASSERT (p->p.which_tree >= which_tree);
     if (p->p.which_tree > which_tree) {
       break;
@@ -254,6 +305,11 @@ p4est_new_points (sc_MPI_Comm mpicomm, p4est_connectivity_t * connectivity,
     P4EST_ASSERT (first_tree <= last_tree);
   }
 
+  /* account for points of other processes in our first quadrant */
+  ppstate.shared = *first_quad;
+  ppstate.shared.level = P4EST_MAXLEVEL;
+  ppstate.current = -p4est_points_shared (p4est, &ppstate);
+
   /* fill the local trees */
   P4EST_QUADRANT_INIT (&a);
   P4EST_QUADRANT_INIT (&b);
-- 
2.43.0


From ede2b0b58447f686b656c452c22e898792cfeba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:22 +0000
Subject: [PATCH 33/65] fix: p4est_wrap_partition reports zeros when no
 quadrants stay on an empty process

---
 src/p4est_wrap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/p4est_wrap.c b/src/p4est_wrap.c
index 506e1ba..98b0da8 100644
--- a/src/p4est_wrap.c
+++ b/src/p4est_wrap.c
@@ -876,8 +876,8 @@ p4est_wrap_partition_unchanged (p4est_gloidx_t pre_me,
   uf = ul = uof = 0;
 
   /* check whether any quadrants stay at all, and which ones */
-  if (pre_me < post_next && post_me < pre_next) {
-    unext = SC_MIN (pre_next, post_next);
+  unext = SC_MIN (pre_next, post_next);
+  if (pre_me < unext && post_me < unext) {
     if (pre_me <= post_me) {
       uof = (p4est_locidx_t) (post_me - pre_me);
       ul = (p4est_locidx_t) (unext - post_me);
-- 
2.43.0


From 53e2ee186b373b1e4b0b280eb55cfd8351f929e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:17 +0000
Subject: [PATCH 34/65] fix: p4est_wrap_adapt detects every change of the
 forest, not only those visible in a checksum

---
 src/p4est_wrap.c | 64 +++++++++++++++++++++++++++++-------------------
 src/p4est_wrap.h |  2 +-
 src/p8est_wrap.h |  2 +-
 3 files changed, 41 insertions(+), 27 deletions(-)

diff --git a/src/p4est_wrap.c b/src/p4est_wrap.c
index 98b0da8..3c1f5d3 100644
--- a/src/p4est_wrap.c
+++ b/src/p4est_wrap.c
@@ -667,12 +667,12 @@ int
 p4est_wrap_adapt (p4est_wrap_t * pp)
 {
   int                 changed;
-  int                 have_zlib;
+  int                 mpiret;
+  int                 levels_changed;
 #ifdef P4EST_ENABLE_DEBUG
   p4est_locidx_t      jl, local_num;
 #endif
   p4est_gloidx_t      global_num, global_num_entry;
-  unsigned            checksum_entry, checksum_exit;
   p4est_t            *p4est = pp->p4est;
   sc_array_t         *quad_levels;
   int8_t             *level;
@@ -696,24 +696,26 @@ p4est_wrap_adapt (p4est_wrap_t * pp)
   P4EST_ASSERT (pp->num_refine_flags >= 0 &&
                 pp->num_refine_flags <= p4est->local_num_quadrants);
 
-  quad_levels = sc_array_new (sizeof (int8_t));
+#ifdef P4EST_ENABLE_DEBUG
   if (pp->params.store_adapted) {
     P4EST_ASSERT (p4est_is_balanced
                   (pp->p4est, pp->params.mesh_params.btype));
+  }
+#endif
 
-    /* store quadrant levels to compare with future adapted version */
-    sc_array_resize (quad_levels, p4est->local_num_quadrants);
+  /* store quadrant levels to compare with future adapted version */
+  quad_levels = sc_array_new_count (sizeof (int8_t),
+                                    p4est->local_num_quadrants);
 
-    /* iterate over p4est and store leaf levels */
-    for (tt = p4est->first_local_tree, qz = 0; tt <= p4est->last_local_tree;
-         ++tt) {
-      tree = p4est_tree_array_index (p4est->trees, tt);
-      tquadrants = &tree->quadrants;
-      for (zz = 0; zz < tquadrants->elem_count; ++zz, ++qz) {
-        level = (int8_t *) sc_array_index (quad_levels, qz);
-        quadrant = p4est_quadrant_array_index (tquadrants, zz);
-        *level = quadrant->level;
-      }
+  /* iterate over p4est and store leaf levels */
+  for (tt = p4est->first_local_tree, qz = 0; tt <= p4est->last_local_tree;
+       ++tt) {
+    tree = p4est_tree_array_index (p4est->trees, tt);
+    tquadrants = &tree->quadrants;
+    for (zz = 0; zz < tquadrants->elem_count; ++zz, ++qz) {
+      level = (int8_t *) sc_array_index (quad_levels, qz);
+      quadrant = p4est_quadrant_array_index (tquadrants, zz);
+      *level = quadrant->level;
     }
   }
 
@@ -723,12 +725,8 @@ p4est_wrap_adapt (p4est_wrap_t * pp)
                                      pp->num_refine_flags);
 
 
-  checksum_entry = 0;
-  if ((have_zlib = p4est_have_zlib())) {
-    /* store p4est checksum on entry to compare with results after balancing */
-    global_num_entry = p4est->global_num_quadrants;
-    checksum_entry = p4est_checksum (p4est);
-  }
+  /* store global count on entry to compare with results after balancing */
+  global_num_entry = p4est->global_num_quadrants;
 
   /* Execute refinement */
   pp->inside_counter = pp->num_replaced = 0;
@@ -767,10 +765,26 @@ p4est_wrap_adapt (p4est_wrap_t * pp)
                        pp->params.replace_fn);
 
     /* check if coarsening and balancing canceled out */
-    if (have_zlib && (global_num_entry == p4est->global_num_quadrants)) {
-      /* only compute another checksum for unchanged global quadrant counts */
-      checksum_exit = p4est_checksum (p4est);
-      changed = (checksum_entry != checksum_exit);
+    if (global_num_entry == p4est->global_num_quadrants) {
+      /* the local domain is invariant, thus the levels identify the leaves */
+      levels_changed =
+        quad_levels->elem_count != (size_t) p4est->local_num_quadrants;
+      for (tt = p4est->first_local_tree, qz = 0;
+           !levels_changed && tt <= p4est->last_local_tree; ++tt) {
+        tree = p4est_tree_array_index (p4est->trees, tt);
+        tquadrants = &tree->quadrants;
+        for (zz = 0; zz < tquadrants->elem_count; ++zz, ++qz) {
+          level = (int8_t *) sc_array_index (quad_levels, qz);
+          quadrant = p4est_quadrant_array_index (tquadrants, zz);
+          if (quadrant->level != *level) {
+            levels_changed = 1;
+            break;
+          }
+        }
+      }
+      mpiret = sc_MPI_Allreduce (&levels_changed, &changed, 1, sc_MPI_INT,
+                                 sc_MPI_LOR, p4est->mpicomm);
+      SC_CHECK_MPI (mpiret);
     }
 
     if (changed) {
diff --git a/src/p4est_wrap.h b/src/p4est_wrap.h
index f341808..0805183 100644
--- a/src/p4est_wrap.h
+++ b/src/p4est_wrap.h
@@ -374,7 +374,7 @@ void                p4est_wrap_mark_coarsen (p4est_wrap_t * pp,
  * Checks pp->flags as per-quadrant input against p4est_wrap_flags_t.
  * The pp->flags array is updated along with p4est and reset to zeros.
  * Creates ghost_aux and mesh_aux to represent the intermediate mesh.
- * If zlib is available, the routine checks whether coarsening and balancing the
+ * The routine checks whether coarsening and balancing the
  * p4est canceled out and skips computing ghost_aux and mesh_aux when possible.
  * \param [in,out] pp The p4est wrapper to work with, must not be hollow.
  * \return          boolean whether p4est has changed.
diff --git a/src/p8est_wrap.h b/src/p8est_wrap.h
index 16d9122..cd8295b 100644
--- a/src/p8est_wrap.h
+++ b/src/p8est_wrap.h
@@ -354,7 +354,7 @@ void                p8est_wrap_mark_coarsen (p8est_wrap_t * pp,
  * Checks pp->flags as per-quadrant input against p8est_wrap_flags_t.
  * The pp->flags array is updated along with p8est and reset to zeros.
  * Creates ghost_aux and mesh_aux to represent the intermediate mesh.
- * If zlib is available, the routine checks whether coarsening and balancing the
+ * The routine checks whether coarsening and balancing the
  * p8est canceled out and skips computing ghost_aux and mesh_aux when possible.
  * \param [in,out] pp The p8est wrapper to work with, must not be hollow.
  * \return          boolean whether p8est has changed.
-- 
2.43.0


From 0a6d30d58d2b25e082c3fb0468acec29d36ba044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 35/65] fix: p8est_geometry_new_pillow maps points identified
 by the connectivity to the same place

---
 src/p8est_geometry.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/p8est_geometry.c b/src/p8est_geometry.c
index 56ef995..16f0c17 100644
--- a/src/p8est_geometry.c
+++ b/src/p8est_geometry.c
@@ -152,7 +152,9 @@ p8est_geometry_pillow_X (p8est_geometry_t *geom,
   R1 = pillow->R1;
   R2 = pillow->R2;
 
-  Rz = R1 + zc * (R2 - R1);
+  /* the connectivity glues the bottom rim of one tree to the top rim of the
+     other, so the radius increases with z in tree 0 and decreases in tree 1 */
+  Rz = which_tree == 1 ? R2 + zc * (R1 - R2) : R1 + zc * (R2 - R1);
 
   xyz[0] = Rz * xp;
   xyz[1] = Rz * yp;
-- 
2.43.0


From d615929b52b4dce464ccfd98591b7a2dca8b216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 36/65] fix: pillow geometries are not NaN on the tree boundary

---
 src/p4est_geometry.c | 2 +-
 src/p8est_geometry.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/p4est_geometry.c b/src/p4est_geometry.c
index 00a9b80..0f75b9c 100644
--- a/src/p4est_geometry.c
+++ b/src/p4est_geometry.c
@@ -718,7 +718,7 @@ p4est_geometry_pillow_X (p4est_geometry_t *geom,
 
   xyz[0] = sign_d (xyz[0]) * xp;
   xyz[1] = sign_d (xyz[1]) * yp;
-  xyz[2] = sgnz * sqrt (Rsphere * Rsphere - (xp * xp + yp * yp));
+  xyz[2] = sgnz * sqrt (fmax (Rsphere * Rsphere - (xp * xp + yp * yp), 0.));
 }                               /* p4est_geometry_pillow_X */
 
 p4est_geometry_t   *
diff --git a/src/p8est_geometry.c b/src/p8est_geometry.c
index 16f0c17..0ca5a48 100644
--- a/src/p8est_geometry.c
+++ b/src/p8est_geometry.c
@@ -143,7 +143,7 @@ p8est_geometry_pillow_X (p8est_geometry_t *geom,
 
   xp *= sign_d (xc);
   yp *= sign_d (yc);
-  zp = sqrt (1 - (xp * xp + yp * yp));
+  zp = sqrt (fmax (1 - (xp * xp + yp * yp), 0.));
 
   /* tree 0 => lower hemisphere */
   /* tree 1 => upper hemisphere */
-- 
2.43.0


From 7007291671df64f6e02ea302390b72123016e8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:18 +0000
Subject: [PATCH 37/65] fix: p8est_tets_read_ele rejects a node number that
 equals the number of nodes

---
 src/p8est_tets_hexes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p8est_tets_hexes.c b/src/p8est_tets_hexes.c
index b5c1081..e00317e 100644
--- a/src/p8est_tets_hexes.c
+++ b/src/p8est_tets_hexes.c
@@ -164,7 +164,7 @@ p8est_tets_read_ele (const char *elefilename, p4est_topidx_t num_nodes,
   if (attributes != NULL) {
     *attributes = NULL;
   }
-  lmax_nodes = (num_nodes >= 0 ? (long) num_nodes : P4EST_TOPIDX_MAX);
+  lmax_nodes = (num_nodes >= 0 ? (long) num_nodes - 1 : P4EST_TOPIDX_MAX);
 
   /* open ele file */
   elefile = fopen (elefilename, "rb");
-- 
2.43.0


From e396df5ead577d51cc7ebbe2ee2aa6b2aae989b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 38/65] fix: p4est_vtk_write_footer reports errors of buffered
 output

---
 src/p4est_vtk.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/p4est_vtk.c b/src/p4est_vtk.c
index 039a06c..da92af4 100644
--- a/src/p4est_vtk.c
+++ b/src/p4est_vtk.c
@@ -2115,7 +2115,8 @@ p4est_vtk_write_footer (p4est_vtk_context_t * cont)
   fprintf (cont->vtufile, "  </UnstructuredGrid>\n");
   fprintf (cont->vtufile, "</VTKFile>\n");
 
-  if (ferror (cont->vtufile)) {
+  /* errors of buffered output may only show when flushing */
+  if (fflush (cont->vtufile) || ferror (cont->vtufile)) {
     P4EST_LERROR (P4EST_STRING "_vtk: Error writing footer\n");
     p4est_vtk_context_destroy (cont);
     return -1;
@@ -2144,13 +2145,13 @@ p4est_vtk_write_footer (p4est_vtk_context_t * cont)
     fprintf (cont->pvtufile, "  </PUnstructuredGrid>\n");
     fprintf (cont->pvtufile, "</VTKFile>\n");
 
-    if (ferror (cont->pvtufile)) {
+    if (fflush (cont->pvtufile) || ferror (cont->pvtufile)) {
       P4EST_LERROR (P4EST_STRING "_vtk: Error writing parallel footer\n");
       p4est_vtk_context_destroy (cont);
       return -1;
     }
 
-    if (ferror (cont->visitfile)) {
+    if (fflush (cont->visitfile) || ferror (cont->visitfile)) {
       P4EST_LERROR (P4EST_STRING "_vtk: Error writing parallel footer\n");
       p4est_vtk_context_destroy (cont);
       return -1;
-- 
2.43.0


From c4eb563bd96d4656cfa0bcb3e6415a4be0e522d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 39/65] fix: p4est_vtk_write_cell_data and point_data return
 NULL on write errors

---
 src/p4est_vtk.c | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/p4est_vtk.c b/src/p4est_vtk.c
index da92af4..bcb3228 100644
--- a/src/p4est_vtk.c
+++ b/src/p4est_vtk.c
@@ -1351,14 +1351,26 @@ p4est_vtk_write_point_datav (p4est_vtk_context_t * cont,
   all = 0;
   for (i = 0; i < num_point_scalars; ++all, ++i) {
     cont = p4est_vtk_write_point_scalar (cont, names[all], values[all]);
-    SC_CHECK_ABORT (cont != NULL,
-                    P4EST_STRING "_vtk: Error writing point scalars");
+    if (cont == NULL) {
+      P4EST_LERROR (P4EST_STRING "_vtk: Error writing point scalars\n");
+
+      P4EST_FREE (values);
+      P4EST_FREE (names);
+
+      return NULL;
+    }
   }
 
   for (i = 0; i < num_point_vectors; ++all, ++i) {
     cont = p4est_vtk_write_point_vector (cont, names[all], values[all]);
-    SC_CHECK_ABORT (cont != NULL,
-                    P4EST_STRING "_vtk: Error writing point vectors");
+    if (cont == NULL) {
+      P4EST_LERROR (P4EST_STRING "_vtk: Error writing point vectors\n");
+
+      P4EST_FREE (values);
+      P4EST_FREE (names);
+
+      return NULL;
+    }
   }
 
   fprintf (cont->vtufile, "      </PointData>\n");
@@ -1766,14 +1778,24 @@ p4est_vtk_write_cell_data (p4est_vtk_context_t * cont,
   all = 0;
   for (i = 0; i < num_cell_scalars; ++all, ++i) {
     cont = p4est_vtk_write_cell_scalar (cont, names[all], values[all]);
-    SC_CHECK_ABORT (cont != NULL,
-                    P4EST_STRING "_vtk: Error writing cell scalars");
+    if (cont == NULL) {
+      P4EST_LERROR (P4EST_STRING "_vtk: Error writing cell scalars\n");
+
+      P4EST_FREE (names);
+
+      return NULL;
+    }
   }
 
   for (i = 0; i < num_cell_vectors; ++all, ++i) {
     cont = p4est_vtk_write_cell_vector (cont, names[all], values[all]);
-    SC_CHECK_ABORT (cont != NULL,
-                    P4EST_STRING "_vtk: Error writing cell vectors");
+    if (cont == NULL) {
+      P4EST_LERROR (P4EST_STRING "_vtk: Error writing cell vectors\n");
+
+      P4EST_FREE (names);
+
+      return NULL;
+    }
   }
 
   fprintf (cont->vtufile, "      </CellData>\n");
-- 
2.43.0


From 1424b31f16dee985a0fb288bee8eb11838751092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:46 +0000
Subject: [PATCH 40/65] fix: p4est_vtk_write_header_ho frees its memory on a
 write error

---
 src/p4est_vtk.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/p4est_vtk.c b/src/p4est_vtk.c
index bcb3228..7388205 100644
--- a/src/p4est_vtk.c
+++ b/src/p4est_vtk.c
@@ -1103,6 +1103,7 @@ p4est_vtk_write_header_ho (p4est_vtk_context_t * cont, sc_array_t * positions,
   if (retval) {
     P4EST_LERROR (P4EST_STRING "_vtk: Error encoding connectivity\n");
     p4est_vtk_context_destroy (cont);
+    P4EST_FREE (locidx_data);
     return NULL;
   }
 #endif
-- 
2.43.0


From 1665b9c7e4c12f6b4a8f5879134bf18b4f622c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:07 +0000
Subject: [PATCH 41/65] fix: p6est_new_ext accepts a min_zlevel below the level
 of the root layers

---
 src/p6est.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index 36af898..60b27f7 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -399,10 +399,13 @@ p6est_new_ext (sc_MPI_Comm mpicomm, p6est_connectivity_t * connectivity,
   p6est_init_data_t   init_data;
   int                 mpiret, num_procs, rank;
   int                 log_zroot = SC_LOG2_32 (num_zroot - 1) + 1;
-  int                 quadpercol =
-    (1 << (min_zlevel - log_zroot)) * num_zroot;
+  int                 quadpercol;
   int                 i;
 
+  /* the root layers are the coarsest possible ones */
+  min_zlevel = SC_MAX (min_zlevel, log_zroot);
+  quadpercol = (1 << (min_zlevel - log_zroot)) * num_zroot;
+
   P4EST_GLOBAL_PRODUCTIONF
     ("Into p6est_new with min layers %lld z-level %d\n",
      (long long) min_quadrants, SC_MAX (min_zlevel, 0));
-- 
2.43.0


From 220747564eb3519a218a4cdc5d368f76f2c24e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:08 +0000
Subject: [PATCH 42/65] fix: p6est_new_ext meets the minimum number of layers
 per process

---
 src/p6est.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/p6est.c b/src/p6est.c
index 60b27f7..03f75ce 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -450,7 +450,9 @@ p6est_new_ext (sc_MPI_Comm mpicomm, p6est_connectivity_t * connectivity,
 
   P4EST_GLOBAL_VERBOSE ("Creating p4est for columns\n");
   p4est =
-    p4est_new_ext (mpicomm, connectivity->conn4, min_quadrants / quadpercol,
+    p4est_new_ext (mpicomm, connectivity->conn4,
+                   min_quadrants / quadpercol +
+                   (min_quadrants % quadpercol > 0 ? 1 : 0),
                    min_level, fill_uniform, 0, p6est_init_fn, (void *) p6est);
 
   p6est->user_pointer = user_pointer;
-- 
2.43.0


From 3e04f36c8a2f398166983ad3224f4735b29d9cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:36 +0000
Subject: [PATCH 43/65] fix: p6est_partition_correct and to_p4est_partition
 exceed their arrays

---
 src/p6est.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index 03f75ce..6dd9948 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -2188,8 +2188,8 @@ p6est_partition_correct (p6est_t * p6est, p4est_locidx_t * num_layers_in_proc)
   p4est_gloidx_t      my_end = p6est->global_first_layer[mpirank + 1];
   p4est_gloidx_t      offset = 0;
 
-  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize);
-  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize);
+  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize + 1);
+  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize + 1);
 
   new_offsets[mpisize] = p6est->global_first_layer[mpisize];
 
@@ -2228,7 +2228,7 @@ p6est_partition_correct (p6est_t * p6est, p4est_locidx_t * num_layers_in_proc)
   }
 
   mpiret =
-    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize,
+    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize + 1,
                       P4EST_MPI_GLOIDX, sc_MPI_MAX, p6est->mpicomm);
   SC_CHECK_MPI (mpiret);
 
@@ -2255,8 +2255,8 @@ p6est_partition_to_p4est_partition (p6est_t * p6est,
   p4est_gloidx_t      my_end = p6est->global_first_layer[mpirank + 1];
   p4est_gloidx_t      offset = 0;
 
-  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize);
-  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize);
+  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize + 1);
+  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize + 1);
 
   new_offsets[mpisize] = p6est->columns->global_num_quadrants;
 
@@ -2298,7 +2298,7 @@ p6est_partition_to_p4est_partition (p6est_t * p6est,
   }
 
   mpiret =
-    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize,
+    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize + 1,
                       P4EST_MPI_GLOIDX, sc_MPI_MAX, p6est->mpicomm);
   SC_CHECK_MPI (mpiret);
 
-- 
2.43.0


From 0377e7cf184809fd0d927b03aa23f6369732c3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:36 +0000
Subject: [PATCH 44/65] fix: p4est_partition_to_p6est_partition writes its
 output argument

---
 src/p6est.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index 6dd9948..a8f5b5e 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -2327,8 +2327,8 @@ p4est_partition_to_p6est_partition (p6est_t * p6est,
     p6est->columns->global_first_quadrant[mpirank + 1];
   p4est_gloidx_t      offset = 0;
 
-  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize);
-  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize);
+  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize + 1);
+  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize + 1);
 
   new_offsets[mpisize] = p6est->global_first_layer[mpisize];
 
@@ -2362,18 +2362,17 @@ p4est_partition_to_p6est_partition (p6est_t * p6est,
     }
     if (offset == p6est->columns->global_num_quadrants) {
       new_offsets[p] = p6est->global_first_layer[mpisize];
-      break;
     }
     offset += num_columns_in_proc[p];
   }
 
   mpiret =
-    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize,
+    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize + 1,
                       P4EST_MPI_GLOIDX, sc_MPI_MAX, p6est->mpicomm);
   SC_CHECK_MPI (mpiret);
 
   for (p = 0; p < mpisize; p++) {
-    num_columns_in_proc[p] = new_offsets_recv[p + 1] - new_offsets_recv[p];
+    num_layers_in_proc[p] = new_offsets_recv[p + 1] - new_offsets_recv[p];
   }
 
   P4EST_FREE (new_offsets);
-- 
2.43.0


From b8614e11d8d8d2b66c3e7725dc0970510960c619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 45/65] fix: p6est_ghost_new sets mirror_tree_offsets on a
 process without mirrors

---
 src/p6est_ghost.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/p6est_ghost.c b/src/p6est_ghost.c
index 323b3d1..cfaf2d4 100644
--- a/src/p6est_ghost.c
+++ b/src/p6est_ghost.c
@@ -504,7 +504,8 @@ p6est_ghost_new (p6est_t * p6est, p4est_connect_type_t btype)
   ghost->tree_offsets = P4EST_ALLOC (p4est_locidx_t, num_trees + 1);
   ghost->proc_offsets = P4EST_ALLOC (int, mpisize + 1);
   ghost->mirror_proc_front_offsets = P4EST_ALLOC (int, mpisize + 1);
-  ghost->mirror_tree_offsets = P4EST_ALLOC (p4est_locidx_t, num_trees + 1);
+  ghost->mirror_tree_offsets =
+    P4EST_ALLOC_ZERO (p4est_locidx_t, num_trees + 1);
   ghost->mirror_proc_fronts = NULL;     /* these three are set in p6est_ghost_send_front_layers */
   ghost->mirror_proc_offsets = NULL;
   ghost->mirror_proc_mirrors = NULL;
-- 
2.43.0


From 493b599c7a4caa1fb6247c4240077473537490d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 46/65] fix: p6est_load sets the root length

---
 src/p6est.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/p6est.c b/src/p6est.c
index a8f5b5e..20951e8 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -938,7 +938,8 @@ p6est_load_ext (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
   size_t              save_data_size, comb_size;
   uint64_t            u64a;
   p4est_gloidx_t     *gfl;
-  int                 rank;
+  int                 rank, mpiret;
+  p4est_qcoord_t      local_top, root_len;
 
   P4EST_GLOBAL_PRODUCTIONF ("Into p6est_load %s\n", filename);
   p4est_log_indent_push ();
@@ -1063,6 +1064,19 @@ p6est_load_ext (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
   retval = sc_io_source_destroy (src);
   SC_CHECK_ABORT (!retval, "destroy source");
 
+  /* the topmost layer of every column reaches up to the root length */
+  local_top = 0;
+  if (nlayers) {
+    p2est_quadrant_t   *layer =
+      p2est_quadrant_array_index (p6est->layers, (size_t) nlayers - 1);
+
+    local_top = layer->z + P4EST_QUADRANT_LEN (layer->level);
+  }
+  mpiret = sc_MPI_Allreduce (&local_top, &root_len, 1, P4EST_MPI_QCOORD,
+                             sc_MPI_MAX, mpicomm);
+  SC_CHECK_MPI (mpiret);
+  p6est->root_len = root_len;
+
   p4est_log_indent_pop ();
   P4EST_GLOBAL_PRODUCTIONF ("Done p6est_load %s\n", filename);
 
-- 
2.43.0


From 9a4242e5f41af0ffce57d0834765a7430ade0582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 47/65] fix: p6est_load allocates data that it does not load

---
 src/p6est.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/p6est.c b/src/p6est.c
index 20951e8..9414033 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -997,6 +997,9 @@ p6est_load_ext (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
   SC_CHECK_ABORT (!retval, "source data size");
   save_data_size = (size_t) u64a;
 
+  if (data_size == 0) {
+    load_data = 0;
+  }
   if (load_data) {
     SC_CHECK_ABORT (save_data_size == data_size, "data size mismatch");
   }
@@ -1053,8 +1056,10 @@ p6est_load_ext (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
       P2EST_QUADRANT_INIT (layer);
       layer->z = loadlayer[0];
       layer->level = (int8_t) loadlayer[1];
-      if (load_data) {
+      if (data_size > 0) {
         layer->p.user_data = sc_mempool_alloc (p6est->user_data_pool);
+      }
+      if (load_data) {
         memcpy (layer->p.user_data, &loadlayer[2], save_data_size);
       }
     }
-- 
2.43.0


From e1260e5c5e00f966ab67cdf8d593e0acbbaab1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 48/65] fix: p6est_save_ext without partition writes a
 partition independent file

---
 src/p6est.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index 9414033..9832715 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -758,8 +758,15 @@ p6est_save_ext (const char *filename, p6est_t * p6est,
         lfirst = (p4est_locidx_t) first;
         llast = (p4est_locidx_t) last;
         savedata = (p4est_locidx_t *) savecol->p.user_data;
-        savedata[0] = lfirst;
-        savedata[1] = llast;
+        if (save_partition) {
+          savedata[0] = lfirst;
+          savedata[1] = llast;
+        }
+        else {
+          /* store the layer count independent of the partition */
+          savedata[0] = 0;
+          savedata[1] = llast - lfirst;
+        }
       }
     }
   }
-- 
2.43.0


From 37ad4b85774ed41ee0919c1bf97cb9f5a6b3cd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 49/65] fix: p6est_copy without data does not refer to the data
 pool of the input

---
 src/p6est.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/p6est.c b/src/p6est.c
index 9832715..097e485 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -614,6 +614,7 @@ p6est_copy_ext (p6est_t * input, int copy_data, int duplicate_comm)
   }
   else {
     p6est->data_size = 0;
+    p6est->user_data_pool = NULL;
   }
   p6est->layer_pool = p2est_quadrant_mempool_new ();
 
-- 
2.43.0


From a0de2b174b6acecca8f03ac3e0abd5a4d07fcbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:07 +0000
Subject: [PATCH 50/65] fix: coarsening p6est columns replaces four layers

---
 src/p6est.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index 097e485..ed10ed7 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -1675,8 +1675,8 @@ p6est_replace_column_join (p4est_t * p4est, p4est_topidx_t which_tree,
       }
     }
     if (replace_fn != NULL) {
-      replace_fn (p6est, which_tree, P4EST_CHILDREN, 1, outgoing, q, 1, 1,
-                  incoming, &p);
+      replace_fn (p6est, which_tree, P4EST_CHILDREN, P4EST_CHILDREN,
+                  outgoing, q, 1, 1, incoming, &p);
     }
     for (j = 0; j < num_outgoing; j++) {
       p6est_layer_free_data (p6est, q[j]);
-- 
2.43.0


From aaa076f01addb99cd7d9592c189e7f8c031af905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:07 +0000
Subject: [PATCH 51/65] fix: coarsening p6est columns initializes the coarsest
 layer

---
 src/p6est.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p6est.c b/src/p6est.c
index ed10ed7..a19bd76 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -1641,13 +1641,13 @@ p6est_replace_column_join (p4est_t * p4est, p4est_topidx_t which_tree,
     }
     p = p2est_quadrant_array_push (work_array);
     *p = *q[0];
-    p6est_layer_init_data (p6est, which_tree, incoming[0], p, init_fn);
     for (j = 1; j < num_outgoing; j++) {
       P4EST_ASSERT (q[j]->z == p->z);
       if (q[j]->level < p->level) {
         *p = *q[j];
       }
     }
+    p6est_layer_init_data (p6est, which_tree, incoming[0], p, init_fn);
     for (j = 0; j < num_outgoing; j++) {
       if (q[j]->level > p->level) {
         P4EST_ASSERT (p2est_quadrant_is_ancestor (p, q[j]));
-- 
2.43.0


From 2d09b225547ba0240ed60a5b3d6c046a6d276e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:47 +0000
Subject: [PATCH 52/65] fix: p6est_balance_ext calls the user callbacks with
 the user pointer

---
 src/p6est.c | 66 ++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 60 insertions(+), 6 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index a19bd76..a67e46d 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -2463,12 +2463,52 @@ p6est_partition (p6est_t * p6est, p6est_weight_t weight_fn)
   return p6est_partition_ext (p6est, 0, weight_fn);
 }
 
+/* context to enforce layer ratios: the callbacks see the original pointer */
+typedef struct p6est_balance_diff
+{
+  int                 diff;
+  void               *user_pointer;
+  p6est_init_t        init_fn;
+  p6est_replace_t     replace_fn;
+}
+p6est_balance_diff_t;
+
+static void
+p6est_balance_diff_init (p6est_t * p6est, p4est_topidx_t which_tree,
+                         p4est_quadrant_t * column, p2est_quadrant_t * layer)
+{
+  p6est_balance_diff_t *bd = (p6est_balance_diff_t *) p6est->user_pointer;
+
+  p6est->user_pointer = bd->user_pointer;
+  bd->init_fn (p6est, which_tree, column, layer);
+  p6est->user_pointer = (void *) bd;
+}
+
+static void
+p6est_balance_diff_replace (p6est_t * p6est, p4est_topidx_t which_tree,
+                            int num_outcolumns, int num_outlayers,
+                            p4est_quadrant_t * outcolumns[],
+                            p2est_quadrant_t * outlayers[],
+                            int num_incolumns, int num_inlayers,
+                            p4est_quadrant_t * incolumns[],
+                            p2est_quadrant_t * inlayers[])
+{
+  p6est_balance_diff_t *bd = (p6est_balance_diff_t *) p6est->user_pointer;
+
+  p6est->user_pointer = bd->user_pointer;
+  bd->replace_fn (p6est, which_tree, num_outcolumns, num_outlayers,
+                  outcolumns, outlayers, num_incolumns, num_inlayers,
+                  incolumns, inlayers);
+  p6est->user_pointer = (void *) bd;
+}
+
 static int
 p6est_column_refine_thin_layer (p6est_t * p6est,
                                 p4est_topidx_t which_tree,
                                 p4est_quadrant_t * column)
 {
-  int                 max_diff = *((int *) p6est->user_pointer);
+  int                 max_diff =
+    ((p6est_balance_diff_t *) p6est->user_pointer)->diff;
   int8_t              horz_level = column->level;
   size_t              first, last, zz;
   sc_array_t         *layers = p6est->layers;
@@ -2493,7 +2533,8 @@ p6est_layer_refine_thick_layer (p6est_t * p6est,
                                 p4est_quadrant_t * column,
                                 p2est_quadrant_t * layer)
 {
-  int                 min_diff = *((int *) p6est->user_pointer);
+  int                 min_diff =
+    ((p6est_balance_diff_t *) p6est->user_pointer)->diff;
   int8_t              horz_level = column->level;
   int8_t              vert_level = layer->level;
 
@@ -2512,6 +2553,7 @@ p6est_balance_ext (p6est_t * p6est, p8est_connect_type_t btype,
   p4est_connect_type_t hbtype;
   p6est_refine_col_data_t refine_col;
   void               *orig_user_pointer = p6est->user_pointer;
+  p6est_balance_diff_t bd;
   p6est_profile_t    *profile;
   int                 any_change;
   int                 niter;
@@ -2522,6 +2564,10 @@ p6est_balance_ext (p6est_t * p6est, p8est_connect_type_t btype,
                             (long long) p6est->columns->global_num_quadrants);
   p4est_log_indent_push ();
 
+  bd.user_pointer = orig_user_pointer;
+  bd.init_fn = init_fn;
+  bd.replace_fn = replace_fn;
+
   /* first refine columns whose layers are too thin */
   if (max_diff >= min_diff) {
     int                 print_max_diff = SC_MIN (max_diff, P4EST_QMAXLEVEL);
@@ -2530,9 +2576,13 @@ p6est_balance_ext (p6est_t * p6est, p8est_connect_type_t btype,
 
     P4EST_GLOBAL_PRODUCTIONF
       ("Enforcing maximum layer width:height ratio 2^%d:1\n", print_max_diff);
-    p6est->user_pointer = (void *) &max_diff;
+    bd.diff = max_diff;
+    p6est->user_pointer = (void *) &bd;
     p6est_refine_columns_ext (p6est, 1, -1, p6est_column_refine_thin_layer,
-                              init_fn, replace_fn);
+                              init_fn != NULL ?
+                              p6est_balance_diff_init : NULL,
+                              replace_fn != NULL ?
+                              p6est_balance_diff_replace : NULL);
     p6est->user_pointer = orig_user_pointer;
   }
 
@@ -2563,9 +2613,13 @@ p6est_balance_ext (p6est_t * p6est, p8est_connect_type_t btype,
 
     P4EST_GLOBAL_PRODUCTIONF
       ("Enforcing minimum layer width:height ratio 2^%d:1\n", print_min_diff);
-    p6est->user_pointer = (void *) &min_diff;
+    bd.diff = min_diff;
+    p6est->user_pointer = (void *) &bd;
     p6est_refine_layers_ext (p6est, 1, -1, p6est_layer_refine_thick_layer,
-                             init_fn, replace_fn);
+                             init_fn != NULL ?
+                             p6est_balance_diff_init : NULL,
+                             replace_fn != NULL ?
+                             p6est_balance_diff_replace : NULL);
     p6est->user_pointer = orig_user_pointer;
   }
 
-- 
2.43.0


From 195f78235c48a96bfcf8b7cf8b4779794f518d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:32 +0000
Subject: [PATCH 53/65] fix: p6est_coarsen_layers with debug checks works
 without user data

---
 src/p6est.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index a67e46d..4738edf 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -1478,7 +1478,8 @@ p6est_coarsen_all_layers (p6est_t * p6est, p4est_topidx_t which_tree,
   p2est_quadrant_t   *q, *r, a, s, *sib[2];
   int                 i, stackheight;
 #ifdef P4EST_ENABLE_DEBUG
-  size_t              mcount = p6est->user_data_pool->elem_count;
+  size_t              mcount = p6est->user_data_pool != NULL ?
+    p6est->user_data_pool->elem_count : 0;
   p4est_qcoord_t      startpos, endpos;
 #endif
 
@@ -1585,7 +1586,8 @@ p6est_coarsen_all_layers (p6est_t * p6est, p4est_topidx_t which_tree,
   sc_array_resize (descendants, new_count);
 
 #ifdef P4EST_ENABLE_DEBUG
-  P4EST_ASSERT (mcount - p6est->user_data_pool->elem_count ==
+  P4EST_ASSERT (p6est->user_data_pool == NULL ||
+                mcount - p6est->user_data_pool->elem_count ==
                 (old_count - new_count));
 
   q = p2est_quadrant_array_index (descendants, new_count - 1);
@@ -1787,7 +1789,8 @@ p6est_coarsen_layers_ext (p6est_t * p6est, int coarsen_recursive,
   }
   p6est_compress_columns (p6est);
   p6est_update_offsets (p6est);
-  P4EST_ASSERT (p6est->user_data_pool->elem_count == layers->elem_count);
+  P4EST_ASSERT (p6est->user_data_pool == NULL ||
+                p6est->user_data_pool->elem_count == layers->elem_count);
 
   p4est_log_indent_pop ();
   P4EST_GLOBAL_PRODUCTIONF
-- 
2.43.0


From 0bd2db449821cf69369d9baf5660dc7a7d9dc1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:32 +0000
Subject: [PATCH 54/65] fix: coarsening p6est layers of the maximum level
 exceeds an array

---
 src/p6est.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p6est.c b/src/p6est.c
index 4738edf..18bafee 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -1472,7 +1472,7 @@ p6est_coarsen_all_layers (p6est_t * p6est, p4est_topidx_t which_tree,
                           p6est_coarsen_layer_t coarsen_fn,
                           p6est_init_t init_fn, p6est_replace_t replace_fn)
 {
-  p2est_quadrant_t    prevq[P4EST_QMAXLEVEL];
+  p2est_quadrant_t    prevq[P4EST_QMAXLEVEL + 1];
   size_t              old_count = descendants->elem_count;
   size_t              zz, new_count = 0;
   p2est_quadrant_t   *q, *r, a, s, *sib[2];
-- 
2.43.0


From e90820df1527c766502b98c90ef618b0c3ba2bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:32 +0000
Subject: [PATCH 55/65] fix: p6est_refine_layers does not exceed the maximum
 level

---
 src/p6est.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/p6est.c b/src/p6est.c
index 18bafee..f9a4689 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -1324,6 +1324,10 @@ p6est_refine_layers_ext (p6est_t * p6est, int refine_recursive,
                             (long long) p6est->columns->global_num_quadrants,
                             allowed_level);
   p4est_log_indent_push ();
+
+  if (allowed_level < 0) {
+    allowed_level = P4EST_QMAXLEVEL;
+  }
   for (jt = columns->first_local_tree; jt <= columns->last_local_tree; ++jt) {
     tree = p4est_tree_array_index (columns->trees, jt);
     tquadrants = &tree->quadrants;
@@ -1341,7 +1345,7 @@ p6est_refine_layers_ext (p6est_t * p6est, int refine_recursive,
         parent = q;
         for (;;) {
           if (!stop_recurse && refine_fn (p6est, jt, col, parent) &&
-              (allowed_level < 0 || (int) parent->level < allowed_level)) {
+              (int) parent->level < allowed_level) {
             level++;
             any_change = 1;
             c[0] = *parent;
-- 
2.43.0


From d1c2c2be2f64fccedec51a5cdbe80b82322bc5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:36 +0000
Subject: [PATCH 56/65] fix: p6est_balance refines layers that touch a much
 finer layer at an edge

---
 src/p6est_profile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p6est_profile.c b/src/p6est_profile.c
index d84adfc..4274cde 100644
--- a/src/p6est_profile.c
+++ b/src/p6est_profile.c
@@ -277,7 +277,7 @@ p6est_profile_balance_full_one_pass (sc_array_t * read, sc_array_t * write,
         else {
           nextl = -1;
         }
-        if (n >= SC_MAX (nextl, prevl) - 1) {
+        if (n >= SC_MAX (nextl, prevl)) {
           zy++;
           n--;
         }
-- 
2.43.0


From 9bdd6fc755ff7fda2ff522bb07c96b73fd453935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:37 +0000
Subject: [PATCH 57/65] fix: p6est_balance does not miss profile changes of the
 same loop

---
 src/p6est_profile.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/p6est_profile.c b/src/p6est_profile.c
index 4274cde..07669e3 100644
--- a/src/p6est_profile.c
+++ b/src/p6est_profile.c
@@ -769,9 +769,10 @@ p6est_profile_balance_local (p6est_profile_t * profile)
       for (j = 0; j < 3; j++) {
         for (i = 0; i < 3; i++, enidx++) {
           nidx = en[enidx];
-          if (!profile->lnode_changed[evenodd][nidx]) {
-            /* if the profile hasn't changed since I wrote to it, there's no
-             * need to balance against it */
+          if (!profile->lnode_changed[evenodd][nidx] &&
+              !profile->lnode_changed[evenodd ^ 1][nidx]) {
+            /* if the profile has changed neither in the previous loop nor in
+             * this one so far, there's no need to balance against it */
             continue;
           }
           if (i != 1 && j != 1) {
@@ -796,7 +797,6 @@ p6est_profile_balance_local (p6est_profile_t * profile)
           sc_array_init_view (&testprof, lc, lr[nidx][0], lr[nidx][1]);
           p6est_profile_union (thisprof, &testprof, work);
           if (work->elem_count > thisprof->elem_count) {
-            P4EST_ASSERT (profile->lnode_changed[evenodd][nidx]);
             any_prof_change = 1;
             sc_array_copy (selfprof, work);
             thisprof = selfprof;
-- 
2.43.0


From df99e016b1c1c9b5ac8b123375125de0bdc7b25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:47 +0000
Subject: [PATCH 58/65] fix: p4est_get_plex_data with an adjacency other than
 full asked for nodes of an undefined degree, and for nodes from a ghost layer
 that is not full

---
 src/p4est_plex.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/p4est_plex.c b/src/p4est_plex.c
index d5d2108..a445e53 100644
--- a/src/p4est_plex.c
+++ b/src/p4est_plex.c
@@ -1918,13 +1918,17 @@ p4est_get_plex_data_ext (p4est_t * p4est,
   int                 ctype_int = p4est_connect_type_int (ctype);
   int                 i;
   int                 created_ghost = 0;
+  p4est_ghost_t      *full_ghost;
 
   if (!*ghost) {
     *ghost = p4est_ghost_new (p4est, ctype);
     created_ghost = 1;
   }
+  /* the nodes require a full ghost layer */
+  full_ghost = ctype == P4EST_CONNECT_FULL ? *ghost :
+    p4est_ghost_new (p4est, P4EST_CONNECT_FULL);
   if (!*lnodes) {
-    *lnodes = p4est_lnodes_new (p4est, *ghost, -ctype_int);
+    *lnodes = p4est_lnodes_new (p4est, full_ghost, -ctype_int);
   }
   if (created_ghost) {
     if (overlap) {
@@ -1935,8 +1939,10 @@ p4est_get_plex_data_ext (p4est_t * p4est,
     }
   }
   if (ctype != P4EST_CONNECT_FULL) {
+    /* the mesh data refer to the nodes of all dimensions */
     p4est_lnodes_destroy (*lnodes);
-    *lnodes = p4est_lnodes_new (p4est, *ghost, -ctype);
+    *lnodes = p4est_lnodes_new (p4est, full_ghost, -P4EST_DIM);
+    p4est_ghost_destroy (full_ghost);
   }
   p4est_get_plex_data_int (p4est, *ghost, *lnodes, overlap, 0,
                            first_local_quad, out_points_per_dim,
-- 
2.43.0


From b412b0fa105cb3c26c4c24a2f69779afa7cff856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:03 +0000
Subject: [PATCH 59/65] fix: p6est_vtk names the pieces relative to the master
 files

---
 src/p6est_vtk.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/p6est_vtk.c b/src/p6est_vtk.c
index 6f80d3d..f348ea5 100644
--- a/src/p6est_vtk.c
+++ b/src/p6est_vtk.c
@@ -691,6 +691,7 @@ p6est_vtk_write_footer (p6est_t * p4est, const char *filename)
   int                 p;
   int                 procRank = p4est->mpirank;
   int                 numProcs = p4est->mpisize;
+  const char         *piecename;
   FILE               *vtufile;
 
   /* Have each proc write to its own file */
@@ -741,12 +742,16 @@ p6est_vtk_write_footer (p6est_t * p4est, const char *filename)
     }
     fprintf (visitfile, "!NBLOCKS %d\n", numProcs);
 
+    /* The pieces are found relative to the location of the master files */
+    piecename = strrchr (filename, '/');
+    piecename = piecename == NULL ? filename : piecename + 1;
+
     /* Write data about the parallel pieces into both files */
     fprintf (pvtufile, "    </PPointData>\n");
     for (p = 0; p < numProcs; ++p) {
       fprintf (pvtufile,
-               "    <Piece Source=\"%s_%04d.vtu\"/>\n", filename, p);
-      fprintf (visitfile, "%s_%04d.vtu\n", filename, p);
+               "    <Piece Source=\"%s_%04d.vtu\"/>\n", piecename, p);
+      fprintf (visitfile, "%s_%04d.vtu\n", piecename, p);
     }
     fprintf (pvtufile, "  </PUnstructuredGrid>\n");
     fprintf (pvtufile, "</VTKFile>\n");
-- 
2.43.0


From 7471da3072eff32f94eabe8839486f5520249eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:24 +0000
Subject: [PATCH 60/65] fix: p6est_vtk frees its memory on a write error

---
 src/p6est_vtk.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/p6est_vtk.c b/src/p6est_vtk.c
index f348ea5..4956039 100644
--- a/src/p6est_vtk.c
+++ b/src/p6est_vtk.c
@@ -306,6 +306,7 @@ p6est_vtk_write_header (p6est_t * p6est,
   fprintf (vtufile, "\n");
   if (retval) {
     P4EST_LERROR ("p6est_vtk: Error encoding points\n");
+    P4EST_FREE (float_data);
     fclose (vtufile);
     return -1;
   }
@@ -337,6 +338,7 @@ p6est_vtk_write_header (p6est_t * p6est,
   fprintf (vtufile, "\n");
   if (retval) {
     P4EST_LERROR ("p6est_vtk: Error encoding connectivity\n");
+    P4EST_FREE (locidx_data);
     fclose (vtufile);
     return -1;
   }
@@ -364,6 +366,7 @@ p6est_vtk_write_header (p6est_t * p6est,
   fprintf (vtufile, "\n");
   if (retval) {
     P4EST_LERROR ("p6est_vtk: Error encoding offsets\n");
+    P4EST_FREE (locidx_data);
     fclose (vtufile);
     return -1;
   }
@@ -393,6 +396,7 @@ p6est_vtk_write_header (p6est_t * p6est,
   fprintf (vtufile, "\n");
   if (retval) {
     P4EST_LERROR ("p6est_vtk: Error encoding types\n");
+    P4EST_FREE (locidx_data);
     fclose (vtufile);
     return -1;
   }
@@ -429,6 +433,7 @@ p6est_vtk_write_header (p6est_t * p6est,
     fprintf (vtufile, "\n");
     if (retval) {
       P4EST_LERROR ("p6est_vtk: Error encoding types\n");
+      P4EST_FREE (locidx_data);
       fclose (vtufile);
       return -1;
     }
@@ -474,6 +479,7 @@ p6est_vtk_write_header (p6est_t * p6est,
     fprintf (vtufile, "\n");
     if (retval) {
       P4EST_LERROR ("p6est_vtk: Error encoding types\n");
+      P4EST_FREE (locidx_data);
       fclose (vtufile);
       return -1;
     }
@@ -628,6 +634,7 @@ p6est_vtk_write_point_scalar (p6est_t * p6est,
   fprintf (vtufile, "\n");
   if (retval) {
     P4EST_LERROR ("p6est_vtk: Error encoding points\n");
+    P4EST_FREE (float_data);
     fclose (vtufile);
     return -1;
   }
-- 
2.43.0


From 0963f5a0f29f1540646db00cf0801799d87adedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:43 +0000
Subject: [PATCH 61/65] fix: p4est_partition_for_coarsening does not read in
 front of the partition offsets

---
 src/p4est.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/p4est.c b/src/p4est.c
index 21159cf..392f0cf 100644
--- a/src/p4est.c
+++ b/src/p4est.c
@@ -3149,7 +3149,9 @@ p4est_partition_for_coarsening (p4est_t * p4est,
          */
         ++begin;
       }
-      --begin;                  /* since we have partition_now[i + 1] */
+      if (begin > 0) {
+        --begin;                /* since we have partition_now[i + 1] */
+      }
 
       if (my_end != partition_now[end]) {
         /* We want to ensure <= for my_end inequality constraint.
-- 
2.43.0


From d766fbcc464c6e0ed99ba3462b445727be98f931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:51 +0000
Subject: [PATCH 62/65] fix: p4est_mesh_quadrant_cumulative without a tree
 output aborted in debug mode where the mesh has a tree table

---
 src/p4est_mesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p4est_mesh.c b/src/p4est_mesh.c
index c5b2791..740450f 100644
--- a/src/p4est_mesh.c
+++ b/src/p4est_mesh.c
@@ -2164,7 +2164,7 @@ p4est_mesh_quadrant_cumulative (p4est_t * p4est, p4est_mesh_t * mesh,
   p4est_locidx_t      quadrant_id;
   p4est_quadrant_t   *quadrant;
 #ifdef P4EST_ENABLE_DEBUG
-  p4est_topidx_t      dwhich_tree;
+  p4est_topidx_t      dwhich_tree = -1;
   p4est_locidx_t      dquadrant_id;
   p4est_quadrant_t   *dquadrant;
 #endif
-- 
2.43.0


From e638f692470d84d9423b9fee69b2487c97bb3736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:38 +0000
Subject: [PATCH 63/65] fix: the communicator functions of p6est left its
 columns with the previous, possibly freed communicator

---
 src/p6est.c               |  3 +++
 src/p6est_communication.c | 13 +++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/p6est.c b/src/p6est.c
index f9a4689..3c8bc4e 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -428,6 +428,7 @@ p6est_new_ext (sc_MPI_Comm mpicomm, p6est_connectivity_t * connectivity,
   p6est->layers = layers;
   p6est->user_data_pool = user_data_pool;
   p6est->root_len = num_zroot * P4EST_QUADRANT_LEN (log_zroot);
+  p6est->columns = NULL;
 
   p6est_comm_parallel_env_assign (p6est, mpicomm);
   mpicomm = p6est->mpicomm;
@@ -574,6 +575,7 @@ p6est_destroy (p6est_t * p6est)
 
   if (p6est->columns) {
     p4est_destroy (p6est->columns);
+    p6est->columns = NULL;
   }
   if (p6est->user_data_pool != NULL) {
     sc_mempool_destroy (p6est->user_data_pool);
@@ -597,6 +599,7 @@ p6est_copy_ext (p6est_t * input, int copy_data, int duplicate_comm)
   size_t              zz, qcount = input->layers->elem_count;
 
   memcpy (p6est, input, sizeof (p6est_t));
+  p6est->columns = NULL;
 
   /* set parallel environment */
   p6est_comm_parallel_env_assign (p6est, input->mpicomm);
diff --git a/src/p6est_communication.c b/src/p6est_communication.c
index bb9e4f2..ea5857f 100644
--- a/src/p6est_communication.c
+++ b/src/p6est_communication.c
@@ -34,6 +34,11 @@ p6est_comm_parallel_env_assign (p6est_t * p6est, sc_MPI_Comm mpicomm)
 
   /* retrieve MPI information */
   p6est_comm_parallel_env_get_info (p6est);
+
+  /* the columns use the same communicator unless they own another one */
+  if (p6est->columns != NULL && !p6est->columns->mpicomm_owned) {
+    p4est_comm_parallel_env_assign (p6est->columns, mpicomm);
+  }
 }
 
 void
@@ -46,6 +51,9 @@ p6est_comm_parallel_env_duplicate (p6est_t * p6est)
   mpiret = sc_MPI_Comm_dup (mpicomm, &(p6est->mpicomm));
   SC_CHECK_MPI (mpiret);
   p6est->mpicomm_owned = 1;
+  if (p6est->columns != NULL && !p6est->columns->mpicomm_owned) {
+    p4est_comm_parallel_env_assign (p6est->columns, p6est->mpicomm);
+  }
 }
 
 void
@@ -53,6 +61,11 @@ p6est_comm_parallel_env_release (p6est_t * p6est)
 {
   int                 mpiret;
 
+  /* the columns do not keep a communicator that they do not own */
+  if (p6est->columns != NULL && !p6est->columns->mpicomm_owned) {
+    p4est_comm_parallel_env_release (p6est->columns);
+  }
+
   /* free MPI communicator if it's owned */
   if (p6est->mpicomm_owned) {
     mpiret = sc_MPI_Comm_free (&(p6est->mpicomm));
-- 
2.43.0


From 644f521d01b7fb610e77faf7e660a54c06f8e061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:38 +0000
Subject: [PATCH 64/65] fix: p8est_get_plex_data took a boundary face for a
 neighbor and misread the owner of a tree edge that touches its tree twice

---
 src/p4est_plex.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/p4est_plex.c b/src/p4est_plex.c
index a445e53..a4170d0 100644
--- a/src/p4est_plex.c
+++ b/src/p4est_plex.c
@@ -460,6 +460,10 @@ fill_orientations (p4est_quadrant_t * q, p4est_topidx_t t,
           nf = conn->tree_to_face[P4EST_FACES * t + f];
           fo = nf / P8EST_FACES;
           nf = nf % P8EST_FACES;
+          if (nt == t && nf == f) {
+            /* this face is on the boundary: no neighbor across it */
+            continue;
+          }
 
           ref = p8est_face_permutation_refs[f][nf];
           set = p8est_face_permutation_sets[ref][fo];
@@ -476,7 +480,7 @@ fill_orientations (p4est_quadrant_t * q, p4est_topidx_t t,
           P4EST_ASSERT (ne >= 0);
           if (nt < ownt || (nt == ownt && ne < owne)) {
             ownt = nt;
-            owne = e;
+            owne = ne;
             o = (cid[0] < cid[1]) ? 0 : 1;
           }
         }
-- 
2.43.0


From e441cdcab7453a5296929a8e1129dce0573f97fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:33 +0000
Subject: [PATCH 65/65] fix: lnodes could not represent 128 or more processes
 that share a node

---
 src/p4est_lnodes.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/p4est_lnodes.c b/src/p4est_lnodes.c
index d4482c1..7d140d2 100644
--- a/src/p4est_lnodes.c
+++ b/src/p4est_lnodes.c
@@ -116,7 +116,7 @@ typedef struct p4est_lnodes_buf_info
                                            the message */
   p4est_locidx_t      first_index;      /* inodes array, first node to/from */
   p4est_locidx_t      share_offset;
-  int8_t              share_count;
+  int                 share_count;
 }
 p4est_lnodes_buf_info_t;
 
@@ -485,13 +485,13 @@ p4est_lnodes_push_binfo (sc_array_t * touch, sc_array_t * all,
   size_t              zz, count = all->elem_count;
   int                *ip, proc;
   p4est_lnodes_buf_info_t *binfo;
-  int8_t              scount = -1;
+  int                 scount = -1;
   p4est_locidx_t      offset = (p4est_locidx_t) share->elem_count;
 
   if (!is_remote) {
     ip = (int *) sc_array_push (share);
     *ip = rank;
-    scount = (int8_t) (count + 1);
+    scount = (int) (count + 1);
   }
   for (zz = 0; zz < count; zz++) {
     proc = *((int *) sc_array_index (all, zz));
@@ -2258,7 +2258,7 @@ p4est_lnodes_recv (p4est_t * p4est, p4est_lnodes_data_t * data,
         P4EST_ASSERT (share_count > 0);
         P4EST_ASSERT (binfo->share_count == -1);
         P4EST_ASSERT (binfo->share_offset == -1);
-        binfo->share_count = (int8_t) share_count;
+        binfo->share_count = share_count;
         binfo->share_offset = (p4est_locidx_t) inode_sharers->elem_count;
         ip = (int *) sc_array_push_count (inode_sharers, share_count);
         for (k = 0; k < share_count; k++) {
-- 
2.43.0

