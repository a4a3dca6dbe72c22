From 0cbf50fb79ad503ddae4d87eaa516db054ce3d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:57 +0000
Subject: [PATCH 01/51] fix: allocate the n+1 entries of the w-partition
 pointer in the LBC routines

---
 src/lbc_blocked.cpp | 2 +-
 src/lbc_csc.cpp     | 2 +-
 src/lbc_csc_dag.cpp | 4 ++--
 src/lbc_tree.cpp    | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index 8b009f4..a325f2c 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -44,7 +44,7 @@ namespace sym_lib {
   int clusterCnt = 0;
   int originalHeight = 0;
   finaLevelPtr = new int[n + 1];
-  finalPartPtr = new int[n]();
+  finalPartPtr = new int[n + 1]();
   finalNodePtr = new int[n];
   int *inDegree = new int[n];
   finaLevelPtr[0] = 0;
diff --git a/src/lbc_csc.cpp b/src/lbc_csc.cpp
index 0213797..9d5a4fd 100644
--- a/src/lbc_csc.cpp
+++ b/src/lbc_csc.cpp
@@ -37,7 +37,7 @@ namespace sym_lib {
   std::vector<std::vector<int>> newLeveledParList, mergedLeveledParList;
   int originalHeight = 0;
   finaLevelPtr = new int[n + 1];
-  finalPartPtr = new int[n]();
+  finalPartPtr = new int[n + 1]();
   finalNodePtr = new int[n];
 
   finaLevelPtr[0] = 0;
diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 8361691..6ced3aa 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -334,7 +334,7 @@ int get_coarse_Level_set_DAG_CSC03_parallel(
  int clusterCnt = 0;
  int originalHeight = 0;
  finaLevelPtr = new int[n + 1];
- finalPartPtr = new int[n]();
+ finalPartPtr = new int[n + 1]();
  finalNodePtr = new int[n];
  finaLevelPtr[0] = 0;
 
@@ -419,7 +419,7 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
  int clusterCnt = 0;
  int originalHeight = 0;
  finaLevelPtr = new int[n + 1];
- finalPartPtr = new int[n]();
+ finalPartPtr = new int[n + 1]();
  finalNodePtr = new int[n];
  int *inDegree = new int[n];
  finaLevelPtr[0] = 0;
diff --git a/src/lbc_tree.cpp b/src/lbc_tree.cpp
index fc8552a..41ade6b 100644
--- a/src/lbc_tree.cpp
+++ b/src/lbc_tree.cpp
@@ -18,7 +18,7 @@ namespace sym_lib {
                               int minLevelDist,
                               int divRate,
                               double *nodeCost) {
-  finalPartPtr = new int[n]();
+  finalPartPtr = new int[n + 1]();
   finalNodePtr = new int[n];
 //  auto *nodeColWidth = new int[n]();
   partNo = 0;
-- 
2.43.0


From f98066123521991ad7548ec80f222c75f59b25f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:57 +0000
Subject: [PATCH 02/51] fix: a DAG whose level count equals its node count is
 not a cycle in build_levelSet_CSC

---
 src/hdagg/hdagg.cpp        | 2 +-
 utils/sparse_inspector.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index b46dfd8..8ddd307 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -40,7 +40,7 @@ namespace HDAGG
             }
             cur_level++; //all nodes_ with zero indegree are processed.
             //assert(cur_level < n);
-            if (cur_level >= n)
+            if (cur_level > n)
                 return -1; // The input graph has a cycle
                 levelPtr[cur_level] = cur_levelCol; // The levelPtr starts from level 1. Behrooz
                 while (inDegree[begin] == 1) // Why? Behrooz
diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index 90dc525..caf3ef6 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -34,7 +34,7 @@ namespace sym_lib {
    }
    cur_level++;//all nodes_ with zero indegree are processed.
    //assert(cur_level < n);
-   if (cur_level >= n)
+   if (cur_level > n)
     return -1; // The input graph has a cycle
    levelPtr[cur_level] = cur_levelCol;
    while (inDegree[begin] == 1) {
@@ -981,7 +981,7 @@ namespace sym_lib {
      }
      cur_level++; //all nodes_ with zero indegree are processed.
      //assert(cur_level < n);
-     if (cur_level >= n)
+     if (cur_level > n)
        return -1; // The input graph has a cycle
      levelPtr[cur_level] = cur_levelCol; // The levelPtr starts from level 1. Behrooz
      while (inDegree[begin] == 1) // Why? Behrooz
-- 
2.43.0


From 2427bde902ee0ccd69e36114ff0f87309ae63d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:07 +0000
Subject: [PATCH 03/51] fix: the last l-partition ends at the last level
 instead of one past it

---
 src/lbc_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lbc_utils.cpp b/src/lbc_utils.cpp
index 4b97bb0..30d71a8 100644
--- a/src/lbc_utils.cpp
+++ b/src/lbc_utils.cpp
@@ -253,7 +253,7 @@ namespace sym_lib{
    partition2Level[++lClusterCnt] = tmp;
    tmp += divRate;
   }
-  partition2Level[++lClusterCnt] = originalHeight + 1;
+  partition2Level[++lClusterCnt] = originalHeight;
   innerPartsSize.push_back(1);//The last partition has one element TODO is this true??
   delete[]accuSlackGroups;
   return lClusterCnt;
@@ -312,7 +312,7 @@ namespace sym_lib{
     }
    }
    if (f_spart){
-       partition2Level[++lClusterCnt] = originalHeight + 1;
+       partition2Level[++lClusterCnt] = originalHeight;
        innerPartsSize.push_back(1);//The last partition has one element
    }
   } else {
@@ -336,7 +336,7 @@ namespace sym_lib{
     preLevelCut = levelCut;
     levelCut = 0; // starting from the root
    }
-   partition2Level[++lClusterCnt] = originalHeight + 1;
+   partition2Level[++lClusterCnt] = originalHeight;
    innerPartsSize.push_back(1);//The last partition has one element
   }
   delete[]accuSlackGroups;
-- 
2.43.0


From 5cc2cf81c999b45e1269fb61d91a79cabf554273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:26 +0000
Subject: [PATCH 04/51] fix: set the partNo output of the CSC, CSC03 and BCSC
 LBC routines

---
 src/lbc_blocked.cpp | 1 +
 src/lbc_csc.cpp     | 1 +
 src/lbc_csc_dag.cpp | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index a325f2c..ee67eba 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -260,6 +260,7 @@ namespace sym_lib {
   }
 
   finaLevelNo = lClusterCnt;
+  partNo = finaLevelPtr[finaLevelNo];
   if (true) {//Verification of the set.
    bool *checkExist = new bool[n];
    for (int i = 0; i < n; ++i) checkExist[i] = false;
diff --git a/src/lbc_csc.cpp b/src/lbc_csc.cpp
index 9d5a4fd..0c88502 100644
--- a/src/lbc_csc.cpp
+++ b/src/lbc_csc.cpp
@@ -261,6 +261,7 @@ namespace sym_lib {
   }
 
   finaLevelNo = lClusterCnt;
+  partNo = finaLevelPtr[finaLevelNo];
 #ifdef CHECK
   if (true) {//Verification of the set.
       bool *checkExist = new bool[n];
diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 6ced3aa..f63dacf 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -372,6 +372,7 @@ int get_coarse_Level_set_DAG_CSC03_parallel(
                           levelPtr, levelSet, numThreads, binPacking);
 
  finaLevelNo = lClusterCnt;
+ partNo = finaLevelPtr[finaLevelNo];
  if (true) { // Verification of the set.
   bool *checkExist = new bool[n];
   for (int i = 0; i < n; ++i)
@@ -650,6 +651,7 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
  }
 
  finaLevelNo = lClusterCnt;
+ partNo = finaLevelPtr[finaLevelNo];
  //  std::cout<<tt_ts<<",";
  if (true) { // Verification of the set.
   bool *checkExist = new bool[n];
-- 
2.43.0


From 78651c62b4c76ed2d0b11916832cc521a92c5875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:22 +0000
Subject: [PATCH 05/51] fix: build_levelSet_BCSC stops at the last block
 instead of reading past the in-degree array

---
 utils/sparse_inspector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index caf3ef6..eecb8f8 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -160,7 +160,7 @@ namespace sym_lib {
    assert((size_t) cur_levelCol >= 0);
    assert((size_t) cur_level <= blockNo);
    levelPtr[cur_level] = cur_levelCol;
-   while (inDegree[begin] == 1)
+   while (begin <= end && inDegree[begin] == 1)
     begin++;
    while (inDegree[end] == 1 && begin <= end)
     end--;
-- 
2.43.0


From e44fe9aa5baf3f6d46e15ab1bddd9c1a302cdbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:58 +0000
Subject: [PATCH 06/51] fix: partialSparsification without OpenMP works on
 columns 0..n instead of n..2n

---
 src/hdagg/hdagg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 8ddd307..61438f1 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -2038,7 +2038,7 @@ namespace HDAGG
           int tid = omp_get_thread_num();
 #else
           int bins =1;
-       int tid=1;
+       int tid=0;
 #endif
                 int start_col = (n / bins) * tid;
                 int end_col = (n / bins) * (tid + 1);
-- 
2.43.0


From 5d58e4a48c514bbc97cc7b0512249d858d6ca91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:58 +0000
Subject: [PATCH 07/51] fix: computePostOrder does not read the top of an empty
 stack

---
 src/hdagg/hdagg.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 61438f1..3876464 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -114,7 +114,9 @@ namespace HDAGG
                     post_order[n - 1 - order_cnt] = stack.back();
                     order_cnt++;
                     stack.pop_back();
-                    head = stack.back();
+                    if(!stack.empty()){
+                        head = stack.back();
+                    }
                 }
             }
         }
@@ -257,7 +259,9 @@ namespace HDAGG
                     post_order[n - 1 - order_cnt] = stack.back();
                     order_cnt++;
                     stack.pop_back();
-                    head = stack.back();
+                    if(!stack.empty()){
+                        head = stack.back();
+                    }
                 }
             }
         }
-- 
2.43.0


From e8dad8d66af33368dc0eeea53909200043f545b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:02 +0000
Subject: [PATCH 08/51] fix: HDAGG and GLC_V2 fall back to the serial level set
 when SpMP is not available

---
 src/hdagg/hdagg.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 3876464..df3959c 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -629,8 +629,8 @@ namespace HDAGG
         std::vector<int> node_to_level(n, 0);
         int nlevels;
 
-        if(parallelLevelset){
 #ifdef SpMP
+        if(parallelLevelset){
             //Create the CSC version of the codeto use make_full and csc_to_csr codes
             CSC* Lower_A_CSC = new CSC(n, n, nnz);
             std::copy(DAG_ptr, DAG_ptr + n + 1, Lower_A_CSC->p);
@@ -652,8 +652,9 @@ namespace HDAGG
             delete tmp;
             delete A;
             delete CSR_A;
+        } else
 #endif
-        } else {
+        {
             //Create the Levelset and compute node_to_level
             level_ptr.resize(n + 1);
             level_set.resize(n);
@@ -843,8 +844,8 @@ namespace HDAGG
         std::vector<int> node_to_level(n, 0);
         int nlevels;
 
-        if(parallelLevelset){
 #ifdef SPMP
+        if(parallelLevelset){
             std::cerr << "Parallel levelset is still under construction" << std::endl;
             //Create the CSC version of the codeto use make_full and csc_to_csr codes
             sym_lib::CSC* Lower_A_CSC = new sym_lib::CSC(n, n, nnz);
@@ -867,8 +868,9 @@ namespace HDAGG
             delete tmp;
             delete A;
             delete CSR_A;
+        } else
 #endif
-        } else {
+        {
             //Create the Levelset and compute node_to_level
             level_ptr.resize(n + 1);
             level_set.resize(n);
-- 
2.43.0


From 31344ca0e1f3dc03dd8f0ddd0e347425bf87c9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:46 +0000
Subject: [PATCH 09/51] fix: computePostOrderAndGroup does not read the child
 of a node that has none

---
 src/hdagg/hdagg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index df3959c..c2e4129 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -136,7 +136,7 @@ namespace HDAGG
             if(i < n - 1){
                 next = post_order[i + 1];
                 in_edges = in_degree[next];
-                child = DAG_set[DAG_ptr[curr] + 1];//TODO: Ugly coding
+                child = DAG_ptr[curr] + 1 < DAG_ptr[curr + 1] ? DAG_set[DAG_ptr[curr] + 1] : -1;//TODO: Ugly coding
             } else {
                 in_edges = 1;
                 child = next;
-- 
2.43.0


From e797c85861ee21431221e52b5138433d8ea29bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:44 +0000
Subject: [PATCH 10/51] fix: costComputation sizes the cost vector when the
 caller passes an empty one

---
 src/hdagg/hdagg.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index c2e4129..9276e61 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -2266,10 +2266,7 @@ namespace HDAGG
     void costComputation(int nodes, const int* CSC_Lp, const int* CSC_Li, const int* CSR_Lp, const int* CSR_Li,
                          Kernel kernel, const int* group_ptr, const int* group_set, bool grouped,
                          std::vector<double>& cost){
-        if(!cost.empty()){
-            cost.clear();
-            cost.resize(nodes, 0);
-        }
+        cost.assign(nodes, 0);
         if(kernel == SpTrSv_LL || kernel == SpTrSv_RL){
             const int* Lp;
             if(kernel == SpTrSv_LL){
-- 
2.43.0


From 51a67d9c0af7264b61327ae83387c4737a9ec2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:53 +0000
Subject: [PATCH 11/51] fix: computeNoneZeroPatternOfRowK unmarks row k instead
 of an uninitialised index

---
 src/hdagg/hdagg.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 9276e61..55c4d6f 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -1344,11 +1344,10 @@ namespace HDAGG
             }
             while(len > 0) s[--top] = s[--len];
         }
+        s[n - 1] = k;
         for(int p = top; p < n; p++){
             w[s[p]] = false;
         }
-        w[k] = false;
-        s[n - 1] = k;
         return top;
     }
 
-- 
2.43.0


From 38431501cc887231729eb8b2fa0538acaacb35ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:08 +0000
Subject: [PATCH 12/51] fix: the executors' statistics use cost slot 0 without
 OpenMP and release it

---
 example/sptrsv_src/executor.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/example/sptrsv_src/executor.cpp b/example/sptrsv_src/executor.cpp
index a15fce1..f4855ed 100644
--- a/example/sptrsv_src/executor.cpp
+++ b/example/sptrsv_src/executor.cpp
@@ -112,10 +112,10 @@ namespace sym_lib
 #else
      int len = 1;
 #endif
+     if (!Lp || !Li ) return ;
      int *cost = (int *)malloc(sizeof(int)*len);
      memset(cost, 0, sizeof(int)*len);
 
-     if (!Lp || !Li ) return ;
 //#pragma omp parallel
      {
       for (int l = 0; l < levels; ++l) {
@@ -124,7 +124,7 @@ namespace sym_lib
 #ifdef ENABLE_OPENMP
         int tidx = omp_get_thread_num();
 #else
-        int tidx = 1;
+        int tidx = 0;
 #endif
         int t_cost=0;
         int lidx = levelSet[li];
@@ -160,6 +160,7 @@ namespace sym_lib
        memset(cost, 0, len*sizeof(int));
       }
      };
+     free(cost);
     }
 
     void sptrsv_csr_lbc_stat(int n, int *Lp, int *Li,
@@ -180,7 +181,7 @@ namespace sym_lib
 #ifdef ENABLE_OPENMP
         int tidx = omp_get_thread_num();
 #else
-        int tidx = 1;
+        int tidx = 0;
 #endif
         for (int k1 = par_ptr[j1]; k1 < par_ptr[j1 + 1]; ++k1) {
          int i = partition[k1];
@@ -232,7 +233,7 @@ namespace sym_lib
 #ifdef ENABLE_OPENMP
         int tidx = omp_get_thread_num();
 #else
-        int tidx = 1;
+        int tidx = 0;
 #endif
 
         for (int k1 = par_ptr[j1]; k1 < par_ptr[j1 + 1]; ++k1) {
-- 
2.43.0


From 18323c0df610164fa3031bc1d8ddd8320a51c0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:57 +0000
Subject: [PATCH 13/51] fix: cliques found by one thread of
 partialSparsification stay within its columns (data race)

---
 src/hdagg/hdagg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 55c4d6f..59915a9 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -2057,7 +2057,7 @@ namespace HDAGG
                     int width = 1;
                     int first = col;
                     int last = col + 1;
-                    while (last < n && width < limit) {
+                    while (last < end_col && width < limit) {
                         int diff = last - first;
                         // compare number of off diagonals
                         int off_last  = Lp[last + 1] - Lp[last];
-- 
2.43.0


From b0bee95d5d7095d8340b72f6ec914007a5543766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:49 +0000
Subject: [PATCH 14/51] fix: blocked LBC merges every overlapping component and
 keeps its labels in range

---
 src/lbc_blocked.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index ee67eba..f7d26b2 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -124,8 +124,10 @@ namespace sym_lib {
 
      isCC = needAliased.size() == 0;
      if (!isCC) {//There are some intersection between found CCs.
-      for (int j = 1; j < needAliased.size(); ++j) {//the first is min
+      for (int j = 0; j < needAliased.size(); ++j) {//any of them can be min
        int tn = node2partition[needAliased[j]];
+       if (tn == minAliasedPar)
+        continue;
        for (int i = 0; i < n; ++i) {
         //Replace all needAliased node with their min part number.
         if (node2partition[i] == tn) {
@@ -133,7 +135,6 @@ namespace sym_lib {
         }
        }
       }
-      cc -= (needAliased.size() - 1);//TODO not sure
       needAliased.erase(needAliased.begin(), needAliased.end());
       //Set the nodes in the current cluster
       for (int i = stackStart; i < n; ++i) {
-- 
2.43.0


From 005cbfe94924cd0a33e8585fbfb2561147ab6613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:22 +0000
Subject: [PATCH 15/51] Revert "fix: the executors' statistics use cost slot 0
 without OpenMP and release it"

This reverts commit 38431501cc887231729eb8b2fa0538acaacb35ca.
---
 example/sptrsv_src/executor.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/example/sptrsv_src/executor.cpp b/example/sptrsv_src/executor.cpp
index f4855ed..a15fce1 100644
--- a/example/sptrsv_src/executor.cpp
+++ b/example/sptrsv_src/executor.cpp
@@ -112,10 +112,10 @@ namespace sym_lib
 #else
      int len = 1;
 #endif
-     if (!Lp || !Li ) return ;
      int *cost = (int *)malloc(sizeof(int)*len);
      memset(cost, 0, sizeof(int)*len);
 
+     if (!Lp || !Li ) return ;
 //#pragma omp parallel
      {
       for (int l = 0; l < levels; ++l) {
@@ -124,7 +124,7 @@ namespace sym_lib
 #ifdef ENABLE_OPENMP
         int tidx = omp_get_thread_num();
 #else
-        int tidx = 0;
+        int tidx = 1;
 #endif
         int t_cost=0;
         int lidx = levelSet[li];
@@ -160,7 +160,6 @@ namespace sym_lib
        memset(cost, 0, len*sizeof(int));
       }
      };
-     free(cost);
     }
 
     void sptrsv_csr_lbc_stat(int n, int *Lp, int *Li,
@@ -181,7 +180,7 @@ namespace sym_lib
 #ifdef ENABLE_OPENMP
         int tidx = omp_get_thread_num();
 #else
-        int tidx = 0;
+        int tidx = 1;
 #endif
         for (int k1 = par_ptr[j1]; k1 < par_ptr[j1 + 1]; ++k1) {
          int i = partition[k1];
@@ -233,7 +232,7 @@ namespace sym_lib
 #ifdef ENABLE_OPENMP
         int tidx = omp_get_thread_num();
 #else
-        int tidx = 0;
+        int tidx = 1;
 #endif
 
         for (int k1 = par_ptr[j1]; k1 < par_ptr[j1 + 1]; ++k1) {
-- 
2.43.0


From b9314dbe8c8dd1dcf54a7c2a4509810f3f533bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:53 +0000
Subject: [PATCH 16/51] fix: csr_to_csc keeps the dimensions of rectangular
 matrices and accepts patterns

---
 utils/sparse_utilities.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 002a33d..f5a7b50 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -38,7 +38,7 @@ namespace sym_lib {
      rowptr[nrow] = nnz;
 
      colind = new int[nnz]();
-     values = new double[nnz]();
+     values = Ax != NULLPNTR ? new double[nnz]() : NULLPNTR;
 
      memset(rowCnt, 0, sizeof(int) * nrow);
      for (int i = 0; i < ncol; i++) {
@@ -46,7 +46,8 @@ namespace sym_lib {
        int row = Ai[j];
        int index = rowptr[row] + rowCnt[row];
        colind[index] = i;
-       values[index] = Ax[j];
+       if(Ax != NULLPNTR)
+        values[index] = Ax[j];
        rowCnt[row]++;
       }
      }
@@ -108,8 +109,8 @@ namespace sym_lib {
     CSC* csr_to_csc(CSR *A) {
      CSC *B = new CSC(A->m,A->n,A->nnz,NULLPNTR,NULLPNTR,A->stype);
      B->pre_alloc = false;
-     B->is_pattern = false;
-     int st = csc_to_csr(A->m, A->n, A->p, A->i, A->x, B->p, B->i, B->x);
+     B->is_pattern = A->is_pattern;
+     int st = csc_to_csr(A->n, A->m, A->p, A->i, A->x, B->p, B->i, B->x);
      B->nnz = B->p[B->n];
      return B;
     }
-- 
2.43.0


From a03ce0e673d625762b3e0298be247451a1f29112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:53 +0000
Subject: [PATCH 17/51] fix: copy_sparse copies pattern matrices

---
 utils/sparse_utilities.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index f5a7b50..bb93ed5 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -505,13 +505,14 @@ namespace sym_lib {
 
 
     CSC *copy_sparse(CSC *A){
-     CSC *clone = new CSC(A->m,A->n,A->nnz);
+     CSC *clone = new CSC(A->m,A->n,A->nnz,A->is_pattern);
      for (int i = 0; i < A->n+1; ++i) {
       clone->p[i] = A->p[i];
      }
      for (int j = 0; j < A->nnz; ++j) {
       clone->i[j] = A->i[j];
-      clone->x[j] = A->x[j];
+      if(!A->is_pattern)
+       clone->x[j] = A->x[j];
      }
      clone->stype = A->stype;
      return clone;
-- 
2.43.0


From 46b3136063f40e6f8d12c75eede0405973efd476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:53 +0000
Subject: [PATCH 18/51] fix: copy_from_to copies the pointers of its source,
 not its own

---
 utils/sparse_utilities.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index bb93ed5..604a4ae 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -520,22 +520,26 @@ namespace sym_lib {
 
     void copy_from_to(CSR *src, CSR *dst){
      for (int i = 0; i < src->m; ++i) {
-      dst->p[i] = dst->p[i];
+      dst->p[i] = src->p[i];
       for (int j = src->p[i]; j < src->p[i + 1]; ++j) {
        dst->i[j] = src->i[j];
-       dst->x[j] = src->x[j];
+       if(!src->is_pattern)
+        dst->x[j] = src->x[j];
       }
      }
+     dst->p[src->m] = src->p[src->m];
     }
 
     void copy_from_to(CSC *src, CSC *dst){
      for (int i = 0; i < src->n; ++i) {
-      dst->p[i] = dst->p[i];
+      dst->p[i] = src->p[i];
       for (int j = src->p[i]; j < src->p[i + 1]; ++j) {
        dst->i[j] = src->i[j];
-       dst->x[j] = src->x[j];
+       if(!src->is_pattern)
+        dst->x[j] = src->x[j];
       }
      }
+     dst->p[src->n] = src->p[src->n];
     }
 
     void copy_vector_dense(size_t beg, size_t end, const double *src, double *dst) {
-- 
2.43.0


From 7ed98b24a4369a5c82ff6ca5049ab00d139b3e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:53 +0000
Subject: [PATCH 19/51] fix: make_half marks an upper half as upper

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 604a4ae..b862ec5 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -223,7 +223,7 @@ namespace sym_lib {
       }
       Bp[i+1] = nnz_cnt;
      }
-     B->stype = -1;
+     B->stype = lower ? -1 : 1;
      return B;
     }
 
-- 
2.43.0


From 769c4365d20cb4f963549ead2123de84350b38f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:53 +0000
Subject: [PATCH 20/51] fix: make_full accepts pattern matrices

---
 utils/sparse_utilities.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index b862ec5..dbfcb3c 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -233,7 +233,7 @@ namespace sym_lib {
       return nullptr;
      }
 
-     CSC *Afull = new CSC(A->m, A->n, A->nnz * 2 );
+     CSC *Afull = new CSC(A->m, A->n, A->nnz * 2, A->is_pattern);
      auto ind = new int[A->n]();
 
      for(size_t i = 0; i < A->n; i++) {
@@ -255,12 +255,14 @@ namespace sym_lib {
        int row = A->i[p];
        int index = Afull->p[i] + ind[i];
        Afull->i[index] = row;
-       Afull->x[index] = A->x[p];
+       if(!A->is_pattern)
+        Afull->x[index] = A->x[p];
        ind[i]++;
        if(row != i) {
         index = Afull->p[row] + ind[row];
         Afull->i[index] = i;
-        Afull->x[index] = A->x[p];
+        if(!A->is_pattern)
+         Afull->x[index] = A->x[p];
         ind[row]++;
        }
       }
-- 
2.43.0


From 02d78405d8590074a751d40e678f63da948dbccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:53 +0000
Subject: [PATCH 21/51] fix: transpose_symmetric refuses the permutation index
 n and frees its work space when it refuses

---
 utils/sparse_utilities.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index dbfcb3c..51cb934 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -309,7 +309,9 @@ namespace sym_lib {
       }
       for (k = 0; k < n; k++) {
        i = Perm[k];
-       if (i < 0 || i > n || Pinv[i] != EMPTY) {
+       if (i < 0 || i >= n || Pinv[i] != EMPTY) {
+        delete []Iwork;
+        delete F;
         return NULLPNTR;
        }
        Pinv[i] = k;
-- 
2.43.0


From d4a520c96f602c7c41cff6c830116006672f8247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:53 +0000
Subject: [PATCH 22/51] fix: tridiag of a 1x1 matrix stays inside its arrays
 and owns its values

---
 utils/sparse_utilities.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 51cb934..33c2a8f 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -117,13 +117,16 @@ namespace sym_lib {
 
     CSC *tridiag(int n, double a0, double a1, double a2) {
      CSC *A = new CSC(n, n, 3 * n - 2);
-     A->is_pattern = true;
      A->stype = -1;
 
      int ind = 0;
      A->p[0] = 0;
      for(int i = 0; i < n; i++) {
-      if(i == 0 || i == n-1) {
+      if(n == 1) {
+       A->p[1] = 1;
+       A->i[0] = 0;
+       A->x[0] = a1;
+      } else if(i == 0 || i == n-1) {
        A->p[i+1] = A->p[i] + 2;
        if(i == 0) {
         A->i[ind] = i;
-- 
2.43.0


From 93e3f4f019a12929f16352c678a34b9f986334b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:53 +0000
Subject: [PATCH 23/51] fix: add of a pattern and a valued matrix is a pattern

---
 utils/sparse_utilities.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 33c2a8f..fea58b8 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -1111,7 +1111,6 @@ int post_order_spliting(int inSize, int *inTree, double *inCost,
      x = !values ? new double[m]() : NULLPNTR;
      CSC *C = new CSC(m,n,anz+bnz,values);
      C->stype = A->stype;
-     C->is_pattern = A->is_pattern;
      Cp = C->p ; Ci = C->i ; Cx = C->x ;
      for (j = 0 ; j < n ; j++){
       Cp [j] = nz ;                   /* column j of C starts here */
-- 
2.43.0


From d5237809ecc6fb0ba159e95194fd0eb318b12183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:39 +0000
Subject: [PATCH 24/51] fix: LBC packs w-partitions by the costs of the current
 level (stale bins and merged components unbalanced them)

---
 src/lbc_blocked.cpp |  7 +++++++
 src/lbc_csc.cpp     |  6 ++++++
 src/lbc_csc_dag.cpp | 10 ++++++++++
 src/lbc_tree.cpp    |  1 +
 4 files changed, 24 insertions(+)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index f7d26b2..bfc32e7 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -7,6 +7,7 @@
 
 
 
+#include <algorithm>
 #include "aggregation/sparse_utilities.h"
 #include "aggregation/sparse_inspector.h"
 #include "aggregation/lbc_utils.h"
@@ -92,6 +93,9 @@ namespace sym_lib {
    int ubLevel = partition2Level[l + 1];
    int dfsLevel = partition2Level[l];
    int curLeveledParCost = 0;
+   //Costs of the components and bins of this leveled partition
+   std::fill_n(outCost, n, 0.0);
+   std::fill_n(newOutCost, n, 0.0);
    //Marking lower bound
    // FIXME: we might need to do all levels below for general DAG
    for (int j = levelPtr[lbLevel > 0 ? lbLevel : 0];
@@ -128,6 +132,9 @@ namespace sym_lib {
        int tn = node2partition[needAliased[j]];
        if (tn == minAliasedPar)
         continue;
+       //the merged component takes over the cost
+       outCost[minAliasedPar] += outCost[tn];
+       outCost[tn] = 0.0;
        for (int i = 0; i < n; ++i) {
         //Replace all needAliased node with their min part number.
         if (node2partition[i] == tn) {
diff --git a/src/lbc_csc.cpp b/src/lbc_csc.cpp
index 0c88502..b3f4ed3 100644
--- a/src/lbc_csc.cpp
+++ b/src/lbc_csc.cpp
@@ -96,6 +96,9 @@ namespace sym_lib {
    int ubLevel = partition2Level[l + 1];
    int dfsLevel = partition2Level[l];
    int curLeveledParCost = 0;
+   //Costs of the components and bins of this leveled partition
+   std::fill_n(outCost, n, 0.0);
+   std::fill_n(newOutCost, n, 0.0);
    //Marking lower bound
 
    // FIXME: we might need to do all levels below for general DAG
@@ -135,6 +138,9 @@ namespace sym_lib {
        int tn = node2partition[j];
        if (tn != minAliasedPar) {
        // cc--;
+        //the merged component takes over the cost
+        outCost[minAliasedPar] += outCost[tn];
+        outCost[tn] = 0.0;
         for (int i = 0; i < n; ++i) {
          // Replace all needAliased node with their min part number.
          if (node2partition[i] == tn) {
diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index f63dacf..4d45d30 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -3,6 +3,7 @@
 //
 
 #include "aggregation/lbc_utils.h"
+#include <algorithm>
 #include <cstring>
 #ifdef ENABLE_OPENMP
 #include <omp.h>
@@ -98,6 +99,9 @@ void process_l_partition(
  std::vector<std::vector<std::vector<int>>> &mergedLeveledParListByL,
  bool binPacking, int numThreadsForCC, int &totalCC) {
  memset(inDegree, 0, n * sizeof(int));
+ // Costs of the components and bins of this leveled partition
+ std::fill_n(outCost, n, 0.0);
+ std::fill_n(newOutCost, n, 0.0);
 
  int lbLevel = partition2Level[l] - 1;
  int ubLevel = partition2Level[l + 1];
@@ -471,6 +475,9 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
   int ubLevel = partition2Level[l + 1];
   int dfsLevel = partition2Level[l];
   int curLeveledParCost = 0;
+  // Costs of the components and bins of this leveled partition
+  std::fill_n(outCost, n, 0.0);
+  std::fill_n(newOutCost, n, 0.0);
   // Marking lower bound
   // FIXME: we might need to do all levels below for general DAG
   for (int j = levelPtr[lbLevel > 0 ? lbLevel : 0]; j < levelPtr[lbLevel + 1];
@@ -506,6 +513,9 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
       int tn = node2partition[needAliased[j]];
       if (tn != minAliasedPar) {
        //        cc--;
+       // the merged component takes over the cost
+       outCost[minAliasedPar] += outCost[tn];
+       outCost[tn] = 0.0;
        for (int i = 0; i < n; ++i) {
         // Replace all needAliased node with their min part number.
         if (node2partition[i] == tn) {
diff --git a/src/lbc_tree.cpp b/src/lbc_tree.cpp
index 41ade6b..701ec0a 100644
--- a/src/lbc_tree.cpp
+++ b/src/lbc_tree.cpp
@@ -263,6 +263,7 @@ namespace sym_lib {
    for (int k = 0; k < n; ++k) {
     outNode2Par[k] = 0;
     outCost[k] = 0;
+    newOutCost[k] = 0;
    }
    treeParts = 0;
 //#pragma omp parallel for reduction(+:treeParts)
-- 
2.43.0


From 6988f5c1cf04621388743d147944a6682e4dc459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:51 +0000
Subject: [PATCH 25/51] fix: tree_to_csc owns its arrays and counts the edges
 of a forest

---
 utils/sparse_utilities.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index fea58b8..a67c572 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -159,7 +159,11 @@ namespace sym_lib {
     CSC* tree_to_csc(int n, int *tree){
      int *Ai = new int[n](), *Ap = new int[n+1](), *cnt = new int[n]();
      populate_children(n, tree, Ap, Ai, cnt);
-     CSC *T = new CSC(n,n,n-1,Ap,Ai,0);
+     CSC *T = new CSC(n,n,Ap[n],true);
+     std::copy(Ap, Ap + n + 1, T->p);
+     std::copy(Ai, Ai + Ap[n], T->i);
+     delete []Ai;
+     delete []Ap;
      delete []cnt;
      return T;
     }
-- 
2.43.0


From 2f46663297690e215df18f300692c56e1305ade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:51 +0000
Subject: [PATCH 26/51] fix: merge_DAGs_with_partial_order counts only the
 entries it stores

---
 utils/sparse_utilities.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index a67c572..3912f17 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -891,7 +891,6 @@ namespace sym_lib {
   for(int i = 0; i < ngraphs-1; i++){
    nnz += DGps[i][n];
   }
-  nnz += (ngraphs-1) * n;
   CSC *merged_graph = new CSC(n*ngraphs,n*ngraphs,nnz, true);
 
 /** allocate new graph space **/
-- 
2.43.0


From 1bc5050721be6e11c8efd918077f5b871011f01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:51 +0000
Subject: [PATCH 27/51] fix: mult_size_t returns 0 when the last addition
 overflows, as documented

---
 utils/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/utils.cpp b/utils/utils.cpp
index 427cb57..dfb87df 100644
--- a/utils/utils.cpp
+++ b/utils/utils.cpp
@@ -38,7 +38,7 @@ namespace sym_lib{
     (*ok) = (*ok) && (p >= a);
    }
    k = k / 2;
-   if (!k) return (p);
+   if (!k) return ((*ok) ? p : 0);
    s = a + a;
    (*ok) = (*ok) && (s >= a);
    a = s;
-- 
2.43.0


From 43b2b2b297ad11e5542faa15d9a2722751a1d221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 28/51] fix: createFormat stops at the end of a column before
 reading its next row

---
 utils/BCSCMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/BCSCMatrix.cpp b/utils/BCSCMatrix.cpp
index ed835ee..ac4cfec 100644
--- a/utils/BCSCMatrix.cpp
+++ b/utils/BCSCMatrix.cpp
@@ -202,7 +202,7 @@ namespace sym_lib {
     for (p = 0; p < temp_cnt; p++) {
      int row_i = tempvec[p];
      M->i[counter] = row_i;
-     if (row_i == Ai[index] && index < Ap[j + 1]) {
+     if (index < Ap[j + 1] && row_i == Ai[index]) {
       M->x[counter] = Ax[index];
       index++;
      } else {
-- 
2.43.0


From 6c794b50d419ad25c4604c63bc3e91d1caa07d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 29/51] fix: compressed_BCSC_to_CSC stores the block graph only
 (it wrote an extra row per column past the array)

---
 utils/BCSCMatrix.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/utils/BCSCMatrix.cpp b/utils/BCSCMatrix.cpp
index ac4cfec..2fcb84e 100644
--- a/utils/BCSCMatrix.cpp
+++ b/utils/BCSCMatrix.cpp
@@ -275,10 +275,6 @@ namespace sym_lib {
    for (int k = 0; k < count; k++)
     inplace[temp[k]] = false;
    count = 0;
-
-   Ai[i] = j + nodes;
-   Ap[p]++;
-   i++;
    p++;
   }
 
-- 
2.43.0


From e769e7fec162f7743636483a3ae5c5799e67bdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 30/51] fix: merge_graphs reads every row of a block of B, not
 the first one repeatedly

---
 utils/sparse_inspector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index eecb8f8..3f1c31e 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -775,7 +775,7 @@ namespace sym_lib {
   // Count # nnz in B
   for (int i = 0; i < nodes; i++) {
    for (int r = 0; r < nB->nrows[i]; r++) {
-    int row = supers[nB->i[nB->p[i]]];
+    int row = supers[nB->i[nB->p[i] + r]];
     if (!inplace[row]) {
      inplace[row] = true;
      temp[count] = row;
@@ -839,7 +839,7 @@ namespace sym_lib {
    Mi[i] = j + nodes;
    i++;
    for (int r = 0; r < nB->nrows[j]; r++) {
-    int row = supers[nB->i[nB->p[j]]];
+    int row = supers[nB->i[nB->p[j] + r]];
     if (!inplace[row]) {
      inplace[row] = true;
      temp[count] = row;
-- 
2.43.0


From 3a2bdcb2e5ab2b15a3a46eea70fc0f91af61f9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 31/51] fix: bcsc_csc_bcsc_levelset starts from the sources of
 both kernels and frees its supernode map

---
 utils/sparse_inspector.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index 3f1c31e..6ec024b 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -646,9 +646,11 @@ namespace sym_lib {
   /* find source nodes_ and append in initial queue */
   std::queue<int> queue;
   for (int i = 0; i < nodes; i++) {
-   if (degrees[supernodes[i]] == 0) {
-    queue.push(supernodes[i]);
-    inqueue[supernodes[i]] = true;
+   for (int node = supernodes[i]; node < 2 * n; node += n) {
+    if (degrees[node] == 0) {
+     queue.push(node);
+     inqueue[node] = true;
+    }
    }
   }
 
@@ -723,6 +725,7 @@ namespace sym_lib {
   delete[]visited;
   delete[]degrees;
   delete[]inqueue;
+  delete[]supers;
 
   levelptr = new int[cur_level + 1];
   std::memcpy(levelptr, levelptr_, sizeof(int) * (cur_level + 1));
-- 
2.43.0


From a56aa7ed90b6225684170f819fecea384ac79c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:33 +0000
Subject: [PATCH 32/51] fix: compute_etree frees its work space when it refuses
 a lower half

---
 utils/etree.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/etree.cpp b/utils/etree.cpp
index a032b92..e1e5b70 100644
--- a/utils/etree.cpp
+++ b/utils/etree.cpp
@@ -108,6 +108,7 @@ namespace sym_lib{
    }
   }
   else{// symmetric case with lower triangular part not supported
+   delete []Iwork;
    return false ;
   }
   delete []Iwork;
-- 
2.43.0


From b4a00437b4d29a32557b31674109b738459a6d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:33 +0000
Subject: [PATCH 33/51] fix: build_symbolic_simplicial_lfactor frees its
 ordering and reordered matrices

---
 utils/lfactor_creation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/lfactor_creation.cpp b/utils/lfactor_creation.cpp
index 588200a..a1fd624 100644
--- a/utils/lfactor_creation.cpp
+++ b/utils/lfactor_creation.cpp
@@ -395,7 +395,7 @@ namespace sym_lib{
   At_ord = transpose_symmetric(A, perm_metis);
   A_ord = transpose_symmetric(At_ord, NULLPNTR);
   std::copy(perm_metis,perm_metis+n, perm);
-  delete perm_metis;
+  delete []perm_metis;
   delete A_full;
 #else
   for(int i=0; i<n; i++) perm[i] = i; // no permutation
@@ -422,8 +422,8 @@ namespace sym_lib{
   /// Build the L-factor pattern
   lfsi->L = build_L_pattern_from_col_counts(n, At_ord, col_count, parent,
     lfsi->accessed_nnz_per_col);
-  //delete A_ord;
-  //delete At_ord;
+  delete A_ord;
+  delete At_ord;
   delete []ws;
   delete []first;
   delete []level;
-- 
2.43.0


From 477b189a052a36ffa1634605e20d47667c11c09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:33 +0000
Subject: [PATCH 34/51] fix: the symmetric METIS graphs hold the off-diagonal
 entries only (diagonals left gaps read as edges to vertex 0)

---
 utils/metis_interface.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index 3982474..2458116 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -48,21 +48,21 @@ namespace sym_lib {
   }
 
   perm = new int[A->n]();
-  int nnzFull = 2 * A->nnz - A->n;
   auto Afullp = new idx_t[A->n + 1]();
-  auto Afulli = new idx_t[nnzFull]();
   auto ind = new int[A->n]();
   for (size_t i = 0; i < A->n; i++) {
    for (size_t p = A->p[i]; p < A->p[i + 1]; p++) {
     int row = A->i[p];
-    ind[i]++;
-    if (row != i)
+    if (row != i) { // METIS graphs have no self loops
+     ind[i]++;
      ind[row]++;
+    }
    }
   }
   Afullp[0] = 0;
   for (size_t i = 0; i < A->n; i++)
    Afullp[i + 1] = Afullp[i] + ind[i];
+  auto Afulli = new idx_t[Afullp[A->n]]();
 
   for (size_t i = 0; i < A->n; i++)
    ind[i] = 0;
@@ -173,21 +173,21 @@ namespace sym_lib {
   part = new int[A->n]();
 
   int n = A->n;
-  int nnzFull = 2 * A->nnz - A->n;
   auto Afullp = new idx_t[n + 1]();
-  auto Afulli = new idx_t[nnzFull]();
   auto ind = new int[n]();
   for (size_t i = 0; i < n; i++) {
    for (size_t p = A->p[i]; p < A->p[i + 1]; p++) {
     int row = A->i[p];
-    ind[i]++;
-    if (row != i)
+    if (row != i) { // METIS graphs have no self loops
+     ind[i]++;
      ind[row]++;
+    }
    }
   }
   Afullp[0] = 0;
   for (size_t i = 0; i < n; i++)
    Afullp[i + 1] = Afullp[i] + ind[i];
+  auto Afulli = new idx_t[Afullp[n]]();
 
   for (size_t i = 0; i < n; i++)
    ind[i] = 0;
@@ -230,6 +230,7 @@ namespace sym_lib {
    part[i] = partIDX[i];
   delete[]Afullp;
   delete[]Afulli;
+  delete[]ind;
   delete[]weigt;
   delete[]partIDX;
 
-- 
2.43.0


From 35f338c2bbc9f8aa34825ee665c5eef1c1df0cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:33 +0000
Subject: [PATCH 35/51] fix: metis_partition_coarsened maps every column to the
 part of its block

---
 utils/metis_interface.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index 2458116..bd57ff6 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -333,14 +333,14 @@ namespace sym_lib {
   part = new int[A->n]();
   for (int i = 0; i < tmp->n; ++i) {
    int i2p = part_cors[i];
-   int bnd = i+coarsen; // std::max<int>(i + coarsen, A->n);
-   for (int j = i; j < bnd; ++j) {
+   int bnd = std::min<int>((i + 1) * coarsen, A->n);
+   for (int j = i * coarsen; j < bnd; ++j) {
     part[j] = i2p;
    }
   }
   //t.measure_elapsed_time();
   //t.print_t_array();
-  delete part_cors;
+  delete[]part_cors;
   delete tmp;
   return 0;
  }
-- 
2.43.0


From 10106478b8c2f69f290301805c0b0444d307319c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:33 +0000
Subject: [PATCH 36/51] fix: metis_partitioning partitions the half of a
 symmetric pattern (the full matrix has every edge twice)

---
 utils/metis_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index bd57ff6..054e974 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -33,7 +33,7 @@ namespace sym_lib {
   } else {
    A2 = copy_sparse(A);
   }
-  metis_part_func(A2, partition, npar);
+  metis_part_func(A->is_pattern ? A1 : A2, partition, npar);
 
   delete[]perm;
   delete (A1);
-- 
2.43.0


From cfd4310dde596e4b6221dd9b2bbf8b6c66e46608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:37 +0000
Subject: [PATCH 37/51] fix: inspection_sptrsvcsr_v2 stops at a row without a
 successor instead of reading before its arrays, and frees its work space

---
 src/group.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/group.cpp b/src/group.cpp
index c21f26d..167ab30 100644
--- a/src/group.cpp
+++ b/src/group.cpp
@@ -221,7 +221,7 @@ namespace sym_lib
        visited[curIdx] = true;
        int chIdx = child[curIdx];
 
-       while ((chIdx-curIdx==1 || rCnt[chIdx]) && !visited[chIdx] )
+       while (chIdx!=-1 && (chIdx-curIdx==1 || rCnt[chIdx]) && !visited[chIdx] )
        {
         visited[chIdx]=true;
         pre[chIdx] = curIdx;
@@ -233,6 +233,7 @@ namespace sym_lib
 //
       }
      }
+     free(rCnt);
 
      memset(visited, 0, sizeof(bool)*ncol);
 
-- 
2.43.0


From fedd9528327553a10d154ced7f610b435e5096f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:37 +0000
Subject: [PATCH 38/51] fix: inspection_spicocsc_v2 does not look for empty
 columns past the last one

---
 src/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/group.cpp b/src/group.cpp
index 167ab30..60dc7e4 100644
--- a/src/group.cpp
+++ b/src/group.cpp
@@ -88,7 +88,7 @@ namespace sym_lib
 
         int tcurIdx = curIdx+1;
         int len=0;
-        while (child[tcurIdx]==-1 && !visited[tcurIdx] && len<ncol/12)
+        while (tcurIdx<ncol && child[tcurIdx]==-1 && !visited[tcurIdx] && len<ncol/12)
         {
          visited[tcurIdx] = true;
          next[tcurIdx-1]=tcurIdx;
-- 
2.43.0


From 84cd37fc43ad56db2b513cce18d0a496fe10f180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:18 +0000
Subject: [PATCH 39/51] fix: partition_by_weight puts what exceeds the target
 weights into the last part instead of dropping it

---
 utils/utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/utils.cpp b/utils/utils.cpp
index dfb87df..8f3b3fb 100644
--- a/utils/utils.cpp
+++ b/utils/utils.cpp
@@ -76,6 +76,8 @@ namespace sym_lib{
    }
    indices[i+1] = j;
   }
+  if(n_parts > 0)
+   indices[n_parts] = n;//the last part takes what exceeds the targets
   if(!target_weight)
    delete []even_weight;
   return indices;
-- 
2.43.0


From b0db711080c73ffec597bc5d4631287300854517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:18 +0000
Subject: [PATCH 40/51] fix: merge_inner_part stores the cost of a merged part
 at its own index

---
 src/lbc_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lbc_utils.cpp b/src/lbc_utils.cpp
index 30d71a8..d1049cd 100644
--- a/src/lbc_utils.cpp
+++ b/src/lbc_utils.cpp
@@ -134,8 +134,8 @@ namespace sym_lib{
       newLeveledParList[i].begin(), newLeveledParList[i].end());
     i++;
    }
-   lClusterCnt++;
    outCost[lClusterCnt] = curCost;
+   lClusterCnt++;
   }
   return lClusterCnt;
  }
-- 
2.43.0


From 8532e2807637b3fd6c93cfa0231c8ed9ab6f2d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:18 +0000
Subject: [PATCH 41/51] fix: is_equal does not take NaN for equal to any value

---
 include/aggregation/test_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aggregation/test_utils.h b/include/aggregation/test_utils.h
index 0c2ad31..192ce89 100644
--- a/include/aggregation/test_utils.h
+++ b/include/aggregation/test_utils.h
@@ -47,7 +47,7 @@ namespace sym_lib{
  template<class type>
  bool is_equal(int n, const type* vec, type val, double eps=1e-8){
   for (int i = 0; i < n; ++i) {
-   if(std::abs(vec[i] - val) > eps)
+   if(!(std::abs(vec[i] - val) <= eps))//also when one of them is NaN
     return false;
   }
   return true;
-- 
2.43.0


From 3531cc99d581376458176eca77c82cf83f9f4388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:18 +0000
Subject: [PATCH 42/51] fix: is_equal compares the number of rows and accepts
 pattern matrices

---
 utils/test_utils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/test_utils.cpp b/utils/test_utils.cpp
index 68f3d49..a668488 100644
--- a/utils/test_utils.cpp
+++ b/utils/test_utils.cpp
@@ -71,7 +71,7 @@ namespace sym_lib{
  }
 
  bool is_equal(CSC *A, CSC *B, double eps){
-  if(A->n != B->n || A->nnz != B->nnz){
+  if(A->m != B->m || A->n != B->n || A->nnz != B->nnz){
    return false;
   }
   for (int j = 0; j < A->n+1; ++j) {
@@ -82,8 +82,10 @@ namespace sym_lib{
    if(A->i[i] != B->i[i])
     return false;
   }
+  if(A->is_pattern || B->is_pattern)
+   return A->is_pattern == B->is_pattern;
   for (int i = 0; i < A->nnz; ++i) {
-   if(std::abs(A->x[i] -B->x[i]) > eps)
+   if(!(std::abs(A->x[i] -B->x[i]) <= eps))
     return false;
   }
   return true;
-- 
2.43.0


From 115f4648add491da518e655994d9019e0f8dd633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:53 +0000
Subject: [PATCH 43/51] fix: read_mtx reads entries in any order, empty columns
 and pattern files

---
 utils/sparse_io.cpp | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 1a2dcf9..bc4b786 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -27,36 +27,27 @@ namespace sym_lib {
   int m, n, nnz;
   if (mm_read_mtx_crd_size(mf, &m, &n, &nnz) != 0) exit(1);
   CSC *A = new CSC(m, n, nnz);
-  int *J = new int[nnz]();
+  std::vector<triplet> coo(nnz);
 
   A->stype = mm_is_symmetric(mcode) ? -1 : 0;
 
   // Copy matrix data into COO format
   for (int i = 0; i < nnz; i++) {
-   if (fscanf(mf, "%d %d %lg\n", (A->i) + i, &J[i], (A->x) + i) == EOF) {
+   triplet &e = coo[i];
+   e.val = 1.0;
+   int got = mm_is_pattern(mcode) ? fscanf(mf, "%d %d\n", &e.row, &e.col)
+                                  : fscanf(mf, "%d %d %lg\n", &e.row, &e.col, &e.val);
+   if (got == EOF) {
     std::cerr << "Failed to load matrix at " << i + 1 << "th element\n";
     fclose(mf);
     delete (A);
     return nullptr;
    }
-   (A->i)[i]--;
-   J[i]--;
+   e.row--;
+   e.col--;
   }
-  int i = 0, j;
-  int index = 0, cur;
-  for (; i < nnz; i++) {
-   A->p[index] = i;
-   cur = J[i];
-   for (j = i + 1; j < nnz; j++) {
-    if (J[j] != cur)
-     break;
-    else
-     i++;
-   }
-   index += 1;
-  }
-  A->p[n] = nnz;
-  delete[]J;
+  fclose(mf);
+  compress_triplets_to_csc(coo, A, false);
 
   A->m = m;
   A->n = n;
-- 
2.43.0


From 27270533e4c8e8a7aa2842929a8b2435875f0621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:53 +0000
Subject: [PATCH 44/51] fix: compress_triplets_to_csc makes room for the
 diagonals it inserts in empty columns

---
 utils/sparse_io.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index bc4b786..5bab72c 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -386,6 +386,13 @@ namespace sym_lib {
    }
   }
   delete []count;
+  if(A->p[A->n] > A->nnz){ // make room for the inserted diags
+   A->nnz = A->p[A->n];
+   delete []A->i;
+   delete []A->x;
+   A->i = new int[A->nnz]();
+   A->x = new double[A->nnz]();
+  }
   for (auto k = 0; k < A->nnz; ++k) {
    A->i[k] = triplet_vec[k].row;
    A->x[k] = triplet_vec[k].val;
-- 
2.43.0


From cc941ac913a6e78c89163c19c493b8b8accd0e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:53 +0000
Subject: [PATCH 45/51] fix: convert_to_one_based copies the values

---
 utils/sparse_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 5bab72c..d38ad7d 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -110,7 +110,7 @@ namespace sym_lib {
   else
    for (int j = 0; j < A->nnz; ++j) {
     A_one->i[j] = A->i[j]+1;
-    A_one->x[j] = A_one->x[j];
+    A_one->x[j] = A->x[j];
    }
 
   for (int k = 0; k < A->n + 1; ++k) {
-- 
2.43.0


From 7b9961bbfd820363bca4519d64ec2564c0b18a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:37 +0000
Subject: [PATCH 46/51] fix: the Matrix Market writers report success (fprintf
 returns characters, not conversions)

---
 utils/external/mmio.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index ace5551..e296641 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -164,7 +164,7 @@ namespace sym_lib {
  }
 
  int mm_write_mtx_crd_size(FILE *f, int M, int N, int nz) {
-  if (fprintf(f, "%d %d %d\n", M, N, nz) != 3)
+  if (fprintf(f, "%d %d %d\n", M, N, nz) < 0)
    return MM_COULD_NOT_WRITE_FILE;
   else
    return 0;
@@ -223,7 +223,7 @@ namespace sym_lib {
  }
 
  int mm_write_mtx_array_size(FILE *f, int M, int N) {
-  if (fprintf(f, "%d %d\n", M, N) != 2)
+  if (fprintf(f, "%d %d\n", M, N) < 0)
    return MM_COULD_NOT_WRITE_FILE;
   else
    return 0;
@@ -344,7 +344,7 @@ namespace sym_lib {
 
   ret_code = fprintf(f, "%s %s\n", MatrixMarketBanner, str);
   free(str);
-  if (ret_code != 2)
+  if (ret_code < 0)
    return MM_COULD_NOT_WRITE_FILE;
   else
    return 0;
-- 
2.43.0


From 79a9ccd88c61af3f56e7e5985d5eca4e1558bacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:17 +0000
Subject: [PATCH 47/51] fix: Matrix Market headers: long tokens stay inside
 their buffers and a size line without numbers ends the search

---
 utils/external/mmio.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index e296641..6e5a873 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -101,7 +101,7 @@ namespace sym_lib {
   if (fgets(line, MM_MAX_LINE_LENGTH, f) == NULL)
    return MM_PREMATURE_EOF;
 
-  if (sscanf(line, "%s %s %s %s %s", banner, mtx, crd, data_type,
+  if (sscanf(line, "%63s %63s %63s %63s %63s", banner, mtx, crd, data_type,
              storage_scheme) != 5)
    return MM_PREMATURE_EOF;
 
@@ -190,7 +190,7 @@ namespace sym_lib {
   else
    do {
     num_items_read = fscanf(f, "%d %d %d", M, N, nz);
-    if (num_items_read == EOF) return MM_PREMATURE_EOF;
+    if (num_items_read < 1) return MM_PREMATURE_EOF;
    } while (num_items_read != 3);
 
   return 0;
@@ -216,7 +216,7 @@ namespace sym_lib {
   else /* we have a blank line */
    do {
     num_items_read = fscanf(f, "%d %d", M, N);
-    if (num_items_read == EOF) return MM_PREMATURE_EOF;
+    if (num_items_read < 1) return MM_PREMATURE_EOF;
    } while (num_items_read != 2);
 
   return 0;
-- 
2.43.0


From a7f02d28a1d8d2789e166aec836ce31e723343d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:17 +0000
Subject: [PATCH 48/51] fix: the Matrix Market readers refuse incomplete
 entries and entries outside the matrix

---
 utils/sparse_io.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index d38ad7d..d125725 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -35,9 +35,10 @@ namespace sym_lib {
   for (int i = 0; i < nnz; i++) {
    triplet &e = coo[i];
    e.val = 1.0;
-   int got = mm_is_pattern(mcode) ? fscanf(mf, "%d %d\n", &e.row, &e.col)
-                                  : fscanf(mf, "%d %d %lg\n", &e.row, &e.col, &e.val);
-   if (got == EOF) {
+   bool complete = mm_is_pattern(mcode) ?
+     fscanf(mf, "%d %d\n", &e.row, &e.col) == 2 :
+     fscanf(mf, "%d %d %lg\n", &e.row, &e.col, &e.val) == 3;
+   if (!complete || e.row < 1 || e.row > m || e.col < 1 || e.col > n) {
     std::cerr << "Failed to load matrix at " << i + 1 << "th element\n";
     fclose(mf);
     delete (A);
@@ -358,6 +359,8 @@ namespace sym_lib {
       inFile >> tmp.val;
     else
       tmp.val = 1.0;
+   if(!inFile)
+    throw mtx_error("Unknown", "The entries are incomplete");
    if(!zero_indexing){
     tmp.col--; tmp.row--;
    }
@@ -413,8 +416,11 @@ namespace sym_lib {
   bool read_val = true;
   if(arith == PATTERN)
     read_val = false;
-  A = new CSC(m,n,nnz,false, shape2int(shape));
   read_triplets_real(in_file, nnz, triplet_vec, read_val);
+  for (const auto &t : triplet_vec)
+   if(t.row < 0 || t.row >= m || t.col < 0 || t.col >= n)
+    throw mtx_error("Unknown", "An entry lies outside the matrix");
+  A = new CSC(m,n,nnz,false, shape2int(shape));
   compress_triplets_to_csc(triplet_vec, A, insert_diag);
   A->nnz = A->p[n]; // if insert diag is true, it will be different.
   //print_csc(A->n, A->p, A->i, A->x);
-- 
2.43.0


From 3b858e4e08efea74349f10faa3b038ba145a2e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:13 +0000
Subject: [PATCH 49/51] fix: parallel_cc adds the costs of a component
 atomically

---
 src/lbc_csc_dag.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 4d45d30..83c776b 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -82,6 +82,7 @@ int parallel_cc(int *lC, int *lR, int dfsLevel, int ubLevel, int *node2Level,
  for (int i = 0; i < numNodes; ++i) {
   int node = nodes[i];
   int cc = node2partition[node];
+#pragma omp atomic
   outCost[cc] += nodeCost[node];
   max_cc = std::max(max_cc, cc + 1);
  }
-- 
2.43.0


From 63755ca555096fd6233e2c77bb0f162d09102ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:43 +0000
Subject: [PATCH 50/51] Revert "fix: is_equal compares the number of rows and
 accepts pattern matrices"

This reverts commit 3531cc99d581376458176eca77c82cf83f9f4388.
---
 utils/test_utils.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/utils/test_utils.cpp b/utils/test_utils.cpp
index a668488..68f3d49 100644
--- a/utils/test_utils.cpp
+++ b/utils/test_utils.cpp
@@ -71,7 +71,7 @@ namespace sym_lib{
  }
 
  bool is_equal(CSC *A, CSC *B, double eps){
-  if(A->m != B->m || A->n != B->n || A->nnz != B->nnz){
+  if(A->n != B->n || A->nnz != B->nnz){
    return false;
   }
   for (int j = 0; j < A->n+1; ++j) {
@@ -82,10 +82,8 @@ namespace sym_lib{
    if(A->i[i] != B->i[i])
     return false;
   }
-  if(A->is_pattern || B->is_pattern)
-   return A->is_pattern == B->is_pattern;
   for (int i = 0; i < A->nnz; ++i) {
-   if(!(std::abs(A->x[i] -B->x[i]) <= eps))
+   if(std::abs(A->x[i] -B->x[i]) > eps)
     return false;
   }
   return true;
-- 
2.43.0


From 39c3944259d3352ac9d6680cd2c2b9a73b5765bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:52 +0000
Subject: [PATCH 51/51] Revert "fix: is_equal does not take NaN for equal to
 any value"

This reverts commit 8532e2807637b3fd6c93cfa0231c8ed9ab6f2d52.
---
 include/aggregation/test_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aggregation/test_utils.h b/include/aggregation/test_utils.h
index 192ce89..0c2ad31 100644
--- a/include/aggregation/test_utils.h
+++ b/include/aggregation/test_utils.h
@@ -47,7 +47,7 @@ namespace sym_lib{
  template<class type>
  bool is_equal(int n, const type* vec, type val, double eps=1e-8){
   for (int i = 0; i < n; ++i) {
-   if(!(std::abs(vec[i] - val) <= eps))//also when one of them is NaN
+   if(std::abs(vec[i] - val) > eps)
     return false;
   }
   return true;
-- 
2.43.0

