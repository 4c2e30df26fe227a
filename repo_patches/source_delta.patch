From 88d3985b0e97e50ae63dbf2fdf2bb5e89b9c94c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:26 +0000
Subject: [PATCH 01/82] fix: keep the rows without features that precede the
 first feature of an SVMlight file

---
 rankeval/dataset/_svmlight_format.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index cc5583d..de9d78f 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -307,6 +307,9 @@ void parse_line(const std::string &line,
   // it means we have to reshape the dataset to include new columns...
   if (max_feature > 0 && (next_feature - 1) > max_feature) {
     reshape_data(data, max_feature, next_feature - 1);
+  } else if (max_feature == 0 && next_feature > 1) {
+    // all the previous rows (if any) had no feature at all: add their columns
+    data.insert(data.begin(), (labels.size() - 1) * (next_feature - 1), 0);
   }
 
   max_feature = std::max(next_feature - 1, max_feature);
-- 
2.43.0


From bf8cd62fe1137b535213dc384165004355ef509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:26 +0000
Subject: [PATCH 02/82] fix: write the query id when dumping a single row in
 SVMlight format

---
 rankeval/dataset/_svmlight_format.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index de9d78f..053bf91 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -397,7 +397,7 @@ static PyObject *dump_svmlight_file(PyObject *self, PyObject *args)
 
     int n_samples = PyArray_DIM(data_array, 0);
     int n_features = PyArray_DIM(data_array, 1);
-    int n_queries = PyArray_DIM(qids_array, 0) - 1;
+    int n_queries = PyArray_DIM(qids_array, 0);
 
     float *data   = (float*) data_array->data;
     float *y      = (float*) label_array->data;
-- 
2.43.0


From 0259cf8f7190d7539a6ed568101e4eeb45455ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:26 +0000
Subject: [PATCH 03/82] fix: reject SVMlight tokens followed by trailing
 characters

---
 rankeval/dataset/_svmlight_format.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index 053bf91..0ecae14 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -261,7 +261,7 @@ void parse_line(const std::string &line,
   }
   labels.push_back(y);
 
-  int idx;
+  int idx, consumed;
   double x;
   int next_feature = 1;
   bool reuse_line = false;
@@ -273,7 +273,8 @@ void parse_line(const std::string &line,
   }
 
 
-  if (sscanf(token.c_str(), "qid:%u", &idx) != 1) {
+  if (sscanf(token.c_str(), "qid:%u%n", &idx, &consumed) != 1 ||
+      token[consumed] != '\0') {
     reuse_line = true;
   } else {
     qids.push_back(idx);
@@ -284,7 +285,8 @@ void parse_line(const std::string &line,
         break;
     reuse_line = false;
 
-    if(sscanf(token.c_str(), "%u:%lf", &idx, &x) == 2) {
+    if(sscanf(token.c_str(), "%u:%lf%n", &idx, &x, &consumed) == 2 &&
+       token[consumed] == '\0') {
 
         // Add zeros in empty spaces between next_feature and idx indices  (iff idx > next_feature)
         for (; next_feature < idx; ++next_feature)
-- 
2.43.0


From 610db1cb3c6fa35c2f5570f042f466d13be7d6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:37 +0000
Subject: [PATCH 04/82] fix: dump matrices that are not in row-major order
 correctly

---
 rankeval/dataset/svmlight_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/dataset/svmlight_format.py b/rankeval/dataset/svmlight_format.py
index 8e073ba..c0115e4 100644
--- a/rankeval/dataset/svmlight_format.py
+++ b/rankeval/dataset/svmlight_format.py
@@ -189,7 +189,7 @@ def dump_svmlight_file(X, y, f, query_id=None, zero_based=False):
         Whether column indices should be written zero-based (True) or one-based
         (False). Default is False.
     """
-    X = np.array(X, dtype=np.float32)
+    X = np.array(X, dtype=np.float32, order='C')
     y = np.array(y, dtype=np.float32)
     if query_id is None:
         query_id = np.ndarray(0, dtype=np.int32)
-- 
2.43.0


From 67ba80066d0a8eae7535ec6feb4dedda77a37824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:54 +0000
Subject: [PATCH 05/82] fix: split puts every query in exactly one partition
 when the test set is empty or sizes are rounded up

---
 rankeval/dataset/dataset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index c2a154a..3e3afb3 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -197,8 +197,9 @@ class Dataset(object):
             raise Exception("train and/or validation sizes are not correct!")
 
         train_qn = int(round(train_size * self.n_queries))
-        vali_qn = int(round(vali_size * self.n_queries))
-        test_qn = self.n_queries - train_qn - vali_qn
+        # both sizes may have been rounded up: do not exceed the queries left
+        vali_qn = min(int(round(vali_size * self.n_queries)),
+                      self.n_queries - train_qn)
 
         qid_map = np.ndarray(self.n_instances, dtype=np.uint32)
         for qid, start_offset, end_offset in self.query_iterator():
@@ -211,7 +212,7 @@ class Dataset(object):
 
         train_qid = qids_permutation[:train_qn]
         vali_qid = qids_permutation[train_qn:train_qn + vali_qn]
-        test_qid = qids_permutation[-test_qn:]
+        test_qid = qids_permutation[train_qn + vali_qn:]
 
         train_mask = np.in1d(qid_map, train_qid)
         vali_mask = np.in1d(qid_map, vali_qid)
-- 
2.43.0


From 93eb06e211c914d4c82ab77b4b893a515ff0c430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:54 +0000
Subject: [PATCH 06/82] fix: refuse negative validation sizes in split

---
 rankeval/dataset/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index 3e3afb3..4acf573 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -193,7 +193,8 @@ class Dataset(object):
             of each fold, without creating the dataset.
         """
 
-        if train_size < 0 or train_size > 1 or (train_size + vali_size) > 1:
+        if train_size < 0 or train_size > 1 or vali_size < 0 or \
+                (train_size + vali_size) > 1:
             raise Exception("train and/or validation sizes are not correct!")
 
         train_qn = int(round(train_size * self.n_queries))
-- 
2.43.0


From fbfc763795a046c0ca7e8c0d0014a272308e78ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:54 +0000
Subject: [PATCH 07/82] fix: raise LookupError for a missing query id

---
 rankeval/dataset/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index 4acf573..05efe61 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -318,8 +318,8 @@ class Dataset(object):
         """
         idx = np.where(self.query_ids == query_id)[0]
         if idx.size == 0:
-            raise LookupError("query_id {:d} is missing from the dataset") \
-                .format(query_id)
+            raise LookupError("query_id {:d} is missing from the dataset"
+                              .format(query_id))
         # Take first element
         idx = idx[0]
         return self.query_offsets[idx], self.query_offsets[idx + 1]
-- 
2.43.0


From be7d1e0b598183b52d4f1c4571d5bf7497591827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:54 +0000
Subject: [PATCH 08/82] fix: compare datasets of any shape, taking query
 boundaries into account

---
 rankeval/dataset/dataset.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index 05efe61..e473b4a 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -411,17 +411,17 @@ class Dataset(object):
         if self._hash_cached is None:
 
             h = hashlib.md5()
-            for arr in [self.X, self.y, self.query_ids]:
-                h.update(arr)
+            for arr in [self.X, self.y, self.query_ids, self.query_offsets]:
+                h.update(np.ascontiguousarray(arr))
             self._hash_cached = int(h.hexdigest(), 16)
 
         return self._hash_cached
 
     def __eq__(self, other):
-        # use != instead of == because it is more efficient for sparse matrices:
-        x_eq = not(self.X != other.X).any()
-        return x_eq and (self.y == other.y).all() and \
-               (self.query_ids == other.query_ids).all()
+        return np.array_equal(self.X, other.X) and \
+               np.array_equal(self.y, other.y) and \
+               np.array_equal(self.query_ids, other.query_ids) and \
+               np.array_equal(self.query_offsets, other.query_offsets)
 
     def __ne__(self, other):
         # Not strictly necessary, but to avoid having both x==y and x!=y
-- 
2.43.0


From 31ee2b5199fd98d97002e72f54480e1d66028505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:12 +0000
Subject: [PATCH 09/82] fix: NDCG of a single query does not depend on
 previously evaluated datasets

---
 rankeval/metrics/ndcg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rankeval/metrics/ndcg.py b/rankeval/metrics/ndcg.py
index 1f5771d..3fea6b9 100644
--- a/rankeval/metrics/ndcg.py
+++ b/rankeval/metrics/ndcg.py
@@ -94,7 +94,11 @@ class NDCG(Metric):
 
             self._cache_idcg_score[self._current_dataset] = idcg_score
 
-        return super(self.__class__, self).eval(dataset, y_pred)
+        try:
+            return super(self.__class__, self).eval(dataset, y_pred)
+        finally:
+            # the cached values are only meant for the queries of this dataset
+            self._current_rel_qid = None
 
     def eval_per_query(self, y, y_pred):
         """
-- 
2.43.0


From 8b23d4749bac80b5f8c7f90c25295e45ecfbf0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:41 +0000
Subject: [PATCH 10/82] fix: keep the strict comparison of XGBoost for
 thresholds of at least 2^24

---
 rankeval/model/proxy_XGBoost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/model/proxy_XGBoost.py b/rankeval/model/proxy_XGBoost.py
index be9d5fb..7766a8e 100644
--- a/rankeval/model/proxy_XGBoost.py
+++ b/rankeval/model/proxy_XGBoost.py
@@ -93,7 +93,7 @@ class ProxyXGBoost(object):
                     # Needed because XGBoost use as split condition
                     # < in place of <=
                     threshold = np.nextafter(
-                        threshold, threshold - 1,
+                        threshold, np.float32(-np.inf),
                         dtype=model.trees_nodes_value.dtype)
 
                     model.trees_nodes_feature[node_id] = feature_id
-- 
2.43.0


From c0adfbfaffa706f26c8c37ab5f3496056121d1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:41 +0000
Subject: [PATCH 11/82] fix: load CatBoost models whose trees have different
 sizes or many nodes

---
 rankeval/model/proxy_CatBoost.py | 40 +++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/rankeval/model/proxy_CatBoost.py b/rankeval/model/proxy_CatBoost.py
index 4642f57..cd48c9f 100644
--- a/rankeval/model/proxy_CatBoost.py
+++ b/rankeval/model/proxy_CatBoost.py
@@ -63,18 +63,20 @@ class ProxyCatBoost(object):
         coreml_model = coremltools.models.model.MLModel(file_path)
 
         n_trees, n_nodes = ProxyCatBoost._count_nodes(coreml_model)
+        # trees can have different sizes: each one has its own offset
+        n_nodes_trees = ProxyCatBoost._count_nodes_per_tree(coreml_model)
+        tree_offsets = np.cumsum(n_nodes_trees) - n_nodes_trees
         # Initialize the model and allocate the needed space
         # given the shape and size of the ensemble
         model.initialize(n_trees, n_nodes)
 
-        n_nodes_per_tree = int(n_nodes / n_trees)
-
         nodes = coreml_model.get_spec().treeEnsembleRegressor.treeEnsemble.nodes
         behaviors = coremltools.proto.TreeEnsemble_pb2.TreeEnsembleParameters.\
             TreeNode.TreeNodeBehavior
 
         for node in nodes:
-            tree_offset = node.treeId * n_nodes_per_tree
+            n_nodes_per_tree = n_nodes_trees[node.treeId]
+            tree_offset = tree_offsets[node.treeId]
             node_id_remap = ProxyCatBoost.remap_nodeId(node.nodeId,
                                                        n_nodes_per_tree)
             node_id_off = node_id_remap + tree_offset
@@ -148,15 +150,35 @@ class ProxyCatBoost(object):
             in the model identified by file_path.
         """
 
+        n_nodes_trees = ProxyCatBoost._count_nodes_per_tree(coreml_model)
+
+        return n_nodes_trees.size, np.sum(n_nodes_trees)
+
+    @staticmethod
+    def _count_nodes_per_tree(coreml_model):
+        """
+        Count the number of nodes (both split and leaf nodes) of each tree
+        in the CoreML model.
+
+        Parameters
+        ----------
+        coreml_model : CoreML model
+            The CoreML model to load from
+
+        Returns
+        -------
+        n_nodes_trees : numpy 1d array (n_trees)
+            The number of nodes (both split and leaf nodes) of each tree.
+        """
+
         nodes = coreml_model.get_spec().treeEnsembleRegressor.treeEnsemble.nodes
 
         n_trees = np.max([node.treeId for node in nodes]) + 1
 
-        n_nodes_trees = np.empty(n_trees, dtype=np.uint16)
+        n_nodes_trees = np.zeros(n_trees, dtype=np.int64)
         for node in nodes:
-            n_nodes_trees[node.treeId] = node.nodeId
-
-        # node_Id starts from 0, thus + 1
-        n_nodes = np.sum(n_nodes_trees + 1)
+            # node_Id starts from 0, thus + 1
+            n_nodes_trees[node.treeId] = max(n_nodes_trees[node.treeId],
+                                             node.nodeId + 1)
 
-        return n_trees, n_nodes
\ No newline at end of file
+        return n_nodes_trees
\ No newline at end of file
-- 
2.43.0


From 81f5c2b64f41523e4ad2c3a699ad67b597d20987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:58 +0000
Subject: [PATCH 12/82] fix: do not cache the scores of a dataset whose scoring
 failed

---
 rankeval/model/rt_ensemble.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rankeval/model/rt_ensemble.py b/rankeval/model/rt_ensemble.py
index a01cf27..a1724ab 100644
--- a/rankeval/model/rt_ensemble.py
+++ b/rankeval/model/rt_ensemble.py
@@ -336,8 +336,6 @@ class RTEnsemble(object):
                 detailed and self._cache_scorer[dataset].partial_y_pred is None:
 
             scorer = Scorer(self, dataset)
-            if cache:
-                self._cache_scorer[dataset] = scorer
             # The scoring is performed only if it has not been done before...
             scorer.score(detailed)
 
@@ -350,6 +348,10 @@ class RTEnsemble(object):
                 scorer.y_pred += self.base_score
                 if detailed:
                     scorer.partial_y_pred[:, :1] += self.base_score
+
+            # cache only complete results: the scoring may have failed
+            if cache:
+                self._cache_scorer[dataset] = scorer
         else:
             scorer = self._cache_scorer[dataset]
 
-- 
2.43.0


From 23bc9e8ff3faf2ca4abbdf0fa52e28eb9b3dd6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:27 +0000
Subject: [PATCH 13/82] fix: export trees cropped by max_depth to graphviz

---
 rankeval/visualization/topological.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/visualization/topological.py b/rankeval/visualization/topological.py
index 4ca3663..4f789f4 100644
--- a/rankeval/visualization/topological.py
+++ b/rankeval/visualization/topological.py
@@ -360,7 +360,7 @@ def export_graphviz(ensemble, tree_id=0, out_file=None, max_depth=None,
             if highlight_leaves or output_leaves is not None:
                 # color cropped nodes grey
                 out_file.write(', fillcolor="#C0C0C0"')
-            out_file.write('] ;\n' % node_id)
+            out_file.write('] ;\n')
 
             if parent_id is not None:
                 # Add edge to parent
-- 
2.43.0


From f47abe4f41dad7bb502fc88702ec184e23ff54a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:27 +0000
Subject: [PATCH 14/82] fix: export_graphviz accepts names for features the
 model does not use, and refuses missing names

---
 rankeval/visualization/topological.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rankeval/visualization/topological.py b/rankeval/visualization/topological.py
index 4f789f4..03a06d4 100644
--- a/rankeval/visualization/topological.py
+++ b/rankeval/visualization/topological.py
@@ -389,11 +389,10 @@ def export_graphviz(ensemble, tree_id=0, out_file=None, max_depth=None,
                              " instead.".format(type(precision)))
 
         # Check length of feature_names before getting into the tree node
-        # Raise error if length of feature_names does not match
-        # n_features_ in the decision_tree
+        # Raise error if there are features of the model without a name
         if feature_names is not None:
             max_feature_id = np.max(ensemble.trees_nodes_feature) + 1
-            if len(feature_names) > max_feature_id:
+            if len(feature_names) < max_feature_id:
                 raise ValueError("Length of feature_names, %d "
                                  "does not match number of features, %d"
                                  % (len(feature_names),
-- 
2.43.0


From 3c9c898ae12741e898b5f019382fa9f86b4a91c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:27 +0000
Subject: [PATCH 15/82] fix: save feature 32768 in QuickRank format without
 overflowing

---
 rankeval/model/proxy_QuickRank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/model/proxy_QuickRank.py b/rankeval/model/proxy_QuickRank.py
index fb806a9..d07cefe 100644
--- a/rankeval/model/proxy_QuickRank.py
+++ b/rankeval/model/proxy_QuickRank.py
@@ -194,7 +194,7 @@ class ProxyQuickRank(object):
         if model.is_leaf_node(node_id):
             etree.SubElement(n_split, "output").text = repr(model.trees_nodes_value[node_id])
         else:
-            feature_idx = model.trees_nodes_feature[node_id] + 1
+            feature_idx = int(model.trees_nodes_feature[node_id]) + 1
             feature_threshold = model.trees_nodes_value[node_id]
             etree.SubElement(n_split, "feature").text = repr(feature_idx)
             etree.SubElement(n_split, "threshold").text = repr(feature_threshold)
-- 
2.43.0


From 79cf1ed29991dc0821b38b611d48df69ce0d6f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:54 +0000
Subject: [PATCH 16/82] fix: topological analysis of trees whose nodes are not
 stored after their parent

---
 rankeval/analysis/_efficient_topological.pyx | 51 ++++++++++----------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/rankeval/analysis/_efficient_topological.pyx b/rankeval/analysis/_efficient_topological.pyx
index 25cf9b4..f2e1e1b 100644
--- a/rankeval/analysis/_efficient_topological.pyx
+++ b/rankeval/analysis/_efficient_topological.pyx
@@ -34,16 +34,13 @@ def efficient_topological_analysis(model, include_leaves=True):
     cdef bint c_include_leaves = include_leaves
 
     cdef np.intp_t idx_tree
-    cdef int idx_last_node
     with nogil, parallel():
         for idx_tree in prange(n_trees):
-            idx_last_node = trees_root[idx_tree+1] if idx_tree < n_trees-1 else n_nodes
-            height_trees[idx_tree] = _compute_node_indices(idx_tree,
-                                                           trees_root,
+            height_trees[idx_tree] = _compute_node_indices(trees_root[idx_tree],
+                                                           0,
                                                            trees_left_child,
                                                            trees_right_child,
                                                            node_indices_view,
-                                                           idx_last_node,
                                                            c_include_leaves)
 
     # Computes unique indices and counts the occurrences of each index (aggregate)
@@ -73,31 +70,33 @@ def efficient_topological_analysis(model, include_leaves=True):
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
-cdef int _compute_node_indices(np.intp_t idx_tree,
-                               int[:] trees_root,
+cdef int _compute_node_indices(int cur_node,
+                               unsigned long long index,
                                int[:] trees_left_child,
                                int[:] trees_right_child,
                                unsigned long long[:] node_indices,
-                               int idx_last_node,
                                bint include_leaves) nogil:
-
-    cdef int cur_node = trees_root[idx_tree]
-    cdef unsigned long long left_value, right_value, max_index = 0
-    while cur_node < idx_last_node:
-        if _is_leaf_node(cur_node, trees_left_child, trees_right_child):
-            if not include_leaves:
-                node_indices[cur_node] = 0
-        else:
-            left_value = 2 * node_indices[cur_node] + 1
-            right_value = 2 * node_indices[cur_node] + 2
-            node_indices[trees_left_child[cur_node]] = left_value
-            node_indices[trees_right_child[cur_node]] = right_value
-            max_index = max(max_index, left_value)
-            max_index = max(max_index, right_value)
-        cur_node += 1
-
-    cdef int height = most_significant_bit(max_index + 1)
-    return height
+    # The children are not required to follow their parent in the model arrays,
+    # thus the tree is visited starting from its root. Returns the height of the
+    # subtree rooted in cur_node.
+    if _is_leaf_node(cur_node, trees_left_child, trees_right_child):
+        node_indices[cur_node] = index if include_leaves else 0
+        return 0
+
+    node_indices[cur_node] = index
+    cdef int left_height = _compute_node_indices(trees_left_child[cur_node],
+                                                 2 * index + 1,
+                                                 trees_left_child,
+                                                 trees_right_child,
+                                                 node_indices,
+                                                 include_leaves)
+    cdef int right_height = _compute_node_indices(trees_right_child[cur_node],
+                                                  2 * index + 2,
+                                                  trees_left_child,
+                                                  trees_right_child,
+                                                  node_indices,
+                                                  include_leaves)
+    return 1 + max(left_height, right_height)
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
-- 
2.43.0


From eafedb58cd9640208cec5019fda758201fd62e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:54 +0000
Subject: [PATCH 17/82] fix: column of the nodes at more than 53 levels of
 depth in the topological analysis

---
 rankeval/analysis/_efficient_topological.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/analysis/_efficient_topological.pyx b/rankeval/analysis/_efficient_topological.pyx
index f2e1e1b..8ce0b91 100644
--- a/rankeval/analysis/_efficient_topological.pyx
+++ b/rankeval/analysis/_efficient_topological.pyx
@@ -64,7 +64,7 @@ def efficient_topological_analysis(model, include_leaves=True):
     with nogil, parallel():
         for idx_data in prange(data_indices_size):
             row_ind[idx_data] = most_significant_bit(data_indices_view[idx_data] + 1)
-            col_ind[idx_data] = data_indices_view[idx_data] + 1 - 2**row_ind[idx_data]
+            col_ind[idx_data] = data_indices_view[idx_data] + 1 - ((<unsigned long long>1) << row_ind[idx_data])
 
     return sc.sparse.csr_matrix((counts_view, (row_ind, col_ind)), dtype=np.float32), np.asarray(height_trees)
 
-- 
2.43.0


From 9b07c3159698a6ccc234780c2385fd1b19029fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:03 +0000
Subject: [PATCH 18/82] fix: store the MSE of each query by its position and
 not by its id

---
 rankeval/metrics/mse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rankeval/metrics/mse.py b/rankeval/metrics/mse.py
index 2cc4f04..7f941ad 100644
--- a/rankeval/metrics/mse.py
+++ b/rankeval/metrics/mse.py
@@ -58,8 +58,9 @@ class MSE(Metric):
 
         self.detailed_scores = np.zeros(dataset.n_queries, dtype=np.float32)
 
-        for qid, q_y, q_y_pred in self.query_iterator(dataset, y_pred):
-            self.detailed_scores[qid] = \
+        for rel_qid, (qid, q_y, q_y_pred) in enumerate(
+                self.query_iterator(dataset, y_pred)):
+            self.detailed_scores[rel_qid] = \
                 self.eval_per_query(q_y, q_y_pred) / dataset.n_instances
         return self.detailed_scores.sum(), self.detailed_scores
 
-- 
2.43.0


From c29a7df31f4bff7cb81a37f2697cd2b490f72bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:03 +0000
Subject: [PATCH 19/82] fix: average precision is zero when the relevant
 documents are below the cutoff

---
 rankeval/metrics/map.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rankeval/metrics/map.py b/rankeval/metrics/map.py
index dba121b..666c104 100644
--- a/rankeval/metrics/map.py
+++ b/rankeval/metrics/map.py
@@ -105,8 +105,9 @@ class MAP(Metric):
                 n_relevant_retrieved_at_i += 1
                 precision_at_i += n_relevant_retrieved_at_i / (i + 1)
 
-        if n_relevant_retrieved_at_i > 0:
-            return precision_at_i / min(n_retrieved, np.count_nonzero(y))
+        n_relevant = np.count_nonzero(y > 0)
+        if n_relevant > 0:
+            return precision_at_i / min(n_retrieved, n_relevant)
         else:
             return self.no_relevant_results
 
-- 
2.43.0


From 9812c7e97e8b0472baaf57b57a1ff4cfb136a0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:03 +0000
Subject: [PATCH 20/82] fix: Pfound examines the next document with the
 probability of not abandoning

---
 rankeval/metrics/pfound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/metrics/pfound.py b/rankeval/metrics/pfound.py
index b7c4b4e..69b2b17 100644
--- a/rankeval/metrics/pfound.py
+++ b/rankeval/metrics/pfound.py
@@ -105,7 +105,7 @@ class Pfound(Metric):
 
         for i, idx in enumerate(idx_y_pred_sorted):
             utility = (pow(2., y[idx]) - 1.) / pow(2., max_grade)
-            pfound += prob_step_down * utility * pow(self.p_abandonment, i)
+            pfound += prob_step_down * utility * pow(1. - self.p_abandonment, i)
             prob_step_down *= (1. - utility)
 
         return pfound
-- 
2.43.0


From 8ec527ec2ff2f1f7a19c660739d307f0f7f66d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:03 +0000
Subject: [PATCH 21/82] fix: do not use an argument removed from scipy in
 Kendall's tau

---
 rankeval/metrics/kendall_tau.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/metrics/kendall_tau.py b/rankeval/metrics/kendall_tau.py
index 07197f1..f14bc68 100644
--- a/rankeval/metrics/kendall_tau.py
+++ b/rankeval/metrics/kendall_tau.py
@@ -90,7 +90,7 @@ class Kendalltau(Metric):
         kendalltau: float
             The Kendall tau per query.
         """
-        kendall_tau = stats.kendalltau(y, y_pred, initial_lexsort=True)
+        kendall_tau = stats.kendalltau(y, y_pred)
         return kendall_tau.correlation
 
 
-- 
2.43.0


From 1e42fc2276bbfb2bccc57b027eb97f11570217d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:53 +0000
Subject: [PATCH 22/82] fix: tree-wise performance of models of different
 sizes, or smaller than the step

---
 rankeval/analysis/effectiveness.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 836a2cd..8eb62b7 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -115,16 +115,13 @@ def tree_wise_performance(datasets, models, metrics, step=10, cache=False):
     def get_tree_steps(model_trees):
         trees = list(xrange(step-1, model_trees, step))
         # Add last tree to the steps
-        if trees[-1] != model_trees-1:
+        if not trees or trees[-1] != model_trees-1:
             trees.append(model_trees-1)
         return np.array(trees)
 
-    max_num_trees = 0
-    for model in models:
-        if model.n_trees > max_num_trees:
-            max_num_trees = model.n_trees
-
-    tree_steps = get_tree_steps(max_num_trees)
+    # the reported steps are the ones of all the models (of different sizes)
+    tree_steps = np.unique(np.concatenate(
+        [get_tree_steps(model.n_trees) for model in models]))
 
     data = np.full(shape=(len(datasets), len(models), len(tree_steps),
                           len(metrics)), fill_value=np.nan, dtype=np.float32)
@@ -133,7 +130,7 @@ def tree_wise_performance(datasets, models, metrics, step=10, cache=False):
     if ipywidgets:
         progress_bar = ipywidgets.IntProgress(
             min=0, max=len(datasets)*len(metrics)*
-            sum([len(get_tree_steps(model.n_trees)) for model in models ]),
+            sum([np.sum(tree_steps < model.n_trees) for model in models]),
             description="Computing metrics")
         display(progress_bar)
 
@@ -146,14 +143,18 @@ def tree_wise_performance(datasets, models, metrics, step=10, cache=False):
             # (in order to avoid useless re-scoring)
             y_pred = np.zeros(dataset.n_instances)
 
-            for idx_top_k, top_k in enumerate(get_tree_steps(model.n_trees)):
+            idx_tree_start = 0
+            for idx_top_k, top_k in enumerate(tree_steps):
+                # the performance is undefined beyond the size of the model
+                if top_k >= model.n_trees:
+                    break
 
                 # compute the document scores using only top-k trees of
                 # the model on the given dataset
-                idx_tree_start = idx_top_k * step
                 idx_tree_stop = top_k + 1
 
                 y_pred += partial_y_pred[:, idx_tree_start:idx_tree_stop].sum(axis=1)
+                idx_tree_start = idx_tree_stop
 
                 # compute the metric score using the predicted document scores
                 for idx_metric, metric in enumerate(metrics):
-- 
2.43.0


From ede5c37f1c5f1160954f78a7f7199a548138d8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:53 +0000
Subject: [PATCH 23/82] fix: label the bins with their upper bound for any
 range

---
 rankeval/analysis/effectiveness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 8eb62b7..427be2f 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -308,7 +308,7 @@ def query_wise_performance(datasets, models, metrics, bins=None,
     performance = xr.DataArray(data,
                                name='Query-Wise Performance',
                                coords=[datasets, models, metrics,
-                                       bin_values[:-1] + 1.0 / bins],
+                                       bin_values[1:]],
                                dims=['dataset', 'model', 'metric', 'bin'])
     return performance
 
@@ -474,7 +474,7 @@ def document_graded_relevance(datasets, models, bins=100, start=None, end=None,
     performance = xr.DataArray(data,
                                name='Document Graded Relevance',
                                coords=[datasets, models, rel_labels,
-                                       bin_values[:-1] + 1.0 / bins],
+                                       bin_values[1:]],
                                dims=['dataset', 'model', 'label', 'bin'])
     return performance
 
-- 
2.43.0


From 3822554680d47e8d3f972755fd21ebc85b5d722c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:53 +0000
Subject: [PATCH 24/82] fix: range of the query-wise performance when the
 metric is undefined on some queries

---
 rankeval/analysis/effectiveness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 427be2f..2f98103 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -279,8 +279,8 @@ def query_wise_performance(datasets, models, metrics, bins=None,
             for idx_metric, metric in enumerate(metrics):
                 _, metric_scores = metric.eval(dataset, y_pred)
                 glob_metric_scores[idx_dataset][idx_model][idx_metric] = metric_scores
-                min_metric_score = np.nanmin([min_metric_score, metric_scores.min()])
-                max_metric_score = np.nanmax([max_metric_score, metric_scores.max()])
+                min_metric_score = np.nanmin([min_metric_score, np.nanmin(metric_scores)])
+                max_metric_score = np.nanmax([max_metric_score, np.nanmax(metric_scores)])
 
     if start is None:
         start = min_metric_score
-- 
2.43.0


From 9b0b03efa23532f889dd5ac3137ca2197e364b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:53 +0000
Subject: [PATCH 25/82] fix: bins=None in document_graded_relevance

---
 rankeval/analysis/effectiveness.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 2f98103..73107b0 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -448,6 +448,8 @@ def document_graded_relevance(datasets, models, bins=100, start=None, end=None,
         start = min_doc_score
     if end is None:
         end = max_doc_score
+    if bins is None:
+        bins = np.max([dataset.n_queries for dataset in datasets])
 
     bin_values = np.linspace(start=start, stop=end, num=bins+1)
 
-- 
2.43.0


From e0e9b643d4b4d47a3eaa4191e5af96cd9e010402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:53 +0000
Subject: [PATCH 26/82] fix: query classes given as lists

---
 rankeval/analysis/effectiveness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 73107b0..6c44d3c 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -374,7 +374,7 @@ def query_class_performance(datasets, models, metrics, query_classes,
         for idx_model, model in enumerate(models):
             for idx_metric, metric in enumerate(metrics):
                 for idx_query_class, query_class in enumerate(unique_classes):
-                    indices = np.where(query_classes[idx_dataset] == query_class)
+                    indices = np.where(np.asarray(query_classes[idx_dataset]) == query_class)
                     # If this query class is not present in this dataset, skip it
                     if not len(indices):
                         continue
-- 
2.43.0


From 61a5acce210ff3ffd0c18c018aeeaf0fc71107d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:53 +0000
Subject: [PATCH 27/82] fix: labels of datasets of different sizes

---
 rankeval/analysis/effectiveness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 6c44d3c..73accbd 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -453,7 +453,7 @@ def document_graded_relevance(datasets, models, bins=100, start=None, end=None,
 
     bin_values = np.linspace(start=start, stop=end, num=bins+1)
 
-    rel_labels = np.sort(np.unique([dataset.y for dataset in datasets]))
+    rel_labels = np.unique(np.concatenate([dataset.y for dataset in datasets]))
 
     data = np.full(shape=(len(datasets), len(models), len(rel_labels), bins),
                    fill_value=np.nan, dtype=np.float32)
@@ -512,7 +512,7 @@ def rank_confusion_matrix(datasets, models, skip_same_label=False, cache=False):
         documents with a predicted score smaller than documents with label l_j
     """
 
-    rel_labels = np.sort(np.unique([dataset.y for dataset in datasets])).astype(np.int32)
+    rel_labels = np.unique(np.concatenate([dataset.y for dataset in datasets])).astype(np.int32)
 
     data = np.zeros(shape=(len(datasets), len(models), len(rel_labels),
                            len(rel_labels)), dtype=np.int32)
-- 
2.43.0


From a25275c659af87596093df3ab2be6b025b739e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:53 +0000
Subject: [PATCH 28/82] fix: rank confusion matrix of labels that are not
 contiguous

---
 rankeval/analysis/effectiveness.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 73accbd..d96b59e 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -518,6 +518,8 @@ def rank_confusion_matrix(datasets, models, skip_same_label=False, cache=False):
                            len(rel_labels)), dtype=np.int32)
 
     for idx_dataset, dataset in enumerate(datasets):
+        # position of the label of each document in the matrix
+        y_idx = np.searchsorted(rel_labels, dataset.y.astype(np.int32))
         for idx_model, model in enumerate(models):
             y_pred = model.score(dataset, detailed=False, cache=cache)
             for query_id, start_offset, end_offset in dataset.query_iterator():
@@ -526,8 +528,8 @@ def rank_confusion_matrix(datasets, models, skip_same_label=False, cache=False):
                         # check if the two documents have the same label and skip them
                         if skip_same_label and dataset.y[i] == dataset.y[j]:
                             continue
-                        y_i = dataset.y[i].astype(np.int32)
-                        y_j = dataset.y[j].astype(np.int32)
+                        y_i = y_idx[i]
+                        y_j = y_idx[j]
                         if y_pred[i] < y_pred[j]:
                             data[idx_dataset][idx_model][y_i, y_j] += 1
                         else:
-- 
2.43.0


From 0f73c53fe001eb2c23862b38b714e95a6077992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:10 +0000
Subject: [PATCH 29/82] fix: feature importance with RMSE takes the root of
 every feature

---
 rankeval/analysis/feature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/analysis/feature.py b/rankeval/analysis/feature.py
index 3472958..4579f26 100644
--- a/rankeval/analysis/feature.py
+++ b/rankeval/analysis/feature.py
@@ -64,7 +64,8 @@ def feature_importance(model, dataset, metric=None, normalize=True):
     if isinstance(metric, RMSE) or isinstance(metric, MSE):
         feature_imp, feature_count = eff_feature_importance(model, dataset)
         if isinstance(metric, RMSE):
-            feature_imp[0] = np.sqrt(feature_imp[0])
+            # rounding can make the gain of a useless split slightly negative
+            feature_imp = np.sqrt(np.maximum(feature_imp, 0))
     else:
         # initialize features importance
         feature_imp = np.zeros(dataset.n_features, dtype=np.float32)
-- 
2.43.0


From 364c70dfd41096c3637a3a7099b030bd439742e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:10 +0000
Subject: [PATCH 30/82] fix: feature importance of splits that send all the
 instances to the right

---
 rankeval/analysis/_efficient_feature_impl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/analysis/_efficient_feature_impl.cpp b/rankeval/analysis/_efficient_feature_impl.cpp
index 4c733b9..e5b5011 100644
--- a/rankeval/analysis/_efficient_feature_impl.cpp
+++ b/rankeval/analysis/_efficient_feature_impl.cpp
@@ -103,6 +103,7 @@ void c_feature_importance_tree(
         // Split the instances in left-right (end_id will be the frontier)
         int start_id = node.start_id;
         int end_id = node.end_id;
+        const int node_end_id = node.end_id;
         float y_target_mean_left = 0, y_target_mean_right = 0;
         unsigned int instance;
         while (start_id <= end_id) {
@@ -129,7 +130,7 @@ void c_feature_importance_tree(
         // compute split gain
         float delta_mse = 0;
         #pragma omp parallel for reduction( + : delta_mse )
-        for (unsigned int i = node.start_id; i <= node.end_id; ++i) {
+        for (int i = node.start_id; i <= node_end_id; ++i) {
             unsigned int instance = split_instance[i];
             float pre_split_mse =
                 pow(y_target[instance] - y_pred_tree[instance], 2);
-- 
2.43.0


From dfbc67b0d584d4c38857e197c92f6025cb77aaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:10 +0000
Subject: [PATCH 31/82] fix: feature importance of trees made by a single leaf

---
 rankeval/analysis/_efficient_feature_impl.cpp | 5 ++++-
 rankeval/analysis/feature.py                  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature_impl.cpp b/rankeval/analysis/_efficient_feature_impl.cpp
index e5b5011..7b0d865 100644
--- a/rankeval/analysis/_efficient_feature_impl.cpp
+++ b/rankeval/analysis/_efficient_feature_impl.cpp
@@ -87,7 +87,10 @@ void c_feature_importance_tree(
         y_pred_tree[instance] = mean_y_target;
 
     TreeNode root(trees_root[tree_id], 0, n_instances - 1);
-    std::vector<TreeNode> queue = { root };
+    std::vector<TreeNode> queue;
+    // a tree made by a single leaf does not have any split
+    if (!is_leaf_node(root.node_id, trees_left_child, trees_right_child))
+        queue.push_back(root);
 
     while (!queue.empty()) {
 
diff --git a/rankeval/analysis/feature.py b/rankeval/analysis/feature.py
index 4579f26..09002a1 100644
--- a/rankeval/analysis/feature.py
+++ b/rankeval/analysis/feature.py
@@ -140,7 +140,10 @@ def _feature_importance_tree(model, dataset, tree_id, y_pred, metric,
 
     # queue with node_id to be visited and list of documents in the node
     root_node_id = model.trees_root[tree_id]
-    deq = deque([(root_node_id, 0, None)])
+    deq = deque()
+    # a tree made by a single leaf does not have any split
+    if not model.is_leaf_node(root_node_id):
+        deq.append((root_node_id, 0, None))
 
     # we score the tree on a level basis, so that the feature_gain of each split
     # node is computed accordingly to the predictions of the parent level
-- 
2.43.0


From 2e5031b8c1ccf43b0162aed50fa830613634213a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:10 +0000
Subject: [PATCH 32/82] fix: feature importance sends missing values to the
 right, as the scoring does

---
 rankeval/analysis/feature.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/feature.py b/rankeval/analysis/feature.py
index 09002a1..634ec09 100644
--- a/rankeval/analysis/feature.py
+++ b/rankeval/analysis/feature.py
@@ -168,10 +168,10 @@ def _feature_importance_tree(model, dataset, tree_id, y_pred, metric,
             left_docs = \
                 doc_list[dataset.X[doc_list, feature_id] <= threshold]
             right_docs = \
-                doc_list[dataset.X[doc_list, feature_id] > threshold]
+                doc_list[~(dataset.X[doc_list, feature_id] <= threshold)]
         else:
             left_docs = np.where(dataset.X[:, feature_id] <= threshold)[0]
-            right_docs = np.where(dataset.X[:, feature_id] > threshold)[0]
+            right_docs = np.where(~(dataset.X[:, feature_id] <= threshold))[0]
 
         # copy parent predictions inside y_pred_mod
         y_pred_mod[:] = y_pred_tree_depth[depth]
-- 
2.43.0


From 3da470dceec0b87b61f004264260c161b971e836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:10 +0000
Subject: [PATCH 33/82] fix: feature importance refuses models that use
 features the dataset does not have

---
 rankeval/analysis/feature.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rankeval/analysis/feature.py b/rankeval/analysis/feature.py
index 634ec09..0d044ba 100644
--- a/rankeval/analysis/feature.py
+++ b/rankeval/analysis/feature.py
@@ -61,6 +61,12 @@ def feature_importance(model, dataset, metric=None, normalize=True):
     if metric is None:
         metric = MSE()
 
+    # check that the features used by the model are "compatible" with the
+    # features in the dataset (at least, in terms of their number)
+    if np.max(model.trees_nodes_feature) + 1 > dataset.n_features:
+        raise RuntimeError("Dataset features are not compatible with "
+                           "model features")
+
     if isinstance(metric, RMSE) or isinstance(metric, MSE):
         feature_imp, feature_count = eff_feature_importance(model, dataset)
         if isinstance(metric, RMSE):
-- 
2.43.0


From 8b17fc66e1d406a94a9e5e9c1d39c0586eb28ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:10 +0000
Subject: [PATCH 34/82] fix: feature importance of datasets that are not stored
 in row-major order

---
 rankeval/analysis/_efficient_feature.pyx | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature.pyx b/rankeval/analysis/_efficient_feature.pyx
index 2e3e2c8..7233eb8 100644
--- a/rankeval/analysis/_efficient_feature.pyx
+++ b/rankeval/analysis/_efficient_feature.pyx
@@ -60,9 +60,13 @@ def eff_feature_importance(model, dataset):
     # initialize features importance
     feature_count = np.zeros(dataset.n_features, dtype=np.uint16)
 
+    # the implementation reads the values in row-major order
+    X = np.ascontiguousarray(dataset.X, dtype=np.float32)
+    y = np.ascontiguousarray(dataset.y, dtype=np.float32)
+
     c_feature_importance(
-        <float*> np.PyArray_DATA(dataset.X),
-        <float*> np.PyArray_DATA(dataset.y),
+        <float*> np.PyArray_DATA(X),
+        <float*> np.PyArray_DATA(y),
         <int*> np.PyArray_DATA(model.trees_root),
         <float*> np.PyArray_DATA(model.trees_weight),
         <short*> np.PyArray_DATA(model.trees_nodes_feature),
@@ -85,9 +89,13 @@ def eff_feature_importance_tree(model, dataset, tree_id, y_pred,
 
     y_pred_tree = np.zeros(dataset.n_instances, dtype=np.float32);
 
+    # the implementation reads the values in row-major order
+    X = np.ascontiguousarray(dataset.X, dtype=np.float32)
+    y = np.ascontiguousarray(dataset.y, dtype=np.float32)
+
     c_feature_importance_tree(
-        <float*> np.PyArray_DATA(dataset.X),
-        <float*> np.PyArray_DATA(dataset.y),
+        <float*> np.PyArray_DATA(X),
+        <float*> np.PyArray_DATA(y),
         <int*> np.PyArray_DATA(model.trees_root),
         <float*> np.PyArray_DATA(model.trees_weight),
         <short*> np.PyArray_DATA(model.trees_nodes_feature),
-- 
2.43.0


From ad84b1c9371dbfb7ebbc95833885d1bfe3e1ccbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:39 +0000
Subject: [PATCH 35/82] fix: feature importance does not count splits reached
 by no instance

---
 rankeval/analysis/_efficient_feature_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/analysis/_efficient_feature_impl.cpp b/rankeval/analysis/_efficient_feature_impl.cpp
index 7b0d865..bd5e870 100644
--- a/rankeval/analysis/_efficient_feature_impl.cpp
+++ b/rankeval/analysis/_efficient_feature_impl.cpp
@@ -155,7 +155,7 @@ void c_feature_importance_tree(
         // if children are not leaves, add in the queue of the nodes to visit
         if (!is_leaf_node(trees_left_child[node_id],
                           trees_left_child,
-                          trees_right_child) && end_id > node.start_id) {
+                          trees_right_child) && left_docs > 1) {
 
             TreeNode left(trees_left_child[node_id], node.start_id, end_id);
             queue.push_back(left);
-- 
2.43.0


From 48b9945a2625cb435639ea000b61f3d4d780d12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:10 +0000
Subject: [PATCH 36/82] fix: bias_variance with versions of numpy that do not
 have np.bool

---
 rankeval/analysis/statistical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/statistical.py b/rankeval/analysis/statistical.py
index 87c2693..84e75ad 100644
--- a/rankeval/analysis/statistical.py
+++ b/rankeval/analysis/statistical.py
@@ -214,7 +214,7 @@ def _kfold_scoring(dataset, k, algo):
         # p-th fold is used for testing
         test_rows = np.full(dataset.n_instances,
                             fill_value=False,
-                            dtype=np.bool)
+                            dtype=bool)
         for q in shuffled_qid[p: p + chunk_query_size]:
             test_rows[dataset.query_offsets[q]:dataset.query_offsets[q+1]] = True
         # other folds are used for training
@@ -222,7 +222,7 @@ def _kfold_scoring(dataset, k, algo):
 
         train_q = np.full(dataset.n_queries,
                           fill_value=True,
-                          dtype=np.bool)
+                          dtype=bool)
         train_q[shuffled_qid[p: p+chunk_query_size]] = False
 
         # get algorithm predictions
-- 
2.43.0


From 3f652732b5631ca07d83251abc374f2a9786d1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:10 +0000
Subject: [PATCH 37/82] fix: bias_variance outside notebooks

---
 rankeval/analysis/statistical.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rankeval/analysis/statistical.py b/rankeval/analysis/statistical.py
index 84e75ad..7ca8f8e 100644
--- a/rankeval/analysis/statistical.py
+++ b/rankeval/analysis/statistical.py
@@ -235,9 +235,10 @@ def _kfold_scoring(dataset, k, algo):
         # update scores for the current fold
         scores[test_rows] = fold_scores
         
-    progress_bar.bar_style = "success"
-    progress_bar.close()
-        
+    if ipywidgets:
+        progress_bar.bar_style = "success"
+        progress_bar.close()
+
     return scores
 
 
-- 
2.43.0


From d364628d8e0b889b2c8693c5bb337b5a8a67b952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:10 +0000
Subject: [PATCH 38/82] fix: p-values of the randomization test do not depend
 on rounding errors

---
 rankeval/analysis/statistical.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/rankeval/analysis/statistical.py b/rankeval/analysis/statistical.py
index 7ca8f8e..d5bc822 100644
--- a/rankeval/analysis/statistical.py
+++ b/rankeval/analysis/statistical.py
@@ -127,8 +127,8 @@ def _randomization(metric_scores_a, metric_scores_b, n_perm=100000):
         display(progress_bar)
 
     # find the best system
-    metric_scores_a_mean = np.mean(metric_scores_a)
-    metric_scores_b_mean = np.mean(metric_scores_b)
+    metric_scores_a_mean = np.mean(metric_scores_a, dtype=np.float64)
+    metric_scores_b_mean = np.mean(metric_scores_b, dtype=np.float64)
 
     best_metrics = metric_scores_a
     worst_metrics = metric_scores_b
@@ -136,15 +136,18 @@ def _randomization(metric_scores_a, metric_scores_b, n_perm=100000):
         best_metrics = metric_scores_b
         worst_metrics = metric_scores_a
 
-    difference = np.mean(best_metrics) - np.mean(worst_metrics)
-    abs_difference = np.abs(difference)
+    # per-query differences, in double precision: exchanging the scores of the
+    # two systems on a query changes the sign of the difference
+    differences = np.asarray(best_metrics, dtype=np.float64) - \
+        np.asarray(worst_metrics, dtype=np.float64)
+    difference = np.sum(differences)
+
+    # the same difference could be computed with a different rounding
+    difference -= 1e-12 * np.sum(np.abs(differences))
+    abs_difference = max(difference, 0.)
 
     p1 = 0.0  # one-sided
     p2 = 0.0  # two-sided
-    N = float(len(metric_scores_a))
-
-    a_sum = np.sum(best_metrics)
-    b_sum = np.sum(worst_metrics)
 
     # repeat n_prem times
     for i in range(n_perm):
@@ -154,15 +157,8 @@ def _randomization(metric_scores_a, metric_scores_b, n_perm=100000):
         # select a random subset
         sel = np.random.choice([False, True], len(metric_scores_a))
 
-        a_sel_sum = np.sum(best_metrics[sel])
-        b_sel_sum = np.sum(worst_metrics[sel])
-
-        # compute avg performance of randomized models
-        a_mean = (a_sum - a_sel_sum + b_sel_sum) / N
-        b_mean = (b_sum - b_sel_sum + a_sel_sum) / N
-
-        # performance difference
-        delta = a_mean - b_mean
+        # performance difference of the randomized models
+        delta = np.sum(np.where(sel, -differences, differences))
 
         if delta >= difference:
             p1 += 1.
-- 
2.43.0


From af47a83075a5fd9a94a9da699bdb53287b9246e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:10 +0000
Subject: [PATCH 39/82] fix: randomization test when the metric is undefined on
 some queries

---
 rankeval/analysis/statistical.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rankeval/analysis/statistical.py b/rankeval/analysis/statistical.py
index d5bc822..bd111cf 100644
--- a/rankeval/analysis/statistical.py
+++ b/rankeval/analysis/statistical.py
@@ -126,6 +126,11 @@ def _randomization(metric_scores_a, metric_scores_b, n_perm=100000):
             min=0, max=10, description="Randomization Test")
         display(progress_bar)
 
+    # the test considers the queries on which both the systems are defined
+    defined = ~(np.isnan(metric_scores_a) | np.isnan(metric_scores_b))
+    metric_scores_a = metric_scores_a[defined]
+    metric_scores_b = metric_scores_b[defined]
+
     # find the best system
     metric_scores_a_mean = np.mean(metric_scores_a, dtype=np.float64)
     metric_scores_b_mean = np.mean(metric_scores_b, dtype=np.float64)
-- 
2.43.0


From 8a9880c3205f32a1a087208147454c023334ef94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:06 +0000
Subject: [PATCH 40/82] fix: datasets without a validation file

---
 rankeval/dataset/datasets_fetcher.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/rankeval/dataset/datasets_fetcher.py b/rankeval/dataset/datasets_fetcher.py
index fc1444e..9cc9303 100644
--- a/rankeval/dataset/datasets_fetcher.py
+++ b/rankeval/dataset/datasets_fetcher.py
@@ -93,6 +93,11 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
             shutil.rmtree(data_home)
             os.makedirs(data_home)
 
+    # the catalogue marks a missing validation file with the string 'None'
+    validation_file = dataset_dictionary.get('VALIDATION_FILE')
+    if validation_file == 'None':
+        validation_file = None
+
     # preparing file names...
     archive_name = os.path.join(dataset_home, dataset_dictionary['DATASET_ARCHIVE_NAME'])
     models_archive_name = os.path.join(models_home, dataset_dictionary['MODELS_ARCHIVE_NAME'])
@@ -100,14 +105,14 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
     if fold is None:
         train_file_path = os.path.join(dataset_home, dataset_dictionary['TRAIN_FILE'])
         test_file_path = os.path.join(dataset_home, dataset_dictionary['TEST_FILE'])
-        if dataset_dictionary.get('VALIDATION_FILE') is not None:
-            validation_file_path = os.path.join(dataset_home, dataset_dictionary['VALIDATION_FILE'])
+        if validation_file is not None:
+            validation_file_path = os.path.join(dataset_home, validation_file)
     else:
         subfolder_fold = os.path.join(dataset_home, dataset_dictionary['COMMON_SUBFOLDER_NAME'] + str(fold))
         train_file_path = os.path.join(subfolder_fold, dataset_dictionary['TRAIN_FILE'])
         test_file_path = os.path.join(subfolder_fold, dataset_dictionary['TEST_FILE'])
-        if dataset_dictionary.get('VALIDATION_FILE') is not None:
-            validation_file_path = os.path.join(subfolder_fold, dataset_dictionary['VALIDATION_FILE'])
+        if validation_file is not None:
+            validation_file_path = os.path.join(subfolder_fold, validation_file)
         model_subfolder = os.path.join(models_home, dataset_dictionary['COMMON_SUBFOLDER_NAME'] + str(fold))
 
     # everything will be stored in a dictionary to return
@@ -143,7 +148,7 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
     data['train'] = train_file_path
     data['test'] = test_file_path
 
-    if dataset_dictionary.get('VALIDATION_FILE') is not None:
+    if validation_file is not None:
         data['validation'] = validation_file_path
 
     data['license_agreement'] = license_agreement
-- 
2.43.0


From 9f1936c5e888b6eed977b397e261dd9a7577d164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:06 +0000
Subject: [PATCH 41/82] fix: an interrupted download is not taken for complete
 data

---
 rankeval/dataset/datasets_fetcher.py | 68 ++++++++++++++++++----------
 1 file changed, 43 insertions(+), 25 deletions(-)

diff --git a/rankeval/dataset/datasets_fetcher.py b/rankeval/dataset/datasets_fetcher.py
index 9cc9303..62a21c5 100644
--- a/rankeval/dataset/datasets_fetcher.py
+++ b/rankeval/dataset/datasets_fetcher.py
@@ -50,6 +50,42 @@ def __get_data_home__(data_home=None):
     return data_home
 
 
+def __remove__(folder):
+    """
+    Remove the given folder. It is renamed first, so that an interruption does
+    not leave a folder which looks complete but is not.
+    """
+    partial = folder + ".partial"
+    if os.path.exists(partial):
+        shutil.rmtree(partial)
+    if os.path.exists(folder):
+        os.rename(folder, partial)
+        shutil.rmtree(partial)
+
+
+def __download__(url, archive_name, folder):
+    """
+    Download the given archive and decompress it in the given folder. The
+    folder appears only when its content is complete, hence a failed (or
+    interrupted) download is repeated by the next call.
+    """
+    partial = folder + ".partial"
+    if os.path.exists(partial):
+        shutil.rmtree(partial)
+    os.makedirs(partial)
+
+    opener = urlopen(url)
+    archive_name = os.path.join(partial, archive_name)
+    with open(archive_name, 'wb') as f:
+        f.write(opener.read())
+
+    print ("Decompressing %s" % archive_name)
+    with tarfile.open(archive_name, "r:gz") as archive:
+        archive.extractall(path=partial)
+    os.remove(archive_name)
+    os.rename(partial, folder)
+
+
 def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
                                  download_if_missing=True, force_download=True,
                                  with_models=True):
@@ -87,11 +123,10 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
     if (fold is not None) and (dataset_dictionary.get('COMMON_SUBFOLDER_NAME') is None):
         raise Exception('no k-fold available for the dataset')
 
-    # delete data_home if force_download is True, then re-create data_home dir
+    # delete the local data if force_download is True
     if force_download:
-        if os.path.exists(data_home):
-            shutil.rmtree(data_home)
-            os.makedirs(data_home)
+        __remove__(dataset_home)
+        __remove__(models_home)
 
     # the catalogue marks a missing validation file with the string 'None'
     validation_file = dataset_dictionary.get('VALIDATION_FILE')
@@ -99,8 +134,8 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
         validation_file = None
 
     # preparing file names...
-    archive_name = os.path.join(dataset_home, dataset_dictionary['DATASET_ARCHIVE_NAME'])
-    models_archive_name = os.path.join(models_home, dataset_dictionary['MODELS_ARCHIVE_NAME'])
+    archive_name = dataset_dictionary['DATASET_ARCHIVE_NAME']
+    models_archive_name = dataset_dictionary['MODELS_ARCHIVE_NAME']
 
     if fold is None:
         train_file_path = os.path.join(dataset_home, dataset_dictionary['TRAIN_FILE'])
@@ -123,19 +158,11 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
         dataset_already_downloaded = True
 
     if not dataset_already_downloaded:
-        os.makedirs(dataset_home)
-
         print ("Downloading dataset. This may take a few minutes.")
 
         data_url = dataset_dictionary['DATASET_URL']
         print ("Downloading dataset from %s " % data_url)
-        opener = urlopen(data_url)
-        with open(archive_name, 'wb') as f:
-            f.write(opener.read())
-
-        print ("Decompressing %s" % archive_name)
-        tarfile.open(archive_name, "r:gz").extractall(path=dataset_home)
-        os.remove(archive_name)
+        __download__(data_url, archive_name, dataset_home)
 
     license_agreement = ""
     if dataset_dictionary.get('LICENSE_FILE') is not None:
@@ -160,18 +187,9 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
             models_already_downloaded = True
 
         if not models_already_downloaded:
-            os.makedirs(models_home)
-
             models_url = dataset_dictionary['MODELS_URL']
             print ("Downloading letor models from %s" % models_url)
-            opener = urlopen(models_url)
-            with open(models_archive_name, 'wb') as f:
-                f.write(opener.read())
-
-            print ("Decompressing %s" % models_archive_name)
-            tarfile.open(models_archive_name, "r:gz").extractall(
-                path=models_home)
-            os.remove(models_archive_name)
+            __download__(models_url, models_archive_name, models_home)
 
         # filling data structure to return
         matches = []
-- 
2.43.0


From c11d53b17717b0ddce2c23387deb659e374dc765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:06 +0000
Subject: [PATCH 42/82] fix: download_if_missing=False never downloads

---
 rankeval/dataset/datasets_fetcher.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rankeval/dataset/datasets_fetcher.py b/rankeval/dataset/datasets_fetcher.py
index 62a21c5..6df794a 100644
--- a/rankeval/dataset/datasets_fetcher.py
+++ b/rankeval/dataset/datasets_fetcher.py
@@ -117,14 +117,17 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
     models_home = os.path.join(data_home, "models")
 
     # DATASET
-    if not download_if_missing and not os.path.exists(data_home):
-        raise IOError('dataset not found')
+    if not download_if_missing:
+        if not os.path.exists(dataset_home):
+            raise IOError('dataset not found')
+        if with_models and not os.path.exists(models_home):
+            raise IOError('models not found')
 
     if (fold is not None) and (dataset_dictionary.get('COMMON_SUBFOLDER_NAME') is None):
         raise Exception('no k-fold available for the dataset')
 
     # delete the local data if force_download is True
-    if force_download:
+    if force_download and download_if_missing:
         __remove__(dataset_home)
         __remove__(models_home)
 
-- 
2.43.0


From e641c0886f383372a8538880cb69782ab0c96860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:04 +0000
Subject: [PATCH 43/82] fix: datasets that differ in the sign of a zero are
 equal, hence hash alike

---
 rankeval/dataset/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index e473b4a..61f8749 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -412,7 +412,8 @@ class Dataset(object):
 
             h = hashlib.md5()
             for arr in [self.X, self.y, self.query_ids, self.query_offsets]:
-                h.update(np.ascontiguousarray(arr))
+                # adding zero makes negative zeros, equal to zero, positive
+                h.update(np.ascontiguousarray(arr + 0))
             self._hash_cached = int(h.hexdigest(), 16)
 
         return self._hash_cached
-- 
2.43.0


From 3aec92836f0c09d3ad14b1e6682397725a72e47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:32 +0000
Subject: [PATCH 44/82] fix: splitting a dataset with negative (or very large)
 query ids lost their queries

---
 rankeval/dataset/dataset.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index 61f8749..12b8052 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -202,10 +202,7 @@ class Dataset(object):
         vali_qn = min(int(round(vali_size * self.n_queries)),
                       self.n_queries - train_qn)
 
-        qid_map = np.ndarray(self.n_instances, dtype=np.uint32)
-        for qid, start_offset, end_offset in self.query_iterator():
-            for idx in np.arange(start_offset, end_offset):
-                qid_map[idx] = qid
+        qid_map = self.get_qids_dataset(dtype=self.query_ids.dtype)
 
         # add queries shuffling
         rng = Dataset._check_random_state(random_state)
-- 
2.43.0


From 2879e5f9063cfd38ddedb6d3753fa30a317a5370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:32 +0000
Subject: [PATCH 45/82] fix: query ids of more than 32 bits were truncated by
 get_qids_dataset, losing rows of subsets and folds

---
 rankeval/dataset/dataset.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index 12b8052..a0c8636 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -279,17 +279,25 @@ class Dataset(object):
         """
         return np.ediff1d(self.query_offsets)
 
-    def get_qids_dataset(self, dtype=np.int32):
+    def get_qids_dataset(self, dtype=None):
         """
         This method returns the query ids array in linear representation, i.e.,
         with the qid of each instance. Useful for creating a new dataset
         starting from a different one.
 
+        Parameters
+        ----------
+        dtype : numpy dtype
+            The type of the returned ids. If None, the type of the query ids of
+            the dataset is used, thus without altering them.
+
         Returns
         -------
         query_ids : numpy 1d array
             It is a ndarray of shape (n_instances,)
         """
+        if dtype is None:
+            dtype = self.query_ids.dtype
         query_ids = np.empty(shape=self.n_instances, dtype=dtype)
         for qid, start_offset, end_offset in self.query_iterator():
             query_ids[start_offset:end_offset] = qid
-- 
2.43.0


From 3551f52f16797eb37a89a6cbb1a38b0e6d28f484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:27 +0000
Subject: [PATCH 46/82] fix: Scorer.get_predicted_leaves always failed

---
 rankeval/scoring/scorer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/scoring/scorer.py b/rankeval/scoring/scorer.py
index 8952b14..702f30a 100644
--- a/rankeval/scoring/scorer.py
+++ b/rankeval/scoring/scorer.py
@@ -139,7 +139,7 @@ class Scorer(object):
             each dataset instance.
 
         """
-        if self.self.y_leaves is None:
+        if self.out_leaves is None:
             self.score(detailed=True)
-        return self.self.y_leaves
+        return self.out_leaves
 
-- 
2.43.0


From fbe8756455563973e3bfb2d06e4e55e755cf407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:27 +0000
Subject: [PATCH 47/82] fix: plot_shape drew over the first figure still open
 instead of a new one

---
 rankeval/visualization/topological.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/visualization/topological.py b/rankeval/visualization/topological.py
index 03a06d4..6674014 100644
--- a/rankeval/visualization/topological.py
+++ b/rankeval/visualization/topological.py
@@ -56,7 +56,7 @@ def plot_shape(topological, max_level=10):
     )
 
     # figure
-    fig = plt.figure(1, figsize=(12, 6))
+    fig = plt.figure(figsize=(12, 6))
 
     tr = Affine2D().translate(np.pi, 0) + PolarAxes.PolarTransform()
     x_ticks = [x+2. for x in range(max_levels-1)]
-- 
2.43.0


From cd74a009f1a5c022e8f682e89943e1a548ba1ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:27 +0000
Subject: [PATCH 48/82] fix: plot_shape drew every level half a level (and
 every node half a step) away from its place

---
 rankeval/visualization/topological.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/visualization/topological.py b/rankeval/visualization/topological.py
index 6674014..8631ff3 100644
--- a/rankeval/visualization/topological.py
+++ b/rankeval/visualization/topological.py
@@ -105,7 +105,7 @@ def plot_shape(topological, max_level=10):
                 z[start_idx:end_idx, level] = ts[level, node]
 
     # draw the tree nodes frequencies
-    h = ax.pcolormesh(theta, r, z, cmap=cm, vmin=0., vmax=1.)
+    h = ax.pcolormesh(theta, r, z[:-1, :-1], cmap=cm, vmin=0., vmax=1.)
 
     # color bar
     cax = fig.add_axes([.95, 0.15, 0.025, 0.8]) # axes for the colot bar
-- 
2.43.0


From e956493d306a94f1618e4d03ec146e701cf100d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:27 +0000
Subject: [PATCH 49/82] fix: plot_feature_importance showed usage counts modulo
 65536

---
 rankeval/visualization/feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/visualization/feature.py b/rankeval/visualization/feature.py
index 0d9a6c1..fb738c6 100644
--- a/rankeval/visualization/feature.py
+++ b/rankeval/visualization/feature.py
@@ -44,7 +44,7 @@ def plot_feature_importance(feature_perf, max_features=10, sort_by="gain",
     """
 
     feature_importance = feature_perf.sel(type='importance').data
-    feature_count = feature_perf.sel(type='count').data.astype(np.uint16)
+    feature_count = feature_perf.sel(type='count').data.astype(np.int64)
 
     # figure
     fig, ax1 = plt.subplots(figsize=(16, 5))
-- 
2.43.0


From a654e772ad44f411786e2884fa86c6a187efda98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:27 +0000
Subject: [PATCH 50/82] fix: plot_feature_importance failed with fewer features
 than max_features

---
 rankeval/visualization/feature.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rankeval/visualization/feature.py b/rankeval/visualization/feature.py
index fb738c6..c671ae6 100644
--- a/rankeval/visualization/feature.py
+++ b/rankeval/visualization/feature.py
@@ -62,8 +62,7 @@ def plot_feature_importance(feature_perf, max_features=10, sort_by="gain",
 
     if isinstance(max_features, six.integer_types):
         idx_sorted = idx_sorted[:max_features]
-    else:
-        max_features = len(feature_importance)
+    max_features = len(idx_sorted)
 
     top_features = idx_sorted
     top_importances = feature_importance[idx_sorted]
-- 
2.43.0


From e1f0b3e83c37c1f78820e9de5677ad5a6224e1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:27 +0000
Subject: [PATCH 51/82] fix: the feature importance plot could not be drawn
 when all importances are zero

---
 rankeval/visualization/feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/visualization/feature.py b/rankeval/visualization/feature.py
index c671ae6..3f27736 100644
--- a/rankeval/visualization/feature.py
+++ b/rankeval/visualization/feature.py
@@ -100,7 +100,7 @@ def plot_feature_importance(feature_perf, max_features=10, sort_by="gain",
 
     ax1.set_xlim(-bar_width/2 - bar_width, max_features - 1 + bar_width*5/2)
 
-    step_y = np.ceil(top_importances.max() * 10) / 100
+    step_y = max(np.ceil(np.abs(top_importances).max() * 10) / 100, 0.01)
     align_y_axis(ax1, ax2, step_y, 100, num_ticks=6)
 
     ax1.set_ylabel("Importance Gain")
-- 
2.43.0


From b1b0e99bbed307b4309800b1eee5b4ff50e8d899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:27 +0000
Subject: [PATCH 52/82] fix: init_plot_style asked for a style that matplotlib
 has renamed

---
 rankeval/visualization/effectiveness.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 6a75563..590962c 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -18,7 +18,10 @@ def init_plot_style():
     -------
 
     """
-    plt.style.use("seaborn-notebook")
+    # the seaborn styles have been renamed since matplotlib 3.6
+    plt.style.use("seaborn-v0_8-notebook"
+                  if "seaborn-v0_8-notebook" in plt.style.available
+                  else "seaborn-notebook")
     sns.set_palette("deep")
 
 
-- 
2.43.0


From c366e1c852be10cd10d79e9dafdd51771fbcdc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:27 +0000
Subject: [PATCH 53/82] fix: bar plots of performance failed on undefined
 values and hid negative ones

---
 rankeval/visualization/effectiveness.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 590962c..cc7b790 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -25,6 +25,19 @@ def init_plot_style():
     sns.set_palette("deep")
 
 
+def _score_limits(scores):
+    """
+    Limits of the y axis, so as to show all the given scores (undefined ones
+    excluded) starting from zero.
+    """
+    scores = scores[np.isfinite(scores)]
+    if scores.size == 0:
+        return [0, 1]
+    y_min = min(0, np.floor(scores.min()*1.4*10.)/10.)
+    y_max = max(0, np.ceil(scores.max()*1.4*10.)/10.)
+    return [y_min, y_max]
+
+
 def plot_model_performance(performance, compare="models", show_values=False):
     """
     This method plots the results obtained from the model_performance analysis.
@@ -106,8 +119,7 @@ def plot_model_performance(performance, compare="models", show_values=False):
         axes.set_title(performance.name + " for " + dataset.name)
         axes.yaxis.grid(True, zorder=0, ls="--")
         
-        y_max = np.ceil(performance.values.max()*1.4*10.)/10.
-        axes.set_ylim([0, y_max])
+        axes.set_ylim(_score_limits(performance.values))
         plt.tight_layout()
 
         fig_list.append(fig)
@@ -498,8 +510,7 @@ def plot_query_class_performance(performance, show_values=False, compare="models
                 axes[i, 0].set_ylabel("Metric Score")
                 axes[i, 0].set_xticks(ind - width/2. + max_width / 2.)
                 axes[i, 0].set_xticklabels(performance.coords['classes'].values)
-                y_max = np.ceil(performance.values.max()*1.4*10.)/10.
-                axes[i, 0].set_ylim([0, y_max])
+                axes[i, 0].set_ylim(_score_limits(performance.values))
 
             axes[i, 0].legend(performance.coords['metric'].values,
                               bbox_to_anchor=(1.05, 1),
@@ -534,8 +545,7 @@ def plot_query_class_performance(performance, show_values=False, compare="models
                 axes[i, 0].set_ylabel(metric)
                 axes[i, 0].set_xticks(ind - width / 2 + max_width / 2.)
                 axes[i, 0].set_xticklabels(performance.coords['classes'].values)
-                y_max = np.ceil(performance.values.max()*1.4*10.)/10.
-                axes[i, 0].set_ylim([0, y_max])
+                axes[i, 0].set_ylim(_score_limits(performance.values))
 
             axes[i, 0].legend(performance.coords['model'].values,
                               bbox_to_anchor=(1.05, 1),
-- 
2.43.0


From 103c7ed9f35a254d8cfc8937d912c706b56196a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:27 +0000
Subject: [PATCH 54/82] fix: plot_tree_wise_performance failed on a metric that
 is undefined for every number of trees

---
 rankeval/visualization/effectiveness.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index cc7b790..8f2ade3 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -164,9 +164,10 @@ def plot_tree_wise_performance(performance, compare="models"):
                                                model=model,
                                                metric=metric)
                     axes[i, 0].plot(k_values, metric_values.values, label=metric)
-                    max_k = np.nanargmax(metric_values)
-                    axes[i, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
-                                   fillstyle="none", label=None)
+                    if metric_values.notnull().any():
+                        max_k = np.nanargmax(metric_values)
+                        axes[i, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
+                                       fillstyle="none", label=None)
                 
                 axes[i, 0].plot([], [], "ok", fillstyle="none", label="Max")
                 axes[i, 0].set_ylabel(model)
@@ -190,9 +191,10 @@ def plot_tree_wise_performance(performance, compare="models"):
                                                model=model,
                                                metric=metric)
                     axes[j, 0].plot(k_values, metric_values.values, label=model)
-                    max_k = np.nanargmax(metric_values)
-                    axes[j, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
-                                   fillstyle = "none", label=None)
+                    if metric_values.notnull().any():
+                        max_k = np.nanargmax(metric_values)
+                        axes[j, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
+                                       fillstyle="none", label=None)
 
                 axes[j, 0].plot([], [], "ok", fillstyle="none", label="Max")
                 axes[j, 0].set_ylabel(metric)
@@ -216,9 +218,10 @@ def plot_tree_wise_performance(performance, compare="models"):
                                                model=model,
                                                metric=metric)
                     axes[j, 0].plot(k_values, metric_values.values, label=dataset.name)
-                    max_k = np.nanargmax(metric_values)
-                    axes[j, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
-                                   fillstyle = "none", label=None)
+                    if metric_values.notnull().any():
+                        max_k = np.nanargmax(metric_values)
+                        axes[j, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
+                                       fillstyle="none", label=None)
                 axes[j, 0].plot([], [], "ok", fillstyle="none", label="Max")
                 axes[j, 0].set_ylabel(metric)
                 axes[j, 0].yaxis.grid(True, zorder=0, ls="--")
-- 
2.43.0


From 32d9c57cc8da55b8d00c48a3652553d049a72988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:27 +0000
Subject: [PATCH 55/82] fix: panels of query-wise and class-wise plots were
 presented as those of the last model or metric

---
 rankeval/visualization/effectiveness.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 8f2ade3..0dadfc3 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -312,6 +312,7 @@ def plot_query_wise_performance(performance, compare="models"):
                     axes[i, 0].plot(performance.coords['bin'].values,
                                     metric_values.values*100, label=metric)
 
+                axes[i, 0].set_title(model)
                 axes[i, 0].set_ylabel("Query %")
                 axes[i, 0].yaxis.set_ticks(np.arange(0, 101, 25))
                 axes[i, 0].yaxis.grid(True, zorder=0, ls="--")
@@ -336,7 +337,7 @@ def plot_query_wise_performance(performance, compare="models"):
                 axes[j, 0].set_ylabel("Query %")
                 axes[j, 0].yaxis.set_ticks(np.arange(0, 101, 25))
                 axes[j, 0].yaxis.grid(True, zorder=0, ls="--")
-            axes[j, 0].set_xlabel(metric)
+                axes[j, 0].set_xlabel(metric)
             axes[j, 0].legend(bbox_to_anchor=(1.05, 1), loc=2, borderaxespad=0.)
             fig.tight_layout(rect=[0, 0.03, 1, 0.95])
             fig_list.append(fig)
@@ -509,6 +510,7 @@ def plot_query_class_performance(performance, show_values=False, compare="models
                                             ha='center', va='bottom', zorder=3)
 
                 # add some text for labels, title and axes ticks
+                axes[i, 0].set_title(model)
                 axes[i, 0].yaxis.grid(True, zorder=0, ls="--")
                 axes[i, 0].set_ylabel("Metric Score")
                 axes[i, 0].set_xticks(ind - width/2. + max_width / 2.)
@@ -518,8 +520,7 @@ def plot_query_class_performance(performance, show_values=False, compare="models
             axes[i, 0].legend(performance.coords['metric'].values,
                               bbox_to_anchor=(1.05, 1),
                               loc=2, borderaxespad=0.)
-            fig.suptitle(performance.name + " for " + dataset.name +
-                         " and model " + model.name)
+            fig.suptitle(performance.name + " for " + dataset.name)
 
             fig_list.append(fig)
 
-- 
2.43.0


From 6b49d73b32e11dc91b9d1e0f4607f0287609f8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:27 +0000
Subject: [PATCH 56/82] fix: plot_rank_confusion_matrix failed with a single
 label

---
 rankeval/visualization/effectiveness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 0dadfc3..b4d3136 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -407,7 +407,7 @@ def is_log_scale_matrix(matrix):
     """
     flat = matrix.values.flatten()
     flat.sort()
-    if flat[-1]/flat[-2] > 2:
+    if flat.size > 1 and flat[-1] > 2 * flat[-2]:
         return True
     else:
         return False
-- 
2.43.0


From 6032a73a170bddab081166eaab9349938d277ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:27 +0000
Subject: [PATCH 57/82] fix: the axes of the rank confusion matrix plot were
 labelled the wrong way round

---
 rankeval/visualization/effectiveness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index b4d3136..f4c8ac6 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -441,8 +441,8 @@ def plot_rank_confusion_matrix(performance):
             axes[i, 0].pcolormesh(matrix)
             axes[i, 0].set_title(performance.name + " for " + dataset.name +
                                 " and model " + model.name)
-            axes[i, 0].set_ylabel("Label j")
-            axes[i, 0].set_xlabel("Label i")
+            axes[i, 0].set_ylabel("Label i")
+            axes[i, 0].set_xlabel("Label j")
             # axes[i,0].legend(["Label "+str(int(l)) for l in
             # performance.coords['label'].values])
 
-- 
2.43.0


From 60e151052a70a22b82427cad8fe36df33e106cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:18 +0000
Subject: [PATCH 58/82] fix: features above 32767 overflowed the 16 bit
 integers of loaded models

---
 rankeval/analysis/_efficient_feature.pyx      | 8 ++++----
 rankeval/analysis/_efficient_feature_impl.cpp | 6 +++---
 rankeval/analysis/_efficient_feature_impl.h   | 4 ++--
 rankeval/model/rt_ensemble.py                 | 2 +-
 rankeval/scoring/_efficient_scoring.pyx       | 8 ++++----
 5 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature.pyx b/rankeval/analysis/_efficient_feature.pyx
index 7233eb8..77f5ebf 100644
--- a/rankeval/analysis/_efficient_feature.pyx
+++ b/rankeval/analysis/_efficient_feature.pyx
@@ -23,7 +23,7 @@ cdef extern from "_efficient_feature_impl.h":
         const float* y,
         const int* trees_root,
         const float* trees_weight,
-        const short* trees_nodes_feature,
+        const int* trees_nodes_feature,
         const float* trees_nodes_value,
         const int* trees_left_child,
         const int* trees_right_child,
@@ -38,7 +38,7 @@ cdef extern from "_efficient_feature_impl.h":
         const float* y,
         const int* trees_root,
         const float* trees_weight,
-        const short* trees_nodes_feature,
+        const int* trees_nodes_feature,
         const float* trees_nodes_value,
         const int* trees_left_child,
         const int* trees_right_child,
@@ -69,7 +69,7 @@ def eff_feature_importance(model, dataset):
         <float*> np.PyArray_DATA(y),
         <int*> np.PyArray_DATA(model.trees_root),
         <float*> np.PyArray_DATA(model.trees_weight),
-        <short*> np.PyArray_DATA(model.trees_nodes_feature),
+        <int*> np.PyArray_DATA(model.trees_nodes_feature),
         <float*> np.PyArray_DATA(model.trees_nodes_value),
         <int*> np.PyArray_DATA(model.trees_left_child),
         <int*> np.PyArray_DATA(model.trees_right_child),
@@ -98,7 +98,7 @@ def eff_feature_importance_tree(model, dataset, tree_id, y_pred,
         <float*> np.PyArray_DATA(y),
         <int*> np.PyArray_DATA(model.trees_root),
         <float*> np.PyArray_DATA(model.trees_weight),
-        <short*> np.PyArray_DATA(model.trees_nodes_feature),
+        <int*> np.PyArray_DATA(model.trees_nodes_feature),
         <float*> np.PyArray_DATA(model.trees_nodes_value),
         <int*> np.PyArray_DATA(model.trees_left_child),
         <int*> np.PyArray_DATA(model.trees_right_child),
diff --git a/rankeval/analysis/_efficient_feature_impl.cpp b/rankeval/analysis/_efficient_feature_impl.cpp
index bd5e870..d682b37 100644
--- a/rankeval/analysis/_efficient_feature_impl.cpp
+++ b/rankeval/analysis/_efficient_feature_impl.cpp
@@ -9,7 +9,7 @@ void c_feature_importance(
         const float* y,
         const int* trees_root,
         const float* trees_weight,
-        const short* trees_nodes__feature,
+        const int* trees_nodes__feature,
         const float* trees_nodes_value,
         const int* trees_left_child,
         const int* trees_right_child,
@@ -53,7 +53,7 @@ void c_feature_importance_tree(
         const float* y,
         const int* trees_root,
         const float* trees_weight,
-        const short* trees_nodes_feature,
+        const int* trees_nodes_feature,
         const float* trees_nodes_value,
         const int* trees_left_child,
         const int* trees_right_child,
@@ -98,7 +98,7 @@ void c_feature_importance_tree(
         queue.pop_back();
 
         int node_id = node.node_id;
-        short feature_id = trees_nodes_feature[node_id];
+        int feature_id = trees_nodes_feature[node_id];
         float threshold = trees_nodes_value[node_id];
 
         feature_count[feature_id]++;
diff --git a/rankeval/analysis/_efficient_feature_impl.h b/rankeval/analysis/_efficient_feature_impl.h
index 9b78b1a..65b1c5c 100644
--- a/rankeval/analysis/_efficient_feature_impl.h
+++ b/rankeval/analysis/_efficient_feature_impl.h
@@ -21,7 +21,7 @@ void c_feature_importance(
         const float* y,
         const int* trees_root,
         const float* trees_weight,
-        const short* trees_nodes_feature,
+        const int* trees_nodes_feature,
         const float* trees_nodes_value,
         const int* trees_left_child,
         const int* trees_right_child,
@@ -36,7 +36,7 @@ void c_feature_importance_tree(
         const float* y,
         const int* trees_root,
         const float* trees_weight,
-        const short* trees_nodes_feature,
+        const int* trees_nodes_feature,
         const float* trees_nodes_value,
         const int* trees_left_child,
         const int* trees_right_child,
diff --git a/rankeval/model/rt_ensemble.py b/rankeval/model/rt_ensemble.py
index a1724ab..014f5bf 100644
--- a/rankeval/model/rt_ensemble.py
+++ b/rankeval/model/rt_ensemble.py
@@ -167,7 +167,7 @@ class RTEnsemble(object):
         self.trees_nodes_value = \
             np.full(shape=n_nodes, fill_value=-1, dtype=np.float32)
         self.trees_nodes_feature = \
-            np.full(shape=n_nodes, fill_value=-1, dtype=np.int16)
+            np.full(shape=n_nodes, fill_value=-1, dtype=np.int32)
 
     def is_leaf_node(self, index):
         """
diff --git a/rankeval/scoring/_efficient_scoring.pyx b/rankeval/scoring/_efficient_scoring.pyx
index 4b44d5c..2a6eb0a 100644
--- a/rankeval/scoring/_efficient_scoring.pyx
+++ b/rankeval/scoring/_efficient_scoring.pyx
@@ -38,7 +38,7 @@ def basic_scoring(model, X):
 
     cdef int[:] trees_root = model.trees_root
     cdef float[:] trees_weight = model.trees_weight
-    cdef short[:] trees_nodes_feature = model.trees_nodes_feature
+    cdef int[:] trees_nodes_feature = model.trees_nodes_feature
     cdef float[:] trees_nodes_value = model.trees_nodes_value
     cdef int[:] trees_left_child = model.trees_left_child
     cdef int[:] trees_right_child  = model.trees_right_child
@@ -80,7 +80,7 @@ def detailed_scoring(model, X):
 
     cdef int[:] trees_root = model.trees_root
     cdef float[:] trees_weight = model.trees_weight
-    cdef short[:] trees_nodes_feature = model.trees_nodes_feature
+    cdef int[:] trees_nodes_feature = model.trees_nodes_feature
     cdef float[:] trees_nodes_value = model.trees_nodes_value
     cdef int[:] trees_left_child = model.trees_left_child
     cdef int[:] trees_right_child  = model.trees_right_child
@@ -115,14 +115,14 @@ cdef int _score_single_instance_single_tree(float[:,:] X,
                                             np.intp_t idx_tree,
                                             int[:] trees_root,
                                             float[:] trees_weight,
-                                            short[:] trees_nodes_feature,
+                                            int[:] trees_nodes_feature,
                                             float[:] trees_nodes_value,
                                             int[:] trees_left_child,
                                             int[:] trees_right_child) nogil:
 
     # Check the usage of np.intp_t in plave of np.int16_t
     cdef int cur_node = trees_root[idx_tree]
-    cdef short feature_idx
+    cdef int feature_idx
     cdef float feature_threshold
     while trees_left_child[cur_node] != -1 and trees_right_child[cur_node] != -1:
         feature_idx = trees_nodes_feature[cur_node]
-- 
2.43.0


From 9ad546eccc19b3d53b69eeb688e11ebe37106f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:18 +0000
Subject: [PATCH 59/82] fix: feature importance counted uses and numbered
 features with 16 bit integers

---
 rankeval/analysis/_efficient_feature.pyx      | 12 ++++++------
 rankeval/analysis/_efficient_feature_impl.cpp |  4 ++--
 rankeval/analysis/_efficient_feature_impl.h   |  4 ++--
 rankeval/analysis/feature.py                  |  4 ++--
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature.pyx b/rankeval/analysis/_efficient_feature.pyx
index 77f5ebf..9c87b5c 100644
--- a/rankeval/analysis/_efficient_feature.pyx
+++ b/rankeval/analysis/_efficient_feature.pyx
@@ -28,7 +28,7 @@ cdef extern from "_efficient_feature_impl.h":
         const int* trees_left_child,
         const int* trees_right_child,
         float* feature_imp,
-        short* feature_count,
+        int* feature_count,
         const int n_instances,
         const int n_features,
         const int n_trees);
@@ -44,7 +44,7 @@ cdef extern from "_efficient_feature_impl.h":
         const int* trees_right_child,
         const int tree_id,
         float* feature_imp,
-        short* feature_count,
+        int* feature_count,
         const int n_instances,
         const int n_features,
         float* y_pred,
@@ -58,7 +58,7 @@ def eff_feature_importance(model, dataset):
     feature_imp = np.zeros(dataset.n_features, dtype=np.float32)
 
     # initialize features importance
-    feature_count = np.zeros(dataset.n_features, dtype=np.uint16)
+    feature_count = np.zeros(dataset.n_features, dtype=np.int32)
 
     # the implementation reads the values in row-major order
     X = np.ascontiguousarray(dataset.X, dtype=np.float32)
@@ -74,13 +74,13 @@ def eff_feature_importance(model, dataset):
         <int*> np.PyArray_DATA(model.trees_left_child),
         <int*> np.PyArray_DATA(model.trees_right_child),
         <float*> np.PyArray_DATA(feature_imp),
-        <short*> np.PyArray_DATA(feature_count),
+        <int*> np.PyArray_DATA(feature_count),
         dataset.X.shape[0],
         dataset.X.shape[1],
         model.n_trees);
 
     return np.asarray(feature_imp, dtype=np.float32), \
-           np.asarray(feature_count, dtype=np.uint16)
+           np.asarray(feature_count, dtype=np.int32)
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -104,7 +104,7 @@ def eff_feature_importance_tree(model, dataset, tree_id, y_pred,
         <int*> np.PyArray_DATA(model.trees_right_child),
         tree_id,
         <float*> np.PyArray_DATA(feature_imp),
-        <short*> np.PyArray_DATA(feature_count),
+        <int*> np.PyArray_DATA(feature_count),
         dataset.X.shape[0],
         dataset.X.shape[1],
         <float*> np.PyArray_DATA(y_pred),
diff --git a/rankeval/analysis/_efficient_feature_impl.cpp b/rankeval/analysis/_efficient_feature_impl.cpp
index d682b37..d4fc7b2 100644
--- a/rankeval/analysis/_efficient_feature_impl.cpp
+++ b/rankeval/analysis/_efficient_feature_impl.cpp
@@ -14,7 +14,7 @@ void c_feature_importance(
         const int* trees_left_child,
         const int* trees_right_child,
         float* feature_imp,
-        short* feature_count,
+        int* feature_count,
         int n_instances,
         int n_features,
         int n_trees) {
@@ -59,7 +59,7 @@ void c_feature_importance_tree(
         const int* trees_right_child,
         const int tree_id,
         float* feature_imp,
-        short* feature_count,
+        int* feature_count,
         const int n_instances,
         const int n_features,
         float* y_pred,
diff --git a/rankeval/analysis/_efficient_feature_impl.h b/rankeval/analysis/_efficient_feature_impl.h
index 65b1c5c..d403905 100644
--- a/rankeval/analysis/_efficient_feature_impl.h
+++ b/rankeval/analysis/_efficient_feature_impl.h
@@ -26,7 +26,7 @@ void c_feature_importance(
         const int* trees_left_child,
         const int* trees_right_child,
         float* feature_imp,
-        short* feature_count,
+        int* feature_count,
         const int n_instances,
         const int n_features,
         const int n_trees);
@@ -42,7 +42,7 @@ void c_feature_importance_tree(
         const int* trees_right_child,
         const int tree_id,
         float* feature_imp,
-        short* feature_count,
+        int* feature_count,
         const int n_instances,
         const int n_features,
         float* y_pred,
diff --git a/rankeval/analysis/feature.py b/rankeval/analysis/feature.py
index 0d044ba..45b9581 100644
--- a/rankeval/analysis/feature.py
+++ b/rankeval/analysis/feature.py
@@ -77,7 +77,7 @@ def feature_importance(model, dataset, metric=None, normalize=True):
         feature_imp = np.zeros(dataset.n_features, dtype=np.float32)
 
         # initialize features count
-        feature_count = np.zeros(dataset.n_features, dtype=np.uint16)
+        feature_count = np.zeros(dataset.n_features, dtype=np.int32)
 
         # default scores on the root node of the first tree
         y_pred = np.zeros(dataset.n_instances)
@@ -93,7 +93,7 @@ def feature_importance(model, dataset, metric=None, normalize=True):
     performance = xr.DataArray([feature_imp, feature_count],
                                name='Feature Importance Analysis',
                                coords=[['importance', 'count'],
-                                       np.arange(dataset.n_features, dtype=np.uint16)],
+                                       np.arange(dataset.n_features, dtype=np.int32)],
                                dims=['type', 'feature'])
 
     return performance
-- 
2.43.0


From 8d02b3ccb919ccc185a806967b4a6012bbd2379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:18 +0000
Subject: [PATCH 60/82] fix: the base score of exported scikit-learn models was
 missing or wrong

---
 rankeval/model/proxy_ScikitLearn.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rankeval/model/proxy_ScikitLearn.py b/rankeval/model/proxy_ScikitLearn.py
index 990a09c..64312ba 100644
--- a/rankeval/model/proxy_ScikitLearn.py
+++ b/rankeval/model/proxy_ScikitLearn.py
@@ -178,7 +178,14 @@ class ProxyScikitLearn(object):
 
         if not hasattr(model, 'init_'):
             raise TypeError("Base score missing!")
-        if hasattr(model.init_, "quantile"):
+        if np.ndim(model.estimators_) > 1 and model.estimators_.shape[1] > 1:
+            raise TypeError("Multi-class models are not supported!")
+        if isinstance(model.init_, str) and model.init_ == "zero":
+            base_score = 0
+        elif hasattr(model.init_, "constant_"):
+            # dummy estimators always predict the same constant
+            base_score = np.ravel(model.init_.constant_)[0]
+        elif hasattr(model.init_, "quantile"):
             base_score = model.init_.quantile
         elif hasattr(model.init_, "mean"):
             base_score = model.init_.mean
-- 
2.43.0


From 9b31226598738d89d5e1a9d3338f3daed911520b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:18 +0000
Subject: [PATCH 61/82] fix: exported scikit-learn models lost the digits after
 the sixth decimal

---
 rankeval/model/proxy_ScikitLearn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rankeval/model/proxy_ScikitLearn.py b/rankeval/model/proxy_ScikitLearn.py
index 64312ba..b569db6 100644
--- a/rankeval/model/proxy_ScikitLearn.py
+++ b/rankeval/model/proxy_ScikitLearn.py
@@ -196,8 +196,8 @@ class ProxyScikitLearn(object):
         with open(file_path, 'w') as writer:
             if not hasattr(model, 'init_'):
                 raise TypeError("Base score missing!")
-            writer.write("base_score=%f\n" % base_score)
-            writer.write("learning_rate=%f\n" % model.learning_rate)
+            writer.write("base_score=%.17g\n" % base_score)
+            writer.write("learning_rate=%.17g\n" % model.learning_rate)
             for tree_id, tree in enumerate(model.estimators_.flatten()):
                 ProxyScikitLearn._export_tree(writer, tree, tree_id)
 
@@ -218,7 +218,7 @@ class ProxyScikitLearn(object):
             if tree_.feature[node] != _tree.TREE_UNDEFINED:
                 name = "f%d" % tree_.feature[node]
                 threshold = tree_.threshold[node]
-                writer.write("%s%d:[%s<=%f]\n" % (indent, node, name, threshold))
+                writer.write("%s%d:[%s<=%.17g]\n" % (indent, node, name, threshold))
                 recurse(tree_.children_left[node], depth + 1)
                 # print "%s%d:[%s>%f]" % (indent, node, name, threshold)
                 recurse(tree_.children_right[node], depth + 1)
-- 
2.43.0


From e5f3b492d6edf310373aa77e68c2c11a862456d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:18 +0000
Subject: [PATCH 62/82] fix: truncated, corrupted or foreign model files were
 silently loaded as wrong models

---
 rankeval/model/proxy_LightGBM.py |  4 ++++
 rankeval/model/rt_ensemble.py    | 27 +++++++++++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/rankeval/model/proxy_LightGBM.py b/rankeval/model/proxy_LightGBM.py
index db8cbb1..c3691eb 100644
--- a/rankeval/model/proxy_LightGBM.py
+++ b/rankeval/model/proxy_LightGBM.py
@@ -164,6 +164,10 @@ class ProxyLightGBM(object):
                         raise AssertionError("Decision Tree not supported")
                     continue
 
+        # the shrinkage comes after the nodes of a tree, thus a tree without it
+        # is not complete
+        if not model.trees_weight.all():
+            raise ValueError("The file %s is truncated!" % file_path)
 
     @staticmethod
     def save(file_path, model):
diff --git a/rankeval/model/rt_ensemble.py b/rankeval/model/rt_ensemble.py
index 014f5bf..dd1ae22 100644
--- a/rankeval/model/rt_ensemble.py
+++ b/rankeval/model/rt_ensemble.py
@@ -137,6 +137,9 @@ class RTEnsemble(object):
         else:
             raise TypeError("Model format %s not yet supported!" % format)
 
+        if self.n_trees is not None:
+            self._check_structure()
+
         if n_trees is not None and n_trees < self.n_trees:
             self._prune_model(n_trees)
 
@@ -169,6 +172,30 @@ class RTEnsemble(object):
         self.trees_nodes_feature = \
             np.full(shape=n_nodes, fill_value=-1, dtype=np.int32)
 
+    def _check_structure(self):
+        """
+        Check that the model loaded is made by complete trees, i.e., that every
+        node is either the root of a tree or the child of a single split node.
+        It is not the case if the file is truncated, corrupted or if it has been
+        saved in a different format.
+
+        Raises
+        ------
+        ValueError
+            If the model is not made by complete trees
+        """
+        is_split = self.trees_nodes_feature >= 0
+        nodes = np.concatenate([self.trees_root,
+                                self.trees_left_child[is_split],
+                                self.trees_right_child[is_split]])
+
+        if self.n_trees == 0 or \
+                (self.trees_left_child[~is_split] != -1).any() or \
+                (self.trees_right_child[~is_split] != -1).any() or \
+                not np.array_equal(np.sort(nodes), np.arange(self.n_nodes)):
+            raise ValueError("The file %s is not a valid or complete model!" %
+                             self.file)
+
     def is_leaf_node(self, index):
         """
         This method returns true if the node identified by the given index is a
-- 
2.43.0


From b8aeaf134bfafad0a9a14912cdeac31e959c2640 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:29:35 +0000
Subject: [PATCH 63/82] fix: unreadable SVMlight files (damaged archives, text
 mode) crashed the interpreter

---
 rankeval/dataset/_svmlight_format.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index 0ecae14..bb6b30f 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -124,7 +124,11 @@ public:
   }
 };
 
-
+/*
+ * Thrown when a call to the Python API fails (the Python exception is set).
+ */
+class PythonError : public std::exception {
+};
 
 /*
  * Convert a C++ vector to a 1d-ndarray WITHOUT memory copying.
@@ -330,7 +334,16 @@ void parse_file(PyObject *pystream,
   std::string line;
   while (true) {
     PyObject* py_line = PyFile_GetLine(pystream, 0);
-    line = std::string(PyBytes_AS_STRING(py_line));
+    if (py_line == NULL)
+      throw PythonError();
+    char *buffer;
+    // fails if the line is not made of bytes or contains null bytes
+    if (PyBytes_AsStringAndSize(py_line, &buffer, NULL) == -1) {
+      Py_DECREF(py_line);
+      throw PythonError();
+    }
+    line = std::string(buffer);
+    Py_DECREF(py_line);
     if (line.empty())
         break;
     lineno++;	  
@@ -357,6 +370,8 @@ static PyObject *load_svmlight_file(PyObject *self, PyObject *args)
     parse_file(pystream, data, labels, qids);
     return to_dense(data, labels, qids);
 
+  } catch (PythonError const &e) {
+    return 0;
   } catch (SyntaxError const &e) {
     PyErr_SetString(PyExc_ValueError, e.what());
     return 0;
-- 
2.43.0


From e2fa27e511655bee55a8996d299274f63bde8780 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:29:35 +0000
Subject: [PATCH 64/82] fix: ambiguous SVMlight samples were silently misread

---
 rankeval/dataset/_svmlight_format.cpp | 41 +++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index bb6b30f..2934349 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -28,6 +28,7 @@
 #include <Python.h>
 #include <numpy/arrayobject.h>
 
+#include <climits>
 #include <fstream>
 #include <sstream>
 #include <stdexcept>
@@ -245,7 +246,7 @@ void parse_line(const std::string &line,
                 std::vector<float> &data,
                 std::vector<float> &labels,
                 std::vector<int> &qids,
-                int &max_feature, int &lineno)
+                int &max_feature, int &first_feature, int &lineno)
 {
   if (line.length() == 0)
   	throw std::invalid_argument("empty line, lineno " + std::to_string(lineno));
@@ -260,12 +261,13 @@ void parse_line(const std::string &line,
   in.exceptions(std::ios::badbit);
 
   float y;
-  if (!(in >> y)) {
+  if (!(in >> y) || !(in.peek() == EOF || isspace(in.peek()))) {
   	throw std::invalid_argument( "non-numeric or missing label, lineno " + std::to_string(lineno) );
   }
   labels.push_back(y);
 
-  int idx, consumed;
+  long idx;
+  int consumed;
   double x;
   int next_feature = 1;
   bool reuse_line = false;
@@ -277,21 +279,47 @@ void parse_line(const std::string &line,
   }
 
 
-  if (sscanf(token.c_str(), "qid:%u%n", &idx, &consumed) != 1 ||
+  if (sscanf(token.c_str(), "qid:%ld%n", &idx, &consumed) != 1 ||
       token[consumed] != '\0') {
     reuse_line = true;
+  } else if (idx < INT_MIN || idx > INT_MAX) {
+    throw std::invalid_argument( "query id out of range, lineno " +
+                                 std::to_string(lineno) );
   } else {
     qids.push_back(idx);
   }
 
+  // either all the samples have a query id or none of them
+  if (!qids.empty() && qids.size() != labels.size())
+    throw std::invalid_argument( "query id missing from some of the samples, "
+                                 "lineno " + std::to_string(lineno) );
+
   while (true) {
     if (!reuse_line && !(in >> token))
         break;
     reuse_line = false;
 
-    if(sscanf(token.c_str(), "%u:%lf%n", &idx, &x, &consumed) == 2 &&
+    if(sscanf(token.c_str(), "%ld:%lf%n", &idx, &x, &consumed) == 2 &&
        token[consumed] == '\0') {
 
+        // features are numbered starting from zero iff every sample has a
+        // value for the feature zero, otherwise they are numbered from one
+        if (next_feature == 1) {
+          if (first_feature == -1)
+            first_feature = (idx == 0) ? 0 : 1;
+          else if (first_feature != ((idx == 0) ? 0 : 1))
+            throw std::invalid_argument( "features numbered both from zero and "
+                                         "from one, lineno " +
+                                         std::to_string(lineno) );
+        }
+        if (first_feature == 0)
+          ++idx;
+
+        if (idx < next_feature || idx >= INT_MAX)
+          throw std::invalid_argument( "feature ids not in increasing order or "
+                                       "out of range, lineno " +
+                                       std::to_string(lineno) );
+
         // Add zeros in empty spaces between next_feature and idx indices  (iff idx > next_feature)
         for (; next_feature < idx; ++next_feature)
           data.push_back(0);
@@ -330,6 +358,7 @@ void parse_file(PyObject *pystream,
                 std::vector<int> &qids)
 {
   int max_feature = 0;
+  int first_feature = -1;
   int lineno = 0;  
   std::string line;
   while (true) {
@@ -347,7 +376,7 @@ void parse_file(PyObject *pystream,
     if (line.empty())
         break;
     lineno++;	  
-    parse_line(line, data, labels, qids, max_feature, lineno);
+    parse_line(line, data, labels, qids, max_feature, first_feature, lineno);
   }
 }
 
-- 
2.43.0


From b6c4aa19aa00e7d3a8f33c35ee9f9f77643ec86d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:30:25 +0000
Subject: [PATCH 65/82] fix: files loaded together had a different number of
 features

---
 rankeval/dataset/svmlight_format.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rankeval/dataset/svmlight_format.py b/rankeval/dataset/svmlight_format.py
index c0115e4..d419bb8 100644
--- a/rankeval/dataset/svmlight_format.py
+++ b/rankeval/dataset/svmlight_format.py
@@ -149,6 +149,14 @@ def load_svmlight_files(files, query_id=False):
     for f in files:
         result += load_svmlight_file(f, query_id=query_id)
 
+    # all the matrices have the same features: the missing ones are zero
+    step = 3 if query_id else 2
+    n_features = max(X.shape[1] for X in result[::step])
+    for i in range(0, len(result), step):
+        missing = n_features - result[i].shape[1]
+        if missing > 0:
+            result[i] = np.pad(result[i], ((0, 0), (0, missing)), 'constant')
+
     return result
 
 
-- 
2.43.0


From f61f79deb5002b2cd5372f9ca5b776ac550a9041 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:30:25 +0000
Subject: [PATCH 66/82] fix: queries with scattered instances were silently
 mixed up

---
 rankeval/dataset/dataset.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index a0c8636..d255485 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -65,6 +65,11 @@ class Dataset(object):
         self.query_ids, self.query_offsets = \
             np.unique(query_ids, return_index=True)
 
+        # each query is identified by the range of its instances
+        if np.count_nonzero(query_ids[1:] != query_ids[:-1]) >= \
+                max(self.query_ids.size, 1):
+            raise Exception("the instances of each query have to be contiguous")
+
         # resort the arrays per offset (if the file does not contains qids in
         # order, the np.unique will return qids with a different ordering...
         idx_sort = np.argsort(self.query_offsets)
-- 
2.43.0


From e62c5f8425f9722bfd8cfe0872b83d9435b4e077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:11 +0000
Subject: [PATCH 67/82] fix: writing data of different lengths read outside the
 arrays, large query ids were silently changed

---
 rankeval/dataset/dataset.py         |  2 +-
 rankeval/dataset/svmlight_format.py | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index d255485..da12039 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -159,7 +159,7 @@ class Dataset(object):
         # we need to unroll the query_ids and query_offsets.
         # They are represented compact: they report only the query ids and the
         # offsets where each query starts and ends.
-        query_ids = np.ndarray(self.n_instances, dtype=np.int32)
+        query_ids = np.ndarray(self.n_instances, dtype=self.query_ids.dtype)
         for qid, start_offset, end_offset in self.query_iterator():
             for idx in np.arange(start_offset, end_offset):
                 query_ids[idx] = qid
diff --git a/rankeval/dataset/svmlight_format.py b/rankeval/dataset/svmlight_format.py
index d419bb8..49d2ec9 100644
--- a/rankeval/dataset/svmlight_format.py
+++ b/rankeval/dataset/svmlight_format.py
@@ -199,10 +199,18 @@ def dump_svmlight_file(X, y, f, query_id=None, zero_based=False):
     """
     X = np.array(X, dtype=np.float32, order='C')
     y = np.array(y, dtype=np.float32)
+    if X.ndim != 2 or y.size != X.shape[0]:
+        raise ValueError("X must be a matrix with a row for each label")
+
     if query_id is None:
         query_id = np.ndarray(0, dtype=np.int32)
     else:
-        query_id = np.array(query_id, dtype=np.int32)
+        given_ids = np.asarray(query_id)
+        query_id = np.array(given_ids, dtype=np.int32)
+        if query_id.size != X.shape[0]:
+            raise ValueError("query_id must have a value for each row of X")
+        if not np.array_equal(query_id, given_ids):
+            raise ValueError("query ids must be 32 bit integers")
 
     if hasattr(f, "write"):
         _dump_svmlight_file(f, X, y, query_id, int(zero_based))
-- 
2.43.0


From 19aeba2cefc7fa02f6c577cbaa875be113328cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:36 +0000
Subject: [PATCH 68/82] fix: datasets with a wrong number of labels were
 accepted

---
 rankeval/dataset/dataset.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index da12039..85e9b69 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -61,6 +61,11 @@ class Dataset(object):
                 "query_ids has wrong size. Expected %s but got %s" % (
                 X.shape[0], query_ids.size))
 
+        if y.size != X.shape[0]:
+            raise Exception(
+                "y has wrong size. Expected %s but got %s" % (
+                X.shape[0], y.size))
+
         # convert from query_ids per sample to query offset
         self.query_ids, self.query_offsets = \
             np.unique(query_ids, return_index=True)
-- 
2.43.0


From 08420c2152c8987764efac7bde58330a0c99ba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:52 +0000
Subject: [PATCH 69/82] fix: metrics silently accepted predictions of the wrong
 shape

---
 rankeval/metrics/metric.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rankeval/metrics/metric.py b/rankeval/metrics/metric.py
index 9907f5e..34e14e9 100644
--- a/rankeval/metrics/metric.py
+++ b/rankeval/metrics/metric.py
@@ -110,6 +110,10 @@ class Metric(six.with_metaclass(ABCMeta)):
             The predicted scores for the instances in the dataset belonging to
             the same query id.
         """
+        if np.shape(y_pred) != (dataset.n_instances,):
+            raise ValueError("y_pred has wrong shape. Expected %s but got %s" % (
+                (dataset.n_instances,), np.shape(y_pred)))
+
         for query_id, start_offset, end_offset in dataset.query_iterator():
             yield (query_id,
                    dataset.y[start_offset:end_offset],
-- 
2.43.0


From fa2510d0784d76d2718c61520f4b1da36e30615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:12 +0000
Subject: [PATCH 70/82] fix: archives could write outside the folder of the
 dataset

---
 rankeval/dataset/datasets_fetcher.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rankeval/dataset/datasets_fetcher.py b/rankeval/dataset/datasets_fetcher.py
index 6df794a..d5662d6 100644
--- a/rankeval/dataset/datasets_fetcher.py
+++ b/rankeval/dataset/datasets_fetcher.py
@@ -81,6 +81,9 @@ def __download__(url, archive_name, folder):
 
     print ("Decompressing %s" % archive_name)
     with tarfile.open(archive_name, "r:gz") as archive:
+        # refuse the members which would be written outside the folder
+        archive.extraction_filter = getattr(
+            tarfile, 'data_filter', (lambda member, path: member))
         archive.extractall(path=partial)
     os.remove(archive_name)
     os.rename(partial, folder)
-- 
2.43.0


From 1a31f6dc1c434ae213da9de175506583b046cf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:12 +0000
Subject: [PATCH 71/82] fix: simultaneous downloads of a dataset disturbed each
 other

---
 rankeval/dataset/datasets_fetcher.py | 82 ++++++++++++++++++----------
 1 file changed, 54 insertions(+), 28 deletions(-)

diff --git a/rankeval/dataset/datasets_fetcher.py b/rankeval/dataset/datasets_fetcher.py
index d5662d6..9fac265 100644
--- a/rankeval/dataset/datasets_fetcher.py
+++ b/rankeval/dataset/datasets_fetcher.py
@@ -11,8 +11,9 @@ import json
 import shutil
 import tarfile
 import fnmatch
+import tempfile
 from os import environ, makedirs
-from os.path import exists, expanduser, join
+from os.path import expanduser, join
 
 from .dataset import Dataset
 from .dataset_container import DatasetContainer
@@ -45,48 +46,73 @@ def __get_data_home__(data_home=None):
     if data_home is None:
         data_home = environ.get('RANKEVAL_DATA', join('~', 'rankeval_data'))
     data_home = expanduser(data_home)
-    if not exists(data_home):
-        makedirs(data_home)
+    __make_folder__(data_home)
     return data_home
 
 
+def __make_folder__(folder):
+    """
+    Create the given folder, unless it is there (another process may create it
+    at the same time).
+    """
+    try:
+        makedirs(folder)
+    except OSError:
+        if not os.path.isdir(folder):
+            raise
+
+
 def __remove__(folder):
     """
     Remove the given folder. It is renamed first, so that an interruption does
     not leave a folder which looks complete but is not.
     """
-    partial = folder + ".partial"
-    if os.path.exists(partial):
-        shutil.rmtree(partial)
-    if os.path.exists(folder):
-        os.rename(folder, partial)
-        shutil.rmtree(partial)
+    if not os.path.exists(folder):
+        return
+    partial = tempfile.mkdtemp(suffix=".partial", prefix=os.path.basename(folder),
+                               dir=os.path.dirname(folder))
+    try:
+        os.rename(folder, os.path.join(partial, os.path.basename(folder)))
+    except OSError:
+        # it may have been removed by another process in the meantime
+        if os.path.exists(folder):
+            raise
+    finally:
+        shutil.rmtree(partial, ignore_errors=True)
 
 
 def __download__(url, archive_name, folder):
     """
     Download the given archive and decompress it in the given folder. The
     folder appears only when its content is complete, hence a failed (or
-    interrupted) download is repeated by the next call.
+    interrupted) download is repeated by the next call. Several processes may
+    download the same archive: each of them works in a folder of its own.
     """
-    partial = folder + ".partial"
-    if os.path.exists(partial):
-        shutil.rmtree(partial)
-    os.makedirs(partial)
-
-    opener = urlopen(url)
-    archive_name = os.path.join(partial, archive_name)
-    with open(archive_name, 'wb') as f:
-        f.write(opener.read())
-
-    print ("Decompressing %s" % archive_name)
-    with tarfile.open(archive_name, "r:gz") as archive:
-        # refuse the members which would be written outside the folder
-        archive.extraction_filter = getattr(
-            tarfile, 'data_filter', (lambda member, path: member))
-        archive.extractall(path=partial)
-    os.remove(archive_name)
-    os.rename(partial, folder)
+    __make_folder__(os.path.dirname(folder))
+    partial = tempfile.mkdtemp(suffix=".partial", prefix=os.path.basename(folder),
+                               dir=os.path.dirname(folder))
+    try:
+        opener = urlopen(url)
+        archive_name = os.path.join(partial, archive_name)
+        with open(archive_name, 'wb') as f:
+            f.write(opener.read())
+
+        content = os.path.join(partial, os.path.basename(folder))
+        os.mkdir(content)
+        print ("Decompressing %s" % archive_name)
+        with tarfile.open(archive_name, "r:gz") as archive:
+            # refuse the members which would be written outside the folder
+            archive.extraction_filter = getattr(
+                tarfile, 'data_filter', (lambda member, path: member))
+            archive.extractall(path=content)
+        try:
+            os.rename(content, folder)
+        except OSError:
+            # another process may have been faster, its data is complete too
+            if not os.path.exists(folder):
+                raise
+    finally:
+        shutil.rmtree(partial, ignore_errors=True)
 
 
 def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
-- 
2.43.0


From d8569d2f4fa6b9ddfc0010c9c3a9375570d55fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:16 +0000
Subject: [PATCH 72/82] fix: LightGBM models with several classes or linear
 leaves were loaded as other models

---
 rankeval/model/proxy_LightGBM.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rankeval/model/proxy_LightGBM.py b/rankeval/model/proxy_LightGBM.py
index c3691eb..c8fff6f 100644
--- a/rankeval/model/proxy_LightGBM.py
+++ b/rankeval/model/proxy_LightGBM.py
@@ -35,6 +35,8 @@ import numpy as np
 
 from .rt_ensemble import RTEnsemble
 
+num_class_reg = re.compile("^(?:num_class|num_tree_per_iteration)=(\d+)")
+is_linear_reg = re.compile("^is_linear=(\d+)")
 tree_reg = re.compile("^Tree=(\d+)")
 num_leaves_reg = re.compile("^num_leaves=(\d+)")
 split_feature_reg = re.compile("^split_feature=(.*)")
@@ -157,6 +159,18 @@ class ProxyLightGBM(object):
                         raise AssertionError("Missing Values not supported!")
                     continue
 
+                match = num_class_reg.match(line)
+                if match:
+                    if int(match.group(1)) > 1:
+                        raise AssertionError("Multi-class models are not supported!")
+                    continue
+
+                match = is_linear_reg.match(line)
+                if match:
+                    if int(match.group(1)):
+                        raise AssertionError("Linear trees are not supported!")
+                    continue
+
                 match = has_categorical_reg.match(line)
                 if match:
                     categorical = bool(int(match.group(1)))
-- 
2.43.0


From bb7be8b921c06b312c29df6c23ac33532ba8c8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:09 +0000
Subject: [PATCH 73/82] fix: CatBoost models with several outputs were loaded
 as models with one

---
 rankeval/model/proxy_CatBoost.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rankeval/model/proxy_CatBoost.py b/rankeval/model/proxy_CatBoost.py
index cd48c9f..a079dc6 100644
--- a/rankeval/model/proxy_CatBoost.py
+++ b/rankeval/model/proxy_CatBoost.py
@@ -70,7 +70,11 @@ class ProxyCatBoost(object):
         # given the shape and size of the ensemble
         model.initialize(n_trees, n_nodes)
 
-        nodes = coreml_model.get_spec().treeEnsembleRegressor.treeEnsemble.nodes
+        ensemble = coreml_model.get_spec().treeEnsembleRegressor.treeEnsemble
+        if ensemble.numPredictionDimensions > 1:
+            raise AssertionError("Models with several outputs are not supported!")
+
+        nodes = ensemble.nodes
         behaviors = coremltools.proto.TreeEnsemble_pb2.TreeEnsembleParameters.\
             TreeNode.TreeNodeBehavior
 
-- 
2.43.0


From bccb9c96d4eebb06c371151c36468b1e7000c2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:09 +0000
Subject: [PATCH 74/82] fix: the bias of CatBoost models was lost on loading

---
 rankeval/model/proxy_CatBoost.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rankeval/model/proxy_CatBoost.py b/rankeval/model/proxy_CatBoost.py
index a079dc6..8e9992a 100644
--- a/rankeval/model/proxy_CatBoost.py
+++ b/rankeval/model/proxy_CatBoost.py
@@ -73,6 +73,9 @@ class ProxyCatBoost(object):
         ensemble = coreml_model.get_spec().treeEnsembleRegressor.treeEnsemble
         if ensemble.numPredictionDimensions > 1:
             raise AssertionError("Models with several outputs are not supported!")
+        # the bias of the model, unless the user asks for another one
+        if model.base_score is None and any(ensemble.basePredictionValue):
+            model.base_score = ensemble.basePredictionValue[0]
 
         nodes = ensemble.nodes
         behaviors = coremltools.proto.TreeEnsemble_pb2.TreeEnsembleParameters.\
-- 
2.43.0


From 77f962fe3461dfe97367bae5b87bc4cfbd7ce515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:12 +0000
Subject: [PATCH 75/82] fix: a metric evaluated by several threads mixed up
 their results per query

---
 rankeval/metrics/metric.py | 8 +++++---
 rankeval/metrics/mse.py    | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/rankeval/metrics/metric.py b/rankeval/metrics/metric.py
index 34e14e9..87627a6 100644
--- a/rankeval/metrics/metric.py
+++ b/rankeval/metrics/metric.py
@@ -62,12 +62,14 @@ class Metric(six.with_metaclass(ABCMeta)):
             Represents the detailed metric scores for each query. It has the
             length of n_queries.
         """
-        self.detailed_scores = np.zeros(dataset.n_queries, dtype=np.float32)
+        # not in the metric: others may evaluate it at the same time
+        detailed_scores = np.zeros(dataset.n_queries, dtype=np.float32)
 
         for rel_qid, (qid, q_y, q_y_pred) in enumerate(
                 self.query_iterator(dataset, y_pred)):
-            self.detailed_scores[rel_qid] = self.eval_per_query(q_y, q_y_pred)
-        return np.nanmean(self.detailed_scores), self.detailed_scores
+            detailed_scores[rel_qid] = self.eval_per_query(q_y, q_y_pred)
+        self.detailed_scores = detailed_scores
+        return np.nanmean(detailed_scores), detailed_scores
 
     @abstractmethod
     def eval_per_query(self, y, y_pred):
diff --git a/rankeval/metrics/mse.py b/rankeval/metrics/mse.py
index 7f941ad..ff619fb 100644
--- a/rankeval/metrics/mse.py
+++ b/rankeval/metrics/mse.py
@@ -56,13 +56,15 @@ class MSE(Metric):
         """
         # return super(self.__class__, self).eval(dataset, y_pred)
 
-        self.detailed_scores = np.zeros(dataset.n_queries, dtype=np.float32)
+        # not in the metric: others may evaluate it at the same time
+        detailed_scores = np.zeros(dataset.n_queries, dtype=np.float32)
 
         for rel_qid, (qid, q_y, q_y_pred) in enumerate(
                 self.query_iterator(dataset, y_pred)):
-            self.detailed_scores[rel_qid] = \
+            detailed_scores[rel_qid] = \
                 self.eval_per_query(q_y, q_y_pred) / dataset.n_instances
-        return self.detailed_scores.sum(), self.detailed_scores
+        self.detailed_scores = detailed_scores
+        return detailed_scores.sum(), detailed_scores
 
     def eval_per_query(self, y, y_pred):
         """
-- 
2.43.0


From 7b2104c2ff6131811a8fcef0584936e670266143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:12 +0000
Subject: [PATCH 76/82] fix: NDCG was unusable after an interruption and wrong
 when evaluated by several threads

---
 rankeval/metrics/ndcg.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/rankeval/metrics/ndcg.py b/rankeval/metrics/ndcg.py
index 3fea6b9..9ccda24 100644
--- a/rankeval/metrics/ndcg.py
+++ b/rankeval/metrics/ndcg.py
@@ -6,6 +6,8 @@
 # file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
 from collections import defaultdict
+import copy
+
 import numpy as np
 
 from rankeval.metrics.dcg import DCG
@@ -80,25 +82,25 @@ class NDCG(Metric):
             length of n_queries.
 
         """
-        # used to cache ideal DCG scores on a dataset basis
-        self._current_dataset = dataset
-        self._current_rel_qid = 0
-
         # Compute the ideal DCG scores only once and cache them
-        if self._current_dataset not in self._cache_idcg_score:
+        if dataset not in self._cache_idcg_score:
 
             idcg_score = np.ndarray(shape=dataset.n_queries, dtype=np.float32)
             for rel_id, (qid, q_y, _) in enumerate(
                     self.query_iterator(dataset, dataset.y)):
                 idcg_score[rel_id] = self.dcg.eval_per_query(q_y, q_y)
 
-            self._cache_idcg_score[self._current_dataset] = idcg_score
-
-        try:
-            return super(self.__class__, self).eval(dataset, y_pred)
-        finally:
-            # the cached values are only meant for the queries of this dataset
-            self._current_rel_qid = None
+            self._cache_idcg_score[dataset] = idcg_score
+
+        # the cached values are only meant for the queries of this dataset: the
+        # position in it belongs to this evaluation, not to the metric (the
+        # evaluation may be interrupted, and others may go on at the same time)
+        evaluation = copy.copy(self)
+        evaluation._current_dataset = dataset
+        evaluation._current_rel_qid = 0
+        avg_score, self.detailed_scores = \
+            super(self.__class__, evaluation).eval(dataset, y_pred)
+        return avg_score, evaluation.detailed_scores
 
     def eval_per_query(self, y, y_pred):
         """
-- 
2.43.0


From 0a68770f1d7c9393242659951422e125d1cd6bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:12 +0000
Subject: [PATCH 77/82] fix: a scorer whose detailed scoring was interrupted
 had no scores

---
 rankeval/scoring/scorer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rankeval/scoring/scorer.py b/rankeval/scoring/scorer.py
index 702f30a..03ed05d 100644
--- a/rankeval/scoring/scorer.py
+++ b/rankeval/scoring/scorer.py
@@ -82,9 +82,12 @@ class Scorer(object):
             return self.y_pred
 
         if detailed:
-            self.out_leaves, self.partial_y_pred = \
+            out_leaves, partial_y_pred = \
                 detailed_scoring(self.model, self.dataset.X)
-            self.y_pred = self.partial_y_pred.sum(axis=1)
+            self.y_pred = partial_y_pred.sum(axis=1)
+            self.partial_y_pred = partial_y_pred
+            # the last one: it tells that the scoring has been done
+            self.out_leaves = out_leaves
         else:
             self.y_pred = basic_scoring(self.model, self.dataset.X)
 
-- 
2.43.0


From 0ff830512bb6c63600c67eafe0294cddbfc4f82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:14 +0000
Subject: [PATCH 78/82] fix: SVMlight files were misread in programs whose
 locale has a decimal comma

---
 rankeval/dataset/_svmlight_format.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index 2934349..6d1ec71 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -239,6 +239,21 @@ void reshape_data(std::vector<float> &data,
 }
 
 
+/*
+ * Convert a whole string to a number, independently of the locale.
+ */
+static bool to_double(const char *str, double &value)
+{
+  char *end = NULL;
+  value = PyOS_string_to_double(str, &end, NULL);
+  if (PyErr_Occurred()) {
+    PyErr_Clear();
+    return false;
+  }
+  return *end == '\0';
+}
+
+
 /*
  * Parse single line. Throws exception on failure.
  */
@@ -299,8 +314,11 @@ void parse_line(const std::string &line,
         break;
     reuse_line = false;
 
-    if(sscanf(token.c_str(), "%ld:%lf%n", &idx, &x, &consumed) == 2 &&
-       token[consumed] == '\0') {
+    // the decimal separator is the point, whatever the locale is: sscanf
+    // would go by the locale of the program
+    consumed = 0;
+    if (sscanf(token.c_str(), "%ld:%n", &idx, &consumed) == 1 && consumed > 0 &&
+        to_double(token.c_str() + consumed, x)) {
 
         // features are numbered starting from zero iff every sample has a
         // value for the feature zero, otherwise they are numbered from one
-- 
2.43.0


From 2376cb98055b31991f9388c56e33bcfa27263e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:23 +0000
Subject: [PATCH 79/82] fix: whether a LightGBM model with named features was
 readable depended on the locale

---
 rankeval/model/proxy_LightGBM.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rankeval/model/proxy_LightGBM.py b/rankeval/model/proxy_LightGBM.py
index c8fff6f..47d0253 100644
--- a/rankeval/model/proxy_LightGBM.py
+++ b/rankeval/model/proxy_LightGBM.py
@@ -29,6 +29,7 @@ to load is trained on a dataset with missing values (especially in the case you
 use the setting zero_as_missing=true).
 """
 
+import io
 import re
 
 import numpy as np
@@ -76,7 +77,8 @@ class ProxyLightGBM(object):
 
         curr_tree = root_node = 0
         num_leaves = num_splits = 0
-        with open(file_path, 'r') as f:
+        # the names of the features may contain any character
+        with io.open(file_path, 'r', encoding='utf-8', errors='replace') as f:
             for line in f:
 
                 match = tree_reg.match(line)
@@ -223,7 +225,8 @@ class ProxyLightGBM(object):
         n_nodes = 0
         n_trees = 0
 
-        with open(file_path, 'r') as f:
+        # the names of the features may contain any character
+        with io.open(file_path, 'r', encoding='utf-8', errors='replace') as f:
             for line in f:
                 match = num_leaves_reg.match(line)
                 if match:
-- 
2.43.0


From d8502bcfc79979899eca98b35ee7b1f08496e1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:23 +0000
Subject: [PATCH 80/82] fix: plot_feature_importance ignored a number of
 features given as a numpy integer

---
 rankeval/visualization/feature.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rankeval/visualization/feature.py b/rankeval/visualization/feature.py
index 3f27736..805e41e 100644
--- a/rankeval/visualization/feature.py
+++ b/rankeval/visualization/feature.py
@@ -3,7 +3,6 @@ This package provides support for feature analysis visualizations.
 """
 
 from __future__ import print_function
-import six
 
 import matplotlib.pyplot as plt
 
@@ -60,7 +59,7 @@ def plot_feature_importance(feature_perf, max_features=10, sort_by="gain",
         raise RuntimeError("Sorting of features for visualization "
                            "not supported!")
 
-    if isinstance(max_features, six.integer_types):
+    if max_features is not None:
         idx_sorted = idx_sorted[:max_features]
     max_features = len(idx_sorted)
 
-- 
2.43.0


From d5dafba96a315bf896ba21db83dcf1a25a07317d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:40 +0000
Subject: [PATCH 81/82] fix: nodes of exported trees had no visible color when
 only one leaf was reached or all values are equal

---
 rankeval/visualization/topological.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rankeval/visualization/topological.py b/rankeval/visualization/topological.py
index 8631ff3..0e05261 100644
--- a/rankeval/visualization/topological.py
+++ b/rankeval/visualization/topological.py
@@ -211,8 +211,11 @@ def export_graphviz(ensemble, tree_id=0, out_file=None, max_depth=None,
         hex_codes = ["%x" % i for i in np.arange(16)]
         cmap = plt.get_cmap(colormap)
 
-        ratio = (value - colors['bounds'][0]) / \
-                (colors['bounds'][1] - colors['bounds'][0])
+        # values which do not differ have the same color
+        ratio = 0.
+        if colors['bounds'][1] > colors['bounds'][0]:
+            ratio = (value - colors['bounds'][0]) / \
+                    (colors['bounds'][1] - colors['bounds'][0])
         color = cmap(ratio)
         color = [int(np.round(c*255)) for c in color]
         # we increase the alpha in order to make the color brighter
@@ -420,8 +423,11 @@ def export_graphviz(ensemble, tree_id=0, out_file=None, max_depth=None,
                 colors['bounds'] = (np.min(list(counts.values())),
                                     np.max(list(counts.values())))
             elif label == 'leaves':
-                colors['bounds'] = (np.min(list(leaves_count[1])),
-                                    np.max(list(leaves_count[1])))
+                # the leaves which are never reached are colored too
+                leaves_count = [count for node_id, count in counts.items()
+                                if ensemble.is_leaf_node(node_id)]
+                colors['bounds'] = (np.min(leaves_count),
+                                    np.max(leaves_count))
             else:
                 raise ValueError("Label parameter not supported, %s" % label)
 
-- 
2.43.0


From a5e45bb1706cb29ecb8ab194571b6a333dedbdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:40 +0000
Subject: [PATCH 82/82] fix: percentages of exported trees were not those of
 the samples when only the leaves are labelled

---
 rankeval/visualization/topological.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rankeval/visualization/topological.py b/rankeval/visualization/topological.py
index 0e05261..e28a405 100644
--- a/rankeval/visualization/topological.py
+++ b/rankeval/visualization/topological.py
@@ -247,8 +247,10 @@ def export_graphviz(ensemble, tree_id=0, out_file=None, max_depth=None,
             if label == 'all' or ensemble.is_leaf_node(node_id):
                 proportion_txt = ""
                 if proportion:
+                    # the share of the samples, which all pass by the root
+                    n_samples = counts[ensemble.trees_root[tree_id]]
                     proportion_txt = " (%.2f%s)" % (
-                        float(counts[node_id]) / colors['bounds'][1] * 100,
+                        float(counts[node_id]) / max(n_samples, 1) * 100,
                         characters[6])
                 count_label += 'counts = %s%s%s' % (counts[node_id],
                                                     proportion_txt,
-- 
2.43.0

